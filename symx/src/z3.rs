//! Z3 back end (C API of the installed libz3): every branch feasibility and every
//! assertion over symbolic bytes is decided here; results are cached.
#![allow(non_camel_case_types)]
use crate::expr::*;
use crate::ir::BinOp;
use crate::fx::FxMap as HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, t: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];

pub struct Z3 {
    c: P,
    s: P,
    tr: HashMap<Eid, P>,
    trb: HashMap<Eid, P>,
    tabs: HashMap<(u32, u32, u32), P>,
    vars: HashMap<u32, P>,
    doms: HashMap<(u32, Dom), P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub time: f64,
    cex: HashMap<Vec<Eid>, Vec<(Vec<Dom>, Option<Vec<u8>>)>>,
    dcache: HashMap<(Dom, Dom), bool>,
}

pub enum Ans {
    Sat,
    Unsat,
}

impl Z3 {
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("{}.{}.{}", a, b, c)
    }
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char);
            let s = Z3_mk_solver_for_logic(c, l);
            Z3_solver_inc_ref(c, s);
            Z3 {
                c,
                s,
                tr: HashMap::default(),
                trb: HashMap::default(),
                tabs: HashMap::default(),
                vars: HashMap::default(),
                doms: HashMap::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cached: 0,
                time: 0.0,
                cex: HashMap::default(),
                dcache: HashMap::default(),
            }
        }
    }
    fn bv(&self, v: u64, w: u32) -> P {
        unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) }
    }
    fn var(&mut self, v: u32) -> P {
        let c = self.c;
        *self.vars.entry(v).or_insert_with(|| unsafe { Z3_mk_const(c, Z3_mk_int_symbol(c, v as c_int), Z3_mk_bv_sort(c, 8)) })
    }
    fn range(&mut self, v: u32, lo: u32, hi: u32) -> P {
        let x = self.var(v);
        unsafe {
            if lo == hi {
                return Z3_mk_eq(self.c, x, self.bv(lo as u64, 8));
            }
            let a = if lo == 0 { Z3_mk_true(self.c) } else { Z3_mk_bvule(self.c, self.bv(lo as u64, 8), x) };
            let b = if hi == 255 { Z3_mk_true(self.c) } else { Z3_mk_bvule(self.c, x, self.bv(hi as u64, 8)) };
            let ar = [a, b];
            Z3_mk_and(self.c, 2, ar.as_ptr())
        }
    }
    pub fn dom_ast(&mut self, v: u32, d: &Dom) -> P {
        if let Some(&a) = self.doms.get(&(v, *d)) {
            return a;
        }
        let mut parts = vec![];
        let mut i = 0u32;
        let has = |i: u32| d[(i / 64) as usize] >> (i % 64) & 1 == 1;
        while i < 256 {
            if has(i) {
                let st = i;
                while i + 1 < 256 && has(i + 1) {
                    i += 1;
                }
                parts.push(self.range(v, st, i));
            }
            i += 1;
        }
        let a = unsafe {
            if parts.is_empty() {
                Z3_mk_false(self.c)
            } else {
                Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr())
            }
        };
        self.doms.insert((v, *d), a);
        a
    }
    fn tab_ast(&mut self, v: u32, tid: u32, w: u32, t: &Table) -> P {
        if let Some(&a) = self.tabs.get(&(v, tid, w)) {
            return a;
        }
        // segments: constant or slope-1
        let mut segs: Vec<(u32, u32, bool)> = vec![];
        let mut i = 0usize;
        while i < 256 {
            let mut j = i;
            while j + 1 < 256 && t[j + 1] == t[i] {
                j += 1;
            }
            let mut k = i;
            while k + 1 < 256 && t[k + 1] == t[i].wrapping_add((k + 1 - i) as u64) & crate::ir::mask(w) {
                k += 1;
            }
            if k > j {
                segs.push((i as u32, k as u32, true));
                i = k + 1;
            } else {
                segs.push((i as u32, j as u32, false));
                i = j + 1;
            }
        }
        let x = self.var(v);
        let mut acc: P = std::ptr::null_mut();
        for &(lo, hi, lin) in segs.iter().rev() {
            let val = if lin {
                unsafe {
                    let xe = if w > 8 {
                        Z3_mk_zero_ext(self.c, w - 8, x)
                    } else if w == 8 {
                        x
                    } else {
                        Z3_mk_extract(self.c, w - 1, 0, x)
                    };
                    let delta = t[lo as usize].wrapping_sub(lo as u64) & crate::ir::mask(w);
                    if delta == 0 {
                        xe
                    } else {
                        Z3_mk_bvadd(self.c, xe, self.bv(delta, w))
                    }
                }
            } else {
                self.bv(t[lo as usize], w)
            };
            acc = if acc.is_null() {
                val
            } else {
                unsafe {
                    let c = Z3_mk_bvule(self.c, x, self.bv(hi as u64, 8));
                    Z3_mk_ite(self.c, c, val, acc)
                }
            };
        }
        self.tabs.insert((v, tid, w), acc);
        acc
    }
    fn look_ast(&mut self, t: &[u64], w: u32, idx: P, bits: u32, base: usize, cache: &mut HashMap<(u32, Vec<u64>), P>) -> P {
        // balanced multiplexer over the low `bits` bits of idx
        let get = |i: usize| *t.get(i).unwrap_or(&0);
        if bits == 0 {
            return self.bv(get(base), w);
        }
        let n = 1usize << bits;
        let key: Vec<u64> = (0..n).map(|i| get(base + i)).collect();
        if key.iter().all(|&x| x == key[0]) {
            return self.bv(key[0], w);
        }
        if let Some(&a) = cache.get(&(bits, key.clone())) {
            return a;
        }
        let h = bits - 1;
        let lo = self.look_ast(t, w, idx, h, base, cache);
        let hi = self.look_ast(t, w, idx, h, base + (1 << h), cache);
        let a = unsafe {
            let b = Z3_mk_extract(self.c, h, h, idx);
            let c = Z3_mk_eq(self.c, b, self.bv(1, 1));
            Z3_mk_ite(self.c, c, hi, lo)
        };
        cache.insert((bits, key), a);
        a
    }
    fn b2v(&self, b: P) -> P {
        unsafe { Z3_mk_ite(self.c, b, self.bv(1, 1), self.bv(0, 1)) }
    }
    /// boolean translation of a width-1 expression
    pub fn trb(&mut self, x: &Exprs, e: Eid) -> P {
        if let Some(&a) = self.trb.get(&e) {
            return a;
        }
        let (n, _w) = x.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            match n {
                N::K(k) => {
                    if k & 1 == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Tab(v, t) => {
                    let d = dom_of(&x.tabs[t as usize]);
                    self.dom_ast(v, &d)
                }
                N::Eq(a, b) => {
                    let (a, b) = (self.tr(x, a), self.tr(x, b));
                    Z3_mk_eq(c, a, b)
                }
                N::Ult(a, b) => {
                    let (a, b) = (self.tr(x, a), self.tr(x, b));
                    Z3_mk_bvult(c, a, b)
                }
                N::Slt(a, b) => {
                    let (a, b) = (self.tr(x, a), self.tr(x, b));
                    Z3_mk_bvslt(c, a, b)
                }
                N::Bin(BinOp::And, a, b) => {
                    let v = [self.trb(x, a), self.trb(x, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(BinOp::Or, a, b) => {
                    let v = [self.trb(x, a), self.trb(x, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(BinOp::Xor, a, b) => {
                    if let N::K(1) = x.nodes[b as usize].0 {
                        let v = self.trb(x, a);
                        Z3_mk_not(c, v)
                    } else if let N::K(1) = x.nodes[a as usize].0 {
                        let v = self.trb(x, b);
                        Z3_mk_not(c, v)
                    } else {
                        let (p, q) = (self.trb(x, a), self.trb(x, b));
                        Z3_mk_not(c, Z3_mk_eq(c, p, q))
                    }
                }
                N::Ite(k, a, b) => {
                    let (k, p, q) = (self.trb(x, k), self.trb(x, a), self.trb(x, b));
                    Z3_mk_ite(c, k, p, q)
                }
                _ => {
                    let a = self.tr(x, e);
                    Z3_mk_eq(c, a, self.bv(1, 1))
                }
            }
        };
        self.trb.insert(e, r);
        r
    }
    pub fn tr(&mut self, x: &Exprs, e: Eid) -> P {
        if let Some(&a) = self.tr.get(&e) {
            return a;
        }
        let (n, w) = x.nodes[e as usize];
        let w = w as u32;
        let c = self.c;
        let r = unsafe {
            match n {
                N::K(k) => self.bv(k, w),
                N::Tab(v, t) => self.tab_ast(v, t, w, &x.tabs[t as usize]),
                N::Bin(op, a, b) => {
                    if w == 1 && matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
                        let t = self.trb(x, e);
                        self.b2v(t)
                    } else {
                        let (a, b) = (self.tr(x, a), self.tr(x, b));
                        match op {
                            BinOp::Add => Z3_mk_bvadd(c, a, b),
                            BinOp::Sub => Z3_mk_bvsub(c, a, b),
                            BinOp::Mul => Z3_mk_bvmul(c, a, b),
                            BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
                            BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                            BinOp::URem => Z3_mk_bvurem(c, a, b),
                            BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                            BinOp::And => Z3_mk_bvand(c, a, b),
                            BinOp::Or => Z3_mk_bvor(c, a, b),
                            BinOp::Xor => Z3_mk_bvxor(c, a, b),
                            BinOp::Shl => Z3_mk_bvshl(c, a, b),
                            BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                            BinOp::AShr => Z3_mk_bvashr(c, a, b),
                        }
                    }
                }
                N::Eq(..) | N::Ult(..) | N::Slt(..) => {
                    let t = self.trb(x, e);
                    self.b2v(t)
                }
                N::Ite(k, a, b) => {
                    let k = self.trb(x, k);
                    let (a, b) = (self.tr(x, a), self.tr(x, b));
                    Z3_mk_ite(c, k, a, b)
                }
                N::ZExt(a) => {
                    let aw = x.width(a);
                    let a = self.tr(x, a);
                    Z3_mk_zero_ext(c, w - aw, a)
                }
                N::SExt(a) => {
                    let aw = x.width(a);
                    let a = self.tr(x, a);
                    Z3_mk_sign_ext(c, w - aw, a)
                }
                N::Ext(a, lo) => {
                    let a = self.tr(x, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, a)
                }
                N::Cat(a, b) => {
                    let (a, b) = (self.tr(x, a), self.tr(x, b));
                    Z3_mk_concat(c, a, b)
                }
                N::Look(t, i) => {
                    let idx = self.tr(x, i);
                    let tab = x.looks[t as usize].clone();
                    let mut bits = 0;
                    while (1usize << bits) < tab.len() {
                        bits += 1;
                    }
                    let mut cache = HashMap::default();
                    self.look_ast(&tab, w, idx, bits, 0, &mut cache)
                }
            }
        };
        self.tr.insert(e, r);
        r
    }
    /// Is `d ∩ s` non-empty for one free byte?  Decided by Z3 once per distinct pair.
    pub fn dom_sat(&mut self, d: &Dom, s: &Dom) -> bool {
        if let Some(&r) = self.dcache.get(&(*d, *s)) {
            self.cached += 1;
            return r;
        }
        let v = u32::MAX >> 1;
        let a = self.dom_ast(v, d);
        let b = self.dom_ast(v, s);
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            Z3_solver_assert(self.c, self.s, b);
            let r = Z3_solver_check(self.c, self.s);
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        self.queries += 1;
        let r = match r {
            1 => true,
            -1 => false,
            _ => {
                eprintln!("z3: unknown");
                std::process::abort()
            }
        };
        let bits = (0..4).any(|i| d[i] & s[i] != 0);
        if bits != r {
            eprintln!("z3 disagrees with the domain representation");
            std::process::abort();
        }
        if r {
            self.sat += 1
        } else {
            self.unsat += 1
        }
        self.dcache.insert((*d, *s), r);
        r
    }
    /// Satisfiability of constraints + domains.  `want`: variables whose model values are returned.
    pub fn check(&mut self, x: &Exprs, cons: &[Eid], doms: &[(u32, Dom)], want: Option<&mut Vec<(u32, u8)>>) -> Ans {
        // counterexample cache: for one set of constraints, a model within the current domains
        // answers sat, an earlier refutation over larger domains answers unsat
        // (`want`, when given, lists the variables of `doms` in the same order)
        let mut want = want;
        let mut key: Vec<Eid> = cons.to_vec();
        key.sort();
        key.dedup();
        if let Some(es) = self.cex.get(&key) {
            for (od, m) in es {
                if od.len() != doms.len() {
                    continue;
                }
                let hit = match m {
                    Some(m) => doms.iter().zip(m).all(|((_, d), &b)| d[(b >> 6) as usize] >> (b & 63) & 1 == 1),
                    None => doms.iter().zip(od).all(|((_, d), o)| (0..4).all(|i| d[i] & !o[i] == 0)),
                };
                if hit {
                    self.cached += 1;
                    if let (Some(w), Some(m)) = (want.as_mut(), m) {
                        for (x, b) in w.iter_mut().zip(m) {
                            x.1 = *b;
                        }
                    }
                    return if m.is_some() { Ans::Sat } else { Ans::Unsat };
                }
            }
        }
        let mut own: Vec<(u32, u8)> = doms.iter().map(|d| (d.0, 0)).collect();
        let want = match want {
            Some(w) => w,
            None => &mut own,
        };
        let mut asts: Vec<P> = vec![];
        for &c in cons {
            asts.push(self.trb(x, c));
        }
        for (v, d) in doms {
            asts.push(self.dom_ast(*v, d));
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts {
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for (v, o) in want.iter_mut() {
                    let a = self.var(*v);
                    let mut out: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut out);
                    let mut n = 0u64;
                    Z3_get_numeral_uint64(self.c, out, &mut n);
                    *o = n as u8;
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        self.queries += 1;
        let r = match r {
            1 => true,
            -1 => false,
            _ => {
                eprintln!("z3: unknown");
                std::process::abort()
            }
        };
        if r {
            self.sat += 1
        } else {
            self.unsat += 1
        }
        let m = if r { Some(want.iter().map(|x| x.1).collect()) } else { None };
        self.cex.entry(key).or_default().push((doms.iter().map(|d| d.1).collect(), m));
        if r {
            Ans::Sat
        } else {
            Ans::Unsat
        }
    }
}

pub fn dom_of(t: &Table) -> Dom {
    let mut d = [0u64; 4];
    for i in 0..256 {
        if t[i] & 1 == 1 {
            d[i / 64] |= 1 << (i % 64);
        }
    }
    d
}
