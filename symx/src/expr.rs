//! Bit-vector expressions (hash-consed).  An expression that depends on a single
//! symbolic byte is kept in the canonical form `Tab(var, table)`: its value as a
//! function of that byte.  Everything is handed to Z3 for the verdicts (z3.rs).
use crate::ir::{mask, sx, BinOp, Pred};
use crate::fx::FxMap as HashMap;

pub type Eid = u32;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(Eid),
    A(std::rc::Rc<Vec<Val>>),
}

impl Val {
    pub fn c(&self) -> Option<u64> {
        match self {
            Val::C(c) => Some(*c),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(u64),
    Tab(u32, u32),
    Bin(BinOp, Eid, Eid),
    Eq(Eid, Eid),
    Ult(Eid, Eid),
    Slt(Eid, Eid),
    Ite(Eid, Eid, Eid),
    ZExt(Eid),
    SExt(Eid),
    Ext(Eid, u8), // extract low bit index; width of node = result width
    Cat(Eid, Eid), // hi, lo
    Look(u32, Eid), // constant table, 64-bit index
}

pub type Table = [u64; 256];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup {
    None,
    One(u32),
    Many(u32),
}

#[derive(Default)]
pub struct Exprs {
    pub nodes: Vec<(N, u8)>,
    pub sup: Vec<Sup>,
    pub ub: Vec<u64>,
    map: HashMap<(N, u8), Eid>,
    pub tabs: Vec<Box<Table>>,
    tmap: HashMap<Box<Table>, u32>,
    pub looks: Vec<std::rc::Rc<Vec<u64>>>,
    lmap: HashMap<std::rc::Rc<Vec<u64>>, u32>,
    pub sets: Vec<Vec<u32>>,
    smap: HashMap<Vec<u32>, u32>,
}

pub fn eval_bin(op: BinOp, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            if b == 0 {
                0
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u64
            }
        }
        BinOp::SRem => {
            if b == 0 {
                0
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u64
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = sx(a, w);
            (if b >= w as u64 { s >> 63 } else { s >> b }) as u64
        }
    }) & m
}

pub fn eval_pred(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Exprs {
    pub fn new() -> Self {
        let mut e = Exprs::default();
        // id 0 reserved: "no symbolic byte"
        e.nodes.push((N::K(0), 0));
        e.sup.push(Sup::None);
        e.ub.push(0);
        e
    }
    fn set_id(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.smap.get(&v) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.smap.insert(v, i);
        i
    }
    fn union(&mut self, a: Sup, b: Sup) -> Sup {
        match (a, b) {
            (Sup::None, x) | (x, Sup::None) => x,
            (Sup::One(x), Sup::One(y)) if x == y => a,
            _ => {
                let mut v: Vec<u32> = self.vars_of(a);
                for x in self.vars_of(b) {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                v.sort();
                Sup::Many(self.set_id(v))
            }
        }
    }
    pub fn vars_of(&self, s: Sup) -> Vec<u32> {
        match s {
            Sup::None => vec![],
            Sup::One(v) => vec![v],
            Sup::Many(i) => self.sets[i as usize].clone(),
        }
    }
    pub fn width(&self, e: Eid) -> u32 {
        self.nodes[e as usize].1 as u32
    }
    fn intern(&mut self, n: N, w: u32) -> Eid {
        if let Some(&i) = self.map.get(&(n, w as u8)) {
            return i;
        }
        let s = match n {
            N::K(_) => Sup::None,
            N::Tab(v, _) => Sup::One(v),
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Cat(a, b) => {
                self.union(self.sup[a as usize], self.sup[b as usize])
            }
            N::Ite(c, a, b) => {
                let u = self.union(self.sup[a as usize], self.sup[b as usize]);
                self.union(self.sup[c as usize], u)
            }
            N::ZExt(a) | N::SExt(a) | N::Ext(a, _) | N::Look(_, a) => self.sup[a as usize],
        };
        let i = self.nodes.len() as Eid;
        self.nodes.push((n, w as u8));
        self.sup.push(s);
        let u = self.upper(n, w);
        self.ub.push(u);
        self.map.insert((n, w as u8), i);
        i
    }
    /// a sound upper bound (unsigned) of a node's value over all assignments
    fn upper(&self, n: N, w: u32) -> u64 {
        let m = mask(w);
        let ones = |x: u64| if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
        let u = |e: Eid| self.ub[e as usize];
        match n {
            N::K(k) => k,
            N::Tab(_, t) => self.tabs[t as usize].iter().cloned().max().unwrap(),
            N::Bin(BinOp::And, a, b) => u(a).min(u(b)),
            N::Bin(BinOp::Or, a, b) | N::Bin(BinOp::Xor, a, b) => ones(u(a) | u(b)),
            N::Bin(BinOp::Add, a, b) => match u(a).checked_add(u(b)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            N::Bin(BinOp::Mul, a, b) => match u(a).checked_mul(u(b)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            N::Bin(BinOp::Shl, a, b) => match self.nodes[b as usize].0 {
                N::K(k) if k < w as u64 && u(a) <= m >> k => u(a) << k,
                _ => m,
            },
            N::Bin(BinOp::LShr, a, b) => match self.nodes[b as usize].0 {
                N::K(k) if k < w as u64 => u(a) >> k,
                _ => u(a),
            },
            N::Bin(BinOp::UDiv, a, b) => match self.nodes[b as usize].0 {
                N::K(k) if k > 0 => u(a) / k,
                _ => m,
            },
            N::Bin(BinOp::URem, _, b) => match self.nodes[b as usize].0 {
                N::K(k) if k > 0 => k - 1,
                _ => m,
            },
            N::Ite(_, a, b) => u(a).max(u(b)),
            N::ZExt(a) => u(a),
            N::Ext(a, 0) if u(a) <= m => u(a),
            N::Look(t, _) => self.looks[t as usize].iter().cloned().max().unwrap_or(m) & m | 0,
            _ => m,
        }
    }
    pub fn tab_id(&mut self, t: Box<Table>) -> u32 {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.tabs.len() as u32;
        self.tabs.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn tab(&mut self, v: u32, t: Box<Table>, w: u32) -> Val {
        let f = t[0];
        if t.iter().all(|&x| x == f) {
            return Val::C(f);
        }
        let id = self.tab_id(t);
        Val::S(self.intern(N::Tab(v, id), w))
    }
    pub fn var(&mut self, v: u32) -> Val {
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 {
            t[i] = i as u64;
        }
        self.tab(v, t, 8)
    }
    pub fn look_id(&mut self, t: Vec<u64>) -> u32 {
        let t = std::rc::Rc::new(t);
        if let Some(&i) = self.lmap.get(&t) {
            return i;
        }
        let i = self.looks.len() as u32;
        self.looks.push(t.clone());
        self.lmap.insert(t, i);
        i
    }
    pub fn id(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(c) => self.intern(N::K(*c), w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate in scalar expression"),
        }
    }
    /// single-variable view of a value
    fn one(&self, v: &Val) -> Option<(Option<u32>, u32)> {
        match v {
            Val::C(_) => Some((None, 0)),
            Val::S(e) => match self.nodes[*e as usize].0 {
                N::Tab(v, t) => Some((Some(v), t)),
                _ => None,
            },
            _ => None,
        }
    }
    fn fold2(&mut self, a: &Val, b: &Val, w: u32, f: impl Fn(u64, u64) -> u64) -> Option<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) => return Some(Val::C(f(*x, *y))),
            _ => {}
        }
        let (va, ta) = self.one(a)?;
        let (vb, tb) = self.one(b)?;
        if va.is_some() && vb.is_some() && va != vb {
            return None;
        }
        let v = va.or(vb).unwrap();
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 {
            let x = match a {
                Val::C(c) => *c,
                _ => self.tabs[ta as usize][i],
            };
            let y = match b {
                Val::C(c) => *c,
                _ => self.tabs[tb as usize][i],
            };
            t[i] = f(x, y);
        }
        Some(self.tab(v, t, w))
    }
    fn fold1(&mut self, a: &Val, w: u32, f: impl Fn(u64) -> u64) -> Option<Val> {
        match a {
            Val::C(x) => return Some(Val::C(f(*x))),
            _ => {}
        }
        let (v, t) = self.one(a)?;
        let src = self.tabs[t as usize].clone();
        let mut o = Box::new([0u64; 256]);
        for i in 0..256 {
            o[i] = f(src[i]);
        }
        Some(self.tab(v.unwrap(), o, w))
    }
    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let Some(r) = self.fold2(a, b, w, |x, y| eval_bin(op, w, x, y)) {
            return r;
        }
        // a few identities
        let m = mask(w);
        if let (BinOp::Sub, Some(k)) = (op, b.c()) {
            if k != 0 {
                return self.bin(BinOp::Add, w, a, &Val::C(k.wrapping_neg() & m));
            }
        }
        if let (BinOp::LShr, Some(k), Val::S(e)) = (op, b.c(), a) {
            if k < w as u64 && self.ub[*e as usize] >> k == 0 {
                return Val::C(0);
            }
            if let N::Bin(BinOp::Shl, p, q) = self.nodes[*e as usize].0 {
                if let N::K(k2) = self.nodes[q as usize].0 {
                    if k2 == k && k < w as u64 && self.ub[p as usize] <= m >> k {
                        return self.val(p);
                    }
                }
            }
        }
        match (op, a.c(), b.c()) {
            (BinOp::Add | BinOp::Or | BinOp::Xor, Some(0), _) => return b.clone(),
            (BinOp::Add | BinOp::Or | BinOp::Xor | BinOp::Sub | BinOp::Shl | BinOp::LShr | BinOp::AShr, _, Some(0)) => return a.clone(),
            (BinOp::And | BinOp::Mul, Some(0), _) | (BinOp::And | BinOp::Mul, _, Some(0)) => return Val::C(0),
            (BinOp::And, Some(x), _) if x == m => return b.clone(),
            (BinOp::And, _, Some(x)) if x == m => return a.clone(),
            (BinOp::Or, Some(x), _) | (BinOp::Or, _, Some(x)) if x == m => return Val::C(m),
            (BinOp::Mul, Some(1), _) => return b.clone(),
            (BinOp::Mul, _, Some(1)) => return a.clone(),
            _ => {}
        }
        let mut x = self.id(a, w);
        let mut y = self.id(b, w);
        if x == y {
            match op {
                BinOp::Xor | BinOp::Sub => return Val::C(0),
                BinOp::And | BinOp::Or => return a.clone(),
                _ => {}
            }
        }
        // and with a low mask of a zext
        if let (BinOp::And, Some(k)) = (op, b.c()) {
            if let N::ZExt(z) = self.nodes[x as usize].0 {
                let zw = self.width(z);
                if k & mask(zw) == mask(zw) {
                    return a.clone();
                }
            }
        }
        // (shl a k) with constant / lshr of concat handled by Z3
        if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) && x > y {
            std::mem::swap(&mut x, &mut y);
        }
        // associate constants: (a op k1) op k2
        if let (BinOp::Add | BinOp::And | BinOp::Or | BinOp::Xor, Some(k2)) = (op, b.c()) {
            let ai = self.id(a, w);
            if let N::Bin(op2, p, q) = self.nodes[ai as usize].0 {
                if op2 == op {
                    for (c, o) in [(p, q), (q, p)] {
                        if let N::K(k1) = self.nodes[c as usize].0 {
                            let k = eval_bin(op, w, k1, k2);
                            return self.bin(op, w, &Val::S(o), &Val::C(k));
                        }
                    }
                }
            }
        }
        Val::S(self.intern(N::Bin(op, x, y), w))
    }
    pub fn not1(&mut self, a: &Val) -> Val {
        self.bin(BinOp::Xor, 1, a, &Val::C(1))
    }
    pub fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let Some(r) = self.fold2(a, b, 1, |x, y| eval_pred(p, w, x, y) as u64) {
            return r;
        }
        let x = self.id(a, w);
        let y = self.id(b, w);
        if x == y {
            return Val::C(eval_pred(p, w, 0, 0) as u64);
        }
        let (ux, uy) = (self.ub[x as usize], self.ub[y as usize]);
        match (p, a.c(), b.c()) {
            (Pred::Eq, _, Some(k)) if k > ux => return Val::C(0),
            (Pred::Eq, Some(k), _) if k > uy => return Val::C(0),
            (Pred::Ne, _, Some(k)) if k > ux => return Val::C(1),
            (Pred::Ne, Some(k), _) if k > uy => return Val::C(1),
            (Pred::Ult, _, Some(k)) if ux < k => return Val::C(1),
            (Pred::Ult, Some(k), _) if uy <= k => return Val::C(0),
            (Pred::Ule, _, Some(k)) if ux <= k => return Val::C(1),
            (Pred::Ule, Some(k), _) if uy < k => return Val::C(0),
            (Pred::Ugt, _, Some(k)) if ux <= k => return Val::C(0),
            (Pred::Ugt, Some(k), _) if uy < k => return Val::C(1),
            (Pred::Uge, _, Some(k)) if ux < k => return Val::C(0),
            (Pred::Uge, Some(k), _) if uy <= k => return Val::C(1),
            _ => {}
        }
        match p {
            Pred::Eq => {
                if w == 1 {
                    let t = self.bin(BinOp::Xor, 1, a, b);
                    return self.not1(&t);
                }
                // eq(zext x, k)
                if let (N::ZExt(z), Some(k)) = (self.nodes[x as usize].0, b.c()) {
                    let zw = self.width(z);
                    if k > mask(zw) {
                        return Val::C(0);
                    }
                    return self.cmp(Pred::Eq, zw, &Val::S(z), &Val::C(k));
                }
                if let (N::Cat(h, l), Some(k)) = (self.nodes[x as usize].0, b.c()) {
                    let lw = self.width(l);
                    let hw = self.width(h);
                    let vh = self.val(h);
                    let vl = self.val(l);
                    let c1 = self.cmp(Pred::Eq, hw, &vh, &Val::C(k >> lw));
                    let c2 = self.cmp(Pred::Eq, lw, &vl, &Val::C(k & mask(lw)));
                    return self.bin(BinOp::And, 1, &c1, &c2);
                }
                let (x, y) = if x > y { (y, x) } else { (x, y) };
                Val::S(self.intern(N::Eq(x, y), 1))
            }
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, w, a, b);
                self.not1(&e)
            }
            Pred::Ult => Val::S(self.intern(N::Ult(x, y), 1)),
            Pred::Ugt => Val::S(self.intern(N::Ult(y, x), 1)),
            Pred::Ule => {
                let e = Val::S(self.intern(N::Ult(y, x), 1));
                self.not1(&e)
            }
            Pred::Uge => {
                let e = Val::S(self.intern(N::Ult(x, y), 1));
                self.not1(&e)
            }
            Pred::Slt => Val::S(self.intern(N::Slt(x, y), 1)),
            Pred::Sgt => Val::S(self.intern(N::Slt(y, x), 1)),
            Pred::Sle => {
                let e = Val::S(self.intern(N::Slt(y, x), 1));
                self.not1(&e)
            }
            Pred::Sge => {
                let e = Val::S(self.intern(N::Slt(x, y), 1));
                self.not1(&e)
            }
        }
    }
    pub fn val(&self, e: Eid) -> Val {
        match self.nodes[e as usize].0 {
            N::K(k) => Val::C(k),
            _ => Val::S(e),
        }
    }
    pub fn ite(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        if let Val::C(k) = c {
            return if *k & 1 == 1 { a.clone() } else { b.clone() };
        }
        let ci = self.id(c, 1);
        let x = self.id(a, w);
        let y = self.id(b, w);
        if x == y {
            return a.clone();
        }
        if let N::Tab(v, tc) = self.nodes[ci as usize].0 {
            let g = |s: &Self, e: Eid| -> Option<Option<u32>> {
                match s.nodes[e as usize].0 {
                    N::K(_) => Some(None),
                    N::Tab(v2, t) if v2 == v => Some(Some(t)),
                    _ => None,
                }
            };
            if let (Some(ta), Some(tb)) = (g(self, x), g(self, y)) {
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 {
                    let va = match ta {
                        Some(q) => self.tabs[q as usize][i],
                        None => a.c().unwrap_or_else(|| self.kval(x)),
                    };
                    let vb = match tb {
                        Some(q) => self.tabs[q as usize][i],
                        None => b.c().unwrap_or_else(|| self.kval(y)),
                    };
                    t[i] = if self.tabs[tc as usize][i] & 1 == 1 { va } else { vb };
                }
                return self.tab(v, t, w);
            }
        }
        if w == 1 {
            match (a.c(), b.c()) {
                (Some(1), Some(0)) => return c.clone(),
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(BinOp::Or, 1, c, b),
                (None, Some(0)) => return self.bin(BinOp::And, 1, c, a),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(BinOp::And, 1, &n, b);
                }
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(BinOp::Or, 1, &n, a);
                }
                _ => {}
            }
        }
        Val::S(self.intern(N::Ite(ci, x, y), w))
    }
    fn kval(&self, e: Eid) -> u64 {
        match self.nodes[e as usize].0 {
            N::K(k) => k,
            _ => unreachable!(),
        }
    }
    pub fn zext(&mut self, a: &Val, from: u32, to: u32) -> Val {
        if from == to {
            return a.clone();
        }
        if let Some(r) = self.fold1(a, to, |x| x) {
            return r;
        }
        let x = self.id(a, from);
        if let N::ZExt(z) = self.nodes[x as usize].0 {
            return Val::S(self.intern(N::ZExt(z), to));
        }
        Val::S(self.intern(N::ZExt(x), to))
    }
    pub fn sext(&mut self, a: &Val, from: u32, to: u32) -> Val {
        if from == to {
            return a.clone();
        }
        if let Some(r) = self.fold1(a, to, |x| (sx(x, from) as u64) & mask(to)) {
            return r;
        }
        let x = self.id(a, from);
        Val::S(self.intern(N::SExt(x), to))
    }
    pub fn ext(&mut self, a: &Val, from: u32, lo: u32, w: u32) -> Val {
        if lo == 0 && w == from {
            return a.clone();
        }
        if let Some(r) = self.fold1(a, w, |x| (x >> lo) & mask(w)) {
            return r;
        }
        let x = self.id(a, from);
        match self.nodes[x as usize].0 {
            N::ZExt(z) => {
                let zw = self.width(z);
                if lo >= zw {
                    return Val::C(0);
                }
                if lo + w <= zw {
                    let v = self.val(z);
                    return self.ext(&v, zw, lo, w);
                }
                let v = self.val(z);
                let p = self.ext(&v, zw, lo, zw - lo);
                return self.zext(&p, zw - lo, w);
            }
            N::Cat(h, l) => {
                let lw = self.width(l);
                let hw = self.width(h);
                if lo + w <= lw {
                    let v = self.val(l);
                    return self.ext(&v, lw, lo, w);
                }
                if lo >= lw {
                    let v = self.val(h);
                    return self.ext(&v, hw, lo - lw, w);
                }
                let (vh, vl) = (self.val(h), self.val(l));
                let pl = self.ext(&vl, lw, lo, lw - lo);
                let ph = self.ext(&vh, hw, 0, w - (lw - lo));
                return self.cat(&ph, w - (lw - lo), &pl, lw - lo);
            }
            N::Ext(y, l0) => {
                let yw = self.width(y);
                return self.ext(&Val::S(y), yw, lo + l0 as u32, w);
            }
            N::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), p, q) => {
                let (vp, vq) = (self.val(p), self.val(q));
                let a1 = self.ext(&vp, from, lo, w);
                let b1 = self.ext(&vq, from, lo, w);
                return self.bin(op, w, &a1, &b1);
            }
            N::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), p, q) if lo == 0 => {
                let (vp, vq) = (self.val(p), self.val(q));
                let a1 = self.ext(&vp, from, 0, w);
                let b1 = self.ext(&vq, from, 0, w);
                return self.bin(op, w, &a1, &b1);
            }
            N::Bin(BinOp::Shl, p, q) => {
                if let N::K(k) = self.nodes[q as usize].0 {
                    let k = k as u32;
                    let vp = self.val(p);
                    if k >= lo + w {
                        return Val::C(0);
                    }
                    if lo >= k {
                        return self.ext(&vp, from, lo - k, w);
                    }
                    let part = self.ext(&vp, from, 0, lo + w - k);
                    return self.cat(&part, lo + w - k, &Val::C(0), k - lo);
                }
            }
            N::Bin(BinOp::LShr, p, q) => {
                if let N::K(k) = self.nodes[q as usize].0 {
                    let k = k as u32;
                    let vp = self.val(p);
                    if lo + k >= from {
                        return Val::C(0);
                    }
                    if lo + k + w <= from {
                        return self.ext(&vp, from, lo + k, w);
                    }
                    let n = from - lo - k;
                    let part = self.ext(&vp, from, lo + k, n);
                    return self.zext(&part, n, w);
                }
            }
            N::Ite(c, p, q) => {
                let (vp, vq) = (self.val(p), self.val(q));
                let a1 = self.ext(&vp, from, lo, w);
                let b1 = self.ext(&vq, from, lo, w);
                return self.ite(&Val::S(c), w, &a1, &b1);
            }
            _ => {}
        }
        Val::S(self.intern(N::Ext(x, lo as u8), w))
    }
    pub fn cat(&mut self, h: &Val, hw: u32, l: &Val, lw: u32) -> Val {
        let w = hw + lw;
        if let Some(r) = self.fold2(h, l, w, |x, y| (x << lw) | y) {
            return r;
        }
        if h.c() == Some(0) {
            return self.zext(l, lw, w);
        }
        let x = self.id(h, hw);
        let y = self.id(l, lw);
        if let (N::Ext(p, a), N::Ext(q, b)) = (self.nodes[x as usize].0, self.nodes[y as usize].0) {
            if p == q && a as u32 == b as u32 + lw {
                let pw = self.width(p);
                return self.ext(&Val::S(p), pw, b as u32, w);
            }
        }
        // cat(h, cat(ext, ..)) patterns: merge h with the top of l
        if let (N::Ext(p, a), N::Cat(lh, ll)) = (self.nodes[x as usize].0, self.nodes[y as usize].0) {
            if let N::Ext(q, b) = self.nodes[lh as usize].0 {
                if p == q && a as u32 == b as u32 + self.width(lh) {
                    let pw = self.width(p);
                    let nw = hw + self.width(lh);
                    let m = self.ext(&Val::S(p), pw, b as u32, nw);
                    let vl = self.val(ll);
                    let llw = self.width(ll);
                    return self.cat(&m, nw, &vl, llw);
                }
            }
        }
        Val::S(self.intern(N::Cat(x, y), w))
    }
    pub fn look(&mut self, tid: u32, idx: &Val, w: u32) -> Val {
        let t = self.looks[tid as usize].clone();
        if let Some(r) = self.fold1(idx, w, |i| *t.get(i as usize).unwrap_or(&0)) {
            return r;
        }
        let x = self.id(idx, 64);
        Val::S(self.intern(N::Look(tid, x), w))
    }
    /// evaluate under an assignment of the symbolic bytes
    pub fn eval(&self, e: Eid, asg: &[u8], memo: &mut HashMap<Eid, u64>) -> u64 {
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let (n, w) = self.nodes[e as usize];
        let w = w as u32;
        let r = match n {
            N::K(k) => k,
            N::Tab(v, t) => self.tabs[t as usize][asg[v as usize] as usize],
            N::Bin(op, a, b) => eval_bin(op, w, self.eval(a, asg, memo), self.eval(b, asg, memo)),
            N::Eq(a, b) => (self.eval(a, asg, memo) == self.eval(b, asg, memo)) as u64,
            N::Ult(a, b) => (self.eval(a, asg, memo) < self.eval(b, asg, memo)) as u64,
            N::Slt(a, b) => {
                let ww = self.width(a);
                (sx(self.eval(a, asg, memo), ww) < sx(self.eval(b, asg, memo), ww)) as u64
            }
            N::Ite(c, a, b) => {
                if self.eval(c, asg, memo) & 1 == 1 {
                    self.eval(a, asg, memo)
                } else {
                    self.eval(b, asg, memo)
                }
            }
            N::ZExt(a) => self.eval(a, asg, memo),
            N::SExt(a) => (sx(self.eval(a, asg, memo), self.width(a)) as u64) & mask(w),
            N::Ext(a, lo) => (self.eval(a, asg, memo) >> lo) & mask(w),
            N::Cat(h, l) => (self.eval(h, asg, memo) << self.width(l)) | self.eval(l, asg, memo),
            N::Look(t, i) => *self.looks[t as usize].get(self.eval(i, asg, memo) as usize).unwrap_or(&0),
        };
        memo.insert(e, r);
        r
    }
}
impl Exprs {
    pub fn fold2p(&mut self, a: &Val, b: &Val, w: u32, f: impl Fn(u64, u64) -> u64) -> Option<Val> {
        self.fold2(a, b, w, f)
    }
    pub fn fold1p(&mut self, a: &Val, w: u32, f: impl Fn(u64) -> u64) -> Option<Val> {
        self.fold1(a, w, f)
    }
}

impl Exprs {
    pub fn show(&self, e: Eid, d: u32) -> String {
        let (n, w) = self.nodes[e as usize];
        if d == 0 {
            return format!("#{}", e);
        }
        let s = |a: Eid| self.show(a, d - 1);
        match n {
            N::K(k) => format!("{}", k),
            N::Tab(v, t) => {
                let t = &self.tabs[t as usize];
                let mut segs = vec![];
                let mut i = 0;
                while i < 256 {
                    let mut j = i;
                    while j + 1 < 256 && t[j + 1] == t[i] {
                        j += 1;
                    }
                    segs.push(format!("{:x}-{:x}:{:x}", i, j, t[i]));
                    i = j + 1;
                }
                segs.truncate(6);
                format!("v{}[{}]", v, segs.join(" "))
            }
            N::Bin(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
            N::Eq(a, b) => format!("(= {} {})", s(a), s(b)),
            N::Ult(a, b) => format!("(< {} {})", s(a), s(b)),
            N::Slt(a, b) => format!("(s< {} {})", s(a), s(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            N::ZExt(a) => format!("(zx{} {})", w, s(a)),
            N::SExt(a) => format!("(sx{} {})", w, s(a)),
            N::Ext(a, l) => format!("(ext{}@{} {})", w, l, s(a)),
            N::Cat(a, b) => format!("(cat {} {})", s(a), s(b)),
            N::Look(t, i) => format!("(look{} {})", t, s(i)),
        }
    }
}
