//! The symbolic interpreter.
use crate::expr::*;
use crate::fx::FxMap;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bi {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Strlen,
    Memchr,
    Bcmp,
    Memcmp,
    Memcpy,
    Memset,
    Panic,
    Byte,
    Choice,
    Assume,
    Assert,
    Fail,
    Reach,
    Param,
    Note,
    BytesEq,
    Concrete,
    Nop,
    Ov(BinOp, bool),
    Sat(BinOp, bool),
    Fsh(bool),
    Ctz,
    Clz,
    Ctpop,
    Bswap,
    MinMax(Pred),
    Expect,
    External,
    Getenv,
    End,
}

#[derive(Clone, Copy, Debug)]
pub enum TK {
    I(u8, u8), // width, bytes
    W(u16),    // wide int: bits
    Vec(u16, TyId),
    Arr(u32, TyId),
    Struct,
    Void,
    Other,
}

pub struct Prog {
    pub m: Module,
    pub kvals: Vec<Val>,
    pub tk: Vec<TK>,
    pub fbi: Vec<Option<Bi>>,
    pub bbase: Vec<u32>,
    pub nblocks: u32,
    pub gconst: Vec<bool>,
    pub glob0: PV,
    pub fname: FxMap<String, u32>,
    pub dname: Vec<String>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub pc: u32,
    pub sp: u32,
    pub ret: u32,
    pub normal: u32,
    pub regs: Vec<Val>,
}

#[derive(Clone, Copy, Debug)]
pub enum Choice {
    Byte(u32),
    Pick(u32, u32),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub stack: Vec<SSlot>,
    pub heap: PV,
    pub glob: PV,
    pub doms: Vec<Dom>,
    pub cons: Vec<Eid>,
    pub multi: Vec<u32>,
    pub conc: Vec<(Eid, u64)>,
    pub log: Vec<Choice>,
    pub notes: Vec<Val>,
    pub reach: u128,
    pub steps: u64,
    pub pending: Option<u32>,
    pub depth: u32,
    pub job: u32,
}

pub enum Stop {
    Fork(Val),
    Choose(u32),
    Kill,
    Done,
    Viol(String),
    Unsup(String),
    Yield,
}

type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
    pub jobs: Vec<JobStats>,
    pub forks: u64,
    pub insts: u64,
    pub branches_sym: u64,
}

#[derive(Default, Clone)]
pub struct JobStats {
    pub paths: u64,
    pub killed: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub maxsteps: u64,
    pub maxvars: u64,
    pub reach: u128,
    pub samples: u64,
    pub sample_at: u64,
}

pub struct Violation {
    pub msg: String,
    pub at: String,
    pub log: Vec<(u32, u32)>, // (0 = byte | n = pick of n, value)
    pub trace: Vec<String>,
    pub job: u32,
}

pub struct Sample {
    pub log: Vec<(u32, u32)>,
    pub notes: Vec<u64>,
    pub job: u32,
}

pub struct Ex<'p> {
    pub p: &'p Prog,
    pub x: Exprs,
    pub z: Z3,
    pub st: Stats,
    pub params: Vec<Vec<u64>>,
    pub max_steps: u64,
    tabfold: FxMap<(u32, Dom), Option<u64>>,
    domt: FxMap<u32, Dom>,
    pub viols: Vec<Violation>,
    pub unsup: Vec<String>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub reach_names: Vec<String>,
    pub cov: Vec<bool>,
    pub forkpts: FxMap<(u32, u32), u64>,
    pub fill: u8,
    until: u64,
    vbuf: Vec<Val>,
    cases: FxMap<(u32, u32), Rc<(FxMap<u64, u32>, Vec<u32>)>>,
}

fn demangle(n: &str) -> String {
    // legacy rust mangling
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out: Vec<String> = vec![];
        let b = r.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            let s = &r[i..i + k];
            i += k;
            if s.len() == 17 && s.starts_with('h') {
                break;
            }
            out.push(
                s.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("..", "::").replace("$C$", ",").trim_start_matches("_<").to_string(),
            );
        }
        return out.join("::");
    }
    n.to_string()
}

fn builtin(name: &str, defined: bool) -> Option<Bi> {
    let n = name;
    if n.starts_with("llvm.") {
        let r = &n[5..];
        return Some(
            if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("invariant") || r.starts_with("dbg") || r.starts_with("prefetch") || r.starts_with("donothing") || r.starts_with("sideeffect") {
                Bi::Nop
            } else if r.starts_with("memcpy") || r.starts_with("memmove") {
                Bi::Memcpy
            } else if r.starts_with("memset") {
                Bi::Memset
            } else if r.starts_with("uadd.with") {
                Bi::Ov(BinOp::Add, false)
            } else if r.starts_with("sadd.with") {
                Bi::Ov(BinOp::Add, true)
            } else if r.starts_with("usub.with") {
                Bi::Ov(BinOp::Sub, false)
            } else if r.starts_with("ssub.with") {
                Bi::Ov(BinOp::Sub, true)
            } else if r.starts_with("umul.with") {
                Bi::Ov(BinOp::Mul, false)
            } else if r.starts_with("smul.with") {
                Bi::Ov(BinOp::Mul, true)
            } else if r.starts_with("usub.sat") {
                Bi::Sat(BinOp::Sub, false)
            } else if r.starts_with("uadd.sat") {
                Bi::Sat(BinOp::Add, false)
            } else if r.starts_with("fshl") {
                Bi::Fsh(true)
            } else if r.starts_with("fshr") {
                Bi::Fsh(false)
            } else if r.starts_with("cttz") {
                Bi::Ctz
            } else if r.starts_with("ctlz") {
                Bi::Clz
            } else if r.starts_with("ctpop") {
                Bi::Ctpop
            } else if r.starts_with("bswap") {
                Bi::Bswap
            } else if r.starts_with("umin") {
                Bi::MinMax(Pred::Ult)
            } else if r.starts_with("umax") {
                Bi::MinMax(Pred::Ugt)
            } else if r.starts_with("smin") {
                Bi::MinMax(Pred::Slt)
            } else if r.starts_with("smax") {
                Bi::MinMax(Pred::Sgt)
            } else if r.starts_with("expect") {
                Bi::Expect
            } else if r.starts_with("trap") {
                Bi::Panic
            } else {
                Bi::External
            },
        );
    }
    let b = match n {
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "strlen" => Bi::Strlen,
        "memchr" => Bi::Memchr,
        "bcmp" => Bi::Bcmp,
        "memcmp" => Bi::Memcmp,
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "abort" => Bi::Panic,
        "getenv" => Bi::Getenv,
        "symx_byte" => Bi::Byte,
        "symx_choice" => Bi::Choice,
        "symx_assume" => Bi::Assume,
        "symx_assert" => Bi::Assert,
        "symx_fail" => Bi::Fail,
        "symx_reach" => Bi::Reach,
        "symx_param" => Bi::Param,
        "symx_note" => Bi::Note,
        "symx_bytes_eq" => Bi::BytesEq,
        "symx_concrete" => Bi::Concrete,
        "symx_end" => Bi::End,
        _ => {
            let d = demangle(n);
            if d.starts_with("core::panicking::")
                || d.starts_with("std::panicking::")
                || d.starts_with("alloc::alloc::handle_alloc_error")
                || d.contains("::rust_oom")
                || d.starts_with("std::process::abort")
                || d.starts_with("std::alloc::rust_oom")
                || n == "rust_oom"
                || n == "rust_begin_unwind"
                || n == "__rust_start_panic"
            {
                Bi::Panic
            } else if !defined {
                Bi::External
            } else {
                return None;
            }
        }
    };
    Some(b)
}

impl Prog {
    pub fn new(mut m: Module) -> Prog {
        let mut fname: FxMap<String, u32> = FxMap::default();
        for f in &m.funcs {
            fname.insert(f.name.clone(), f.id);
        }
        // declared functions that have a definition elsewhere cannot occur in one module
        let fbi: Vec<Option<Bi>> = m.funcs.iter().map(|f| builtin(&f.name, f.defined)).collect();
        let nt = m.types.tys.len();
        for t in 0..nt {
            match m.types.tys[t] {
                Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque | Ty::Func => {}
                _ => {
                    if let Ty::Named(n) = &m.types.tys[t] {
                        if !m.types.named.contains_key(n) {
                            continue;
                        }
                        let r = m.types.res(t as u32);
                        if matches!(m.types.tys[r as usize], Ty::Opaque) {
                            continue;
                        }
                    }
                    m.types.layout(t as u32);
                }
            }
        }
        let mut tk = vec![];
        for t in 0..nt {
            let k = match &m.types.tys[t] {
                Ty::Named(n) if !m.types.named.contains_key(n) => TK::Other,
                _ => match m.types.get(t as u32).clone() {
                    Ty::Void => TK::Void,
                    Ty::Int(w) if w <= 64 => TK::I(w as u8, ((w + 7) / 8) as u8),
                    Ty::Int(w) => TK::W(w as u16),
                    Ty::Ptr => TK::I(64, 8),
                    Ty::Float(w) if w <= 64 => TK::I(w as u8, (w / 8) as u8),
                    Ty::Vector(n, e) => TK::Vec(n as u16, e),
                    Ty::Arr(n, e) => TK::Arr(n as u32, e),
                    Ty::Struct(..) => TK::Struct,
                    _ => TK::Other,
                },
            };
            tk.push(k);
        }
        let mut gaddr: FxMap<String, u64> = FxMap::default();
        for (i, g) in m.globals.iter().enumerate() {
            gaddr.insert(g.name.clone(), ((i as u64 + 1) << SLOT) + OBASE);
        }
        for f in &m.funcs {
            gaddr.insert(f.name.clone(), (FUNC_SLOT << SLOT) + OBASE + f.id as u64 * 16);
        }
        let al = m.aliases.clone();
        for _ in 0..3 {
            for (n, c) in &al {
                if let Some(v) = cint(c, &gaddr) {
                    gaddr.insert(n.clone(), v);
                }
            }
        }
        let mut glob0 = PV::default();
        let mut gconst = vec![];
        for g in &m.globals {
            let l = match m.types.get(g.ty) {
                Ty::Opaque => 0,
                _ => m.types.lay[&m.types.res(g.ty)].size,
            };
            let mut o = Obj::new(l as usize, 0);
            if let Some(c) = &g.init {
                cinit(&m.types, g.ty, c, &gaddr, &mut o.data, 0);
            }
            assert!((l as u64) < MAXOBJ, "global too large");
            glob0.push(o);
            gconst.push(g.constant);
        }
        let kvals: Vec<Val> = m.consts.iter().map(|(t, c)| cval(&m.types, *t, c, &gaddr)).collect();
        let mut bbase = vec![];
        let mut nb = 0u32;
        for f in &m.funcs {
            bbase.push(nb);
            nb += f.blocks.len() as u32;
        }
        // resolve callees
        let mut funcs = std::mem::take(&mut m.funcs);
        for f in funcs.iter_mut() {
            for b in f.blocks.iter_mut() {
                for i in b.insts.iter_mut() {
                    if let Inst::Call { callee, .. } = i {
                        if let Callee::Direct(n) = callee {
                            if let Some(&id) = fname.get(n) {
                                *callee = Callee::Func(id);
                            } else if let Some(&a) = gaddr.get(n) {
                                // alias
                                let id = ((a & ((1 << SLOT) - 1)) - OBASE) / 16;
                                *callee = Callee::Func(id as u32);
                            } else {
                                panic!("callee {}", n);
                            }
                        }
                    }
                }
            }
        }
        m.funcs = funcs;
        let dname = m.funcs.iter().map(|f| demangle(&f.name)).collect();
        Prog { m, kvals, tk, fbi, bbase, nblocks: nb, gconst, glob0, fname, dname }
    }
    pub fn loc(&self, dbg: u32) -> Option<(String, u32)> {
        let (line, mut sc) = *self.m.dilocs.get(&dbg)?;
        for _ in 0..64 {
            if let Some(f) = self.m.difile.get(&sc) {
                return Some((self.m.files.get(f).cloned().unwrap_or_default(), line));
            }
            sc = *self.m.discope.get(&sc)?;
        }
        None
    }
}

fn cint(c: &Const, ga: &FxMap<String, u64>) -> Option<u64> {
    Some(match c {
        Const::Int(v) => *v,
        Const::Zero | Const::Undef => 0,
        Const::Wide(v) => *v as u64,
        Const::Global(g) => *ga.get(g)?,
        Const::Off(b, o) => cint(b, ga)?.wrapping_add(*o as u64),
        Const::Bin(op, w, a, b) => eval_bin(*op, *w, cint(a, ga)?, cint(b, ga)?),
        _ => return None,
    })
}

fn cval(ts: &Types, t: TyId, c: &Const, ga: &FxMap<String, u64>) -> Val {
    match ts.get(t) {
        Ty::Struct(fs, _) => {
            let v = match c {
                Const::Agg(v) => v.iter().map(|(t, c)| cval(ts, *t, c, ga)).collect(),
                _ => fs.iter().map(|t| cval(ts, *t, &Const::Zero, ga)).collect(),
            };
            Val::A(Rc::new(v))
        }
        Ty::Arr(n, e) | Ty::Vector(n, e) => {
            let v = match c {
                Const::Agg(v) => v.iter().map(|(t, c)| cval(ts, *t, c, ga)).collect(),
                Const::Str(s) => s.iter().map(|&b| Val::C(b as u64)).collect(),
                _ => (0..*n).map(|_| cval(ts, *e, &Const::Zero, ga)).collect(),
            };
            Val::A(Rc::new(v))
        }
        Ty::Int(w) if *w > 64 => {
            let n = (*w as usize + 63) / 64;
            let x: u128 = match c {
                Const::Wide(v) => *v,
                Const::Int(v) => *v as u128,
                _ => 0,
            };
            Val::A(Rc::new((0..n).map(|i| Val::C(if i < 2 { (x >> (64 * i)) as u64 } else { 0 })).collect()))
        }
        Ty::Void | Ty::Label | Ty::Meta => Val::C(0),
        _ => Val::C(cint(c, ga).unwrap_or_else(|| panic!("constant {:?}", c))),
    }
}

fn cinit(ts: &Types, t: TyId, c: &Const, ga: &FxMap<String, u64>, out: &mut [u8], off: usize) {
    let lay = |t: TyId| &ts.lay[&ts.res(t)];
    match (ts.get(t), c) {
        (_, Const::Zero) | (_, Const::Undef) => {}
        (_, Const::Str(s)) => out[off..off + s.len()].copy_from_slice(s),
        (Ty::Struct(..), Const::Agg(v)) => {
            let l = lay(t).clone();
            for (i, (ft, fc)) in v.iter().enumerate() {
                cinit(ts, *ft, fc, ga, out, off + l.offs[i] as usize);
            }
        }
        (Ty::Arr(_, e), Const::Agg(v)) | (Ty::Vector(_, e), Const::Agg(v)) => {
            let s = lay(*e).size as usize;
            for (i, (ft, fc)) in v.iter().enumerate() {
                cinit(ts, *ft, fc, ga, out, off + i * s);
            }
        }
        (Ty::Int(w), Const::Wide(v)) => {
            let n = ((*w + 7) / 8) as usize;
            let b = v.to_le_bytes();
            for i in 0..n.min(16) {
                out[off + i] = b[i];
            }
        }
        _ => {
            let n = match ts.get(t) {
                Ty::Int(w) => ((*w + 7) / 8) as usize,
                Ty::Ptr => 8,
                Ty::Float(w) => (*w / 8) as usize,
                x => panic!("init {:?} {:?}", x, c),
            };
            let v = cint(c, ga).unwrap_or_else(|| panic!("constant init {:?}", c));
            for i in 0..n {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
    }
}

const NORET: u32 = u32::MAX;

impl<'p> Ex<'p> {
    pub fn new(p: &'p Prog) -> Ex<'p> {
        Ex {
            p,
            x: Exprs::new(),
            z: Z3::new(),
            st: Stats::default(),
            params: vec![],
            max_steps: 20_000_000,
            tabfold: FxMap::default(),
            domt: FxMap::default(),
            viols: vec![],
            unsup: vec![],
            samples: vec![],
            max_samples: 4,
            reach_names: vec![],
            cov: vec![false; p.nblocks as usize],
            forkpts: FxMap::default(),
            fill: 0xA5,
            until: 0,
            vbuf: vec![],
            cases: FxMap::default(),
        }
    }
    pub fn initial(&self, entry: u32) -> State {
        let f = &self.p.m.funcs[entry as usize];
        State {
            cur: Frame { f: entry, b: 0, pc: 0, sp: 0, ret: NORET, normal: NORET, regs: vec![Val::C(0); f.nregs as usize] },
            frames: vec![],
            stack: vec![],
            heap: PV::default(),
            glob: self.p.glob0.clone(),
            doms: vec![],
            cons: vec![],
            multi: vec![],
            conc: vec![],
            log: vec![],
            notes: vec![],
            reach: 0,
            steps: 0,
            pending: None,
            depth: 0,
            job: 0,
        }
    }
    // ---------------------------------------------------------------- values
    #[inline]
    fn op(&mut self, st: &State, o: Op) -> Val {
        match o {
            Op::R(r) => match &st.cur.regs[r as usize] {
                Val::C(c) => Val::C(*c),
                Val::S(e) => self.fold(st, *e),
                a => a.clone(),
            },
            Op::K(k) => self.p.kvals[k as usize].clone(),
        }
    }
    fn fold(&mut self, st: &State, e: Eid) -> Val {
        match self.x.nodes[e as usize].0 {
            N::Tab(v, t) => {
                let d = st.doms[v as usize];
                if d == FULL {
                    return Val::S(e);
                }
                let r = match self.tabfold.get(&(t, d)) {
                    Some(r) => *r,
                    None => {
                        let tab = &self.x.tabs[t as usize];
                        let mut val: Option<u64> = None;
                        let mut same = true;
                        for i in 0..256 {
                            if d[i >> 6] >> (i & 63) & 1 == 1 {
                                match val {
                                    None => val = Some(tab[i]),
                                    Some(k) if k != tab[i] => {
                                        same = false;
                                        break;
                                    }
                                    _ => {}
                                }
                            }
                        }
                        let r = if same { val } else { None };
                        if let Some(k) = r {
                            // confirmed by the solver: no value of the byte in its domain gives another result
                            let mut s = [0u64; 4];
                            for i in 0..256 {
                                if tab[i] != k {
                                    s[i >> 6] |= 1 << (i & 63);
                                }
                            }
                            if self.z.dom_sat(&d, &s) {
                                eprintln!("fold disagrees with z3");
                                std::process::abort();
                            }
                        }
                        self.tabfold.insert((t, d), r);
                        r
                    }
                };
                match r {
                    Some(k) => Val::C(k),
                    None => Val::S(e),
                }
            }
            _ => {
                for (c, v) in &st.conc {
                    if *c == e {
                        return Val::C(*v);
                    }
                }
                Val::S(e)
            }
        }
    }
    fn refold(&mut self, st: &State, v: &Val) -> Val {
        match v {
            Val::S(e) => self.fold(st, *e),
            _ => v.clone(),
        }
    }
    fn tdom(&mut self, t: u32) -> Dom {
        if let Some(d) = self.domt.get(&t) {
            return *d;
        }
        let d = dom_of(&self.x.tabs[t as usize]);
        self.domt.insert(t, d);
        d
    }
    fn slice(&self, st: &State, vars: &[u32], extra: &[Eid]) -> (Vec<Eid>, Vec<u32>) {
        let mut vs: Vec<u32> = vars.to_vec();
        let mut cs: Vec<Eid> = extra.to_vec();
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = self.x.vars_of(self.x.sup[c as usize]);
                if cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    cs.push(c);
                    for v in cv {
                        if !vs.contains(&v) {
                            vs.push(v);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        vs.sort();
        (cs, vs)
    }
    /// can `c` take the value `want`?
    fn feasible(&mut self, st: &State, e: Eid, want: bool) -> bool {
        if let N::Tab(v, t) = self.x.nodes[e as usize].0 {
            let mut d = self.tdom(t);
            if !want {
                for w in d.iter_mut() {
                    *w = !*w;
                }
            }
            let cur = st.doms[v as usize];
            if !st.multi.contains(&v) {
                return self.z.dom_sat(&cur, &d);
            }
            let mut nd = cur;
            for i in 0..4 {
                nd[i] &= d[i];
            }
            let (cs, vs) = self.slice(st, &[v], &[]);
            let doms: Vec<(u32, Dom)> = vs.iter().map(|&u| (u, if u == v { nd } else { st.doms[u as usize] })).collect();
            return matches!(self.z.check(&self.x, &cs, &doms, None), Ans::Sat);
        }
        let ee = if want {
            e
        } else {
            match self.x.not1(&Val::S(e)) {
                Val::S(n) => n,
                Val::C(k) => return k & 1 == 1,
                _ => unreachable!(),
            }
        };
        let vars = self.x.vars_of(self.x.sup[ee as usize]);
        let (cs, vs) = self.slice(st, &vars, &[ee]);
        let doms: Vec<(u32, Dom)> = vs.iter().map(|&u| (u, st.doms[u as usize])).collect();
        matches!(self.z.check(&self.x, &cs, &doms, None), Ans::Sat)
    }
    fn branch(&mut self, st: &State, c: &Val) -> R<bool> {
        match c {
            Val::C(k) => Ok(k & 1 == 1),
            Val::S(e) => {
                let e = match self.fold(st, *e) {
                    Val::C(k) => return Ok(k & 1 == 1),
                    Val::S(e) => e,
                    _ => unreachable!(),
                };
                if !self.feasible(st, e, true) {
                    return Ok(false);
                }
                if !self.feasible(st, e, false) {
                    return Ok(true);
                }
                Err(Stop::Fork(Val::S(e)))
            }
            _ => Err(Stop::Unsup("vector branch".into())),
        }
    }
    fn add_cond(&mut self, st: &mut State, c: &Val, want: bool) {
        let e = match c {
            Val::S(e) => *e,
            _ => return,
        };
        match self.x.nodes[e as usize].0 {
            N::Tab(v, t) => {
                let d = self.tdom(t);
                let m = &mut st.doms[v as usize];
                for i in 0..4 {
                    m[i] &= if want { d[i] } else { !d[i] };
                }
            }
            N::Bin(BinOp::And, a, b) if want => {
                let (a, b) = (self.x.val(a), self.x.val(b));
                self.add_cond(st, &a, true);
                self.add_cond(st, &b, true);
            }
            N::Bin(BinOp::Or, a, b) if !want => {
                let (a, b) = (self.x.val(a), self.x.val(b));
                self.add_cond(st, &a, false);
                self.add_cond(st, &b, false);
            }
            N::Bin(BinOp::Xor, a, b) if matches!(self.x.nodes[b as usize].0, N::K(1)) => {
                let a = self.x.val(a);
                self.add_cond(st, &a, !want);
            }
            N::Bin(BinOp::Xor, a, b) if matches!(self.x.nodes[a as usize].0, N::K(1)) => {
                let b = self.x.val(b);
                self.add_cond(st, &b, !want);
            }
            _ => {
                let ee = if want {
                    e
                } else {
                    match self.x.not1(&Val::S(e)) {
                        Val::S(n) => n,
                        _ => return,
                    }
                };
                if want {
                    if let N::Eq(a, b) = self.x.nodes[e as usize].0 {
                        let (a, b) = (self.x.val(a), self.x.val(b));
                        match (a, b) {
                            (Val::S(q), Val::C(k)) | (Val::C(k), Val::S(q)) => st.conc.push((q, k)),
                            _ => {}
                        }
                    }
                }
                if !st.cons.contains(&ee) {
                    st.cons.push(ee);
                    for v in self.x.vars_of(self.x.sup[ee as usize]) {
                        if !st.multi.contains(&v) {
                            st.multi.push(v);
                        }
                    }
                }
            }
        }
    }
    pub fn model(&mut self, st: &State, extra: Option<(Eid, bool)>) -> Option<Vec<u8>> {
        let mut doms = st.doms.clone();
        let mut ex: Vec<Eid> = vec![];
        if let Some((e, want)) = extra {
            if let N::Tab(v, t) = self.x.nodes[e as usize].0 {
                let d = self.tdom(t);
                for i in 0..4 {
                    doms[v as usize][i] &= if want { d[i] } else { !d[i] };
                }
            } else {
                let ee = if want {
                    Val::S(e)
                } else {
                    self.x.not1(&Val::S(e))
                };
                match ee {
                    Val::S(e) => ex.push(e),
                    Val::C(0) => return None,
                    _ => {}
                }
            }
        }
        let mut asg: Vec<u8> = doms
            .iter()
            .map(|d| {
                let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                if has(b'a' as usize) {
                    return b'a';
                }
                (0..256).map(|i| (i + 33) % 256).find(|&i| has(i)).unwrap_or(0) as u8
            })
            .collect();
        let mut cs = st.cons.clone();
        cs.extend(ex);
        if !cs.is_empty() {
            let mut vs: Vec<u32> = vec![];
            for &c in &cs {
                for v in self.x.vars_of(self.x.sup[c as usize]) {
                    if !vs.contains(&v) {
                        vs.push(v);
                    }
                }
            }
            vs.sort();
            let dd: Vec<(u32, Dom)> = vs.iter().map(|&v| (v, doms[v as usize])).collect();
            let mut want: Vec<(u32, u8)> = vs.iter().map(|&v| (v, 0)).collect();
            match self.z.check(&self.x, &cs, &dd, Some(&mut want)) {
                Ans::Sat => {
                    for (v, b) in want {
                        asg[v as usize] = b;
                    }
                }
                Ans::Unsat => return None,
            }
            let mut memo = FxMap::default();
            for &c in &cs {
                if self.x.eval(c, &asg, &mut memo) & 1 != 1 {
                    eprintln!("model does not satisfy the constraints");
                    std::process::abort();
                }
            }
        }
        Some(asg)
    }
    fn log_of(&self, st: &State, asg: &[u8]) -> Vec<(u32, u32)> {
        st.log
            .iter()
            .map(|c| match c {
                Choice::Byte(v) => (0, asg[*v as usize] as u32),
                Choice::Pick(n, k) => (*n, *k),
            })
            .collect()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        let mut fr: Vec<&Frame> = st.frames.iter().map(|f| &**f).collect();
        fr.push(&st.cur);
        for f in fr.iter().rev().take(24) {
            let b = &self.p.m.funcs[f.f as usize].blocks[f.b as usize];
            let pc = (f.pc as usize).min(b.dbg.len().saturating_sub(1));
            let l = b.dbg.get(pc).and_then(|&d| self.p.loc(d)).map(|(f, l)| format!("{}:{}", f, l)).unwrap_or_default();
            out.push(format!("{} {}", self.p.dname[f.f as usize], l));
        }
        out
    }
    pub fn violation(&mut self, st: &State, msg: String, extra: Option<(Eid, bool)>) {
        let asg = match self.model(st, extra) {
            Some(a) => a,
            None => {
                self.unsup.push(format!("violation without a model: {}", msg));
                return;
            }
        };
        let trace = self.backtrace(st);
        let at = trace.iter().find(|l| l.contains("rexpat") || l.contains("src/lib/")).cloned().unwrap_or_else(|| trace.get(0).cloned().unwrap_or_default());
        let log = self.log_of(st, &asg);
        self.viols.push(Violation { msg, at, log, trace, job: st.job });
    }
    // ---------------------------------------------------------------- memory
    fn bad(&self, what: &str, addr: u64, n: u64, why: &str) -> Stop {
        Stop::Viol(format!("memory: invalid {} of {} byte(s) at 0x{:x}: {}", what, n, addr, why))
    }
    /// object containing [addr, addr+n)
    #[inline]
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64, what: &str) -> R<(Option<&'a Obj>, usize)> {
        let slot = addr >> SLOT;
        let off = (addr & ((1 << SLOT) - 1)).wrapping_sub(OBASE);
        let (o, size): (Option<&Obj>, u64) = if slot >= HEAP_SLOT {
            match st.heap.get((slot - HEAP_SLOT) as usize) {
                Some(HSlot::Live(o)) => (Some(&**o), o.data.len() as u64),
                Some(HSlot::Freed) => return Err(self.bad(what, addr, n, "freed heap block")),
                None => return Err(self.bad(what, addr, n, "wild pointer")),
            }
        } else if slot >= STACK_SLOT {
            match st.stack.get((slot - STACK_SLOT) as usize) {
                Some(s) => (s.obj.as_ref().map(|o| &**o), s.size as u64),
                None => return Err(self.bad(what, addr, n, "dead stack object")),
            }
        } else if slot == 0 {
            return Err(self.bad(what, addr, n, "null pointer"));
        } else {
            match st.glob.get(slot as usize - 1) {
                Some(HSlot::Live(o)) => (Some(&**o), o.data.len() as u64),
                _ => return Err(self.bad(what, addr, n, "wild pointer")),
            }
        };
        if off > size || n > size - off {
            return Err(self.bad(what, addr, n, &format!("outside its object (offset {} of a {}-byte object)", off as i64, size)));
        }
        Ok((o, off as usize))
    }
    #[inline]
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let slot = addr >> SLOT;
        let off = (addr & ((1 << SLOT) - 1)).wrapping_sub(OBASE);
        let o: &mut Obj = if slot >= HEAP_SLOT {
            match st.heap.get_mut((slot - HEAP_SLOT) as usize) {
                Some(HSlot::Live(o)) => Rc::make_mut(o),
                Some(HSlot::Freed) => return Err(self.bad("write", addr, n, "freed heap block")),
                None => return Err(self.bad("write", addr, n, "wild pointer")),
            }
        } else if slot >= STACK_SLOT {
            match st.stack.get_mut((slot - STACK_SLOT) as usize) {
                Some(s) => {
                    if s.obj.is_none() {
                        s.obj = Some(Rc::new(Obj::new(s.size as usize, self.fill)));
                    }
                    Rc::make_mut(s.obj.as_mut().unwrap())
                }
                None => return Err(self.bad("write", addr, n, "dead stack object")),
            }
        } else if slot == 0 {
            return Err(self.bad("write", addr, n, "null pointer"));
        } else {
            if let Some(true) = self.p.gconst.get(slot as usize - 1) {
                return Err(self.bad("write", addr, n, "constant data"));
            }
            match st.glob.get_mut(slot as usize - 1) {
                Some(HSlot::Live(o)) => Rc::make_mut(o),
                _ => return Err(self.bad("write", addr, n, "wild pointer")),
            }
        };
        let size = o.data.len() as u64;
        if off > size || n > size - off {
            return Err(self.bad("write", addr, n, &format!("outside its object (offset {} of a {}-byte object)", off as i64, size)));
        }
        Ok((o, off as usize))
    }
    fn load_c(&mut self, st: &State, addr: u64, n: u64, w: u32) -> R<Val> {
        let fill = self.fill;
        let (o, off) = self.obj(st, addr, n, "read")?;
        let o = match o {
            Some(o) => o,
            None => {
                let mut v = 0u64;
                for i in 0..n {
                    v |= (fill as u64) << (8 * i);
                }
                return Ok(Val::C(v & mask(w)));
            }
        };
        let n = n as usize;
        let symbolic = match &o.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|&e| e != 0),
        };
        if !symbolic {
            let v = match n {
                1 => o.data[off] as u64,
                2 => u16::from_le_bytes([o.data[off], o.data[off + 1]]) as u64,
                4 => u32::from_le_bytes([o.data[off], o.data[off + 1], o.data[off + 2], o.data[off + 3]]) as u64,
                8 => {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&o.data[off..off + 8]);
                    u64::from_le_bytes(b)
                }
                _ => {
                    let mut v = 0u64;
                    for i in 0..n {
                        v |= (o.data[off + i] as u64) << (8 * i);
                    }
                    v
                }
            };
            return Ok(Val::C(v & mask(w)));
        }
        let mut parts: [(Eid, u8); 8] = [(0, 0); 8];
        {
            let s = o.sym.as_ref().unwrap();
            for i in 0..n {
                parts[i] = (s[off + i], o.data[off + i]);
            }
        }
        let mut acc: Option<Val> = None;
        for i in (0..n).rev() {
            let b = if parts[i].0 != 0 { self.fold(st, parts[i].0) } else { Val::C(parts[i].1 as u64) };
            acc = Some(match acc {
                None => b,
                Some(a) => self.x.cat(&a, 8 * (n - 1 - i) as u32, &b, 8),
            });
        }
        let v = acc.unwrap();
        let v = if w < 8 * n as u32 { self.x.ext(&v, 8 * n as u32, 0, w) } else { v };
        Ok(self.refold(st, &v))
    }
    fn store_c(&mut self, st: &mut State, addr: u64, n: u64, w: u32, v: &Val) -> R<()> {
        match v {
            Val::C(c) => {
                let (o, off) = self.obj_mut(st, addr, n)?;
                let b = c.to_le_bytes();
                o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]);
                if let Some(s) = &mut o.sym {
                    for e in s[off..off + n as usize].iter_mut() {
                        *e = 0;
                    }
                }
                Ok(())
            }
            Val::S(_) => {
                let full = 8 * n as u32;
                let v = if w < full { self.x.zext(v, w, full) } else { v.clone() };
                let mut parts: [(Eid, u8); 8] = [(0, 0); 8];
                for i in 0..n as usize {
                    match self.x.ext(&v, full, 8 * i as u32, 8) {
                        Val::C(c) => parts[i] = (0, c as u8),
                        Val::S(e) => parts[i] = (e, 0),
                        _ => unreachable!(),
                    }
                }
                let (o, off) = self.obj_mut(st, addr, n)?;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                for i in 0..n as usize {
                    o.data[off + i] = parts[i].1;
                    s[off + i] = parts[i].0;
                }
                Ok(())
            }
            Val::A(_) => Err(Stop::Unsup("scalar store of aggregate".into())),
        }
    }
    /// make a value concrete, forking over its feasible values
    fn concretise(&mut self, st: &State, v: &Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::S(e) => match self.fold(st, *e) {
                Val::C(c) => return Ok(c),
                Val::S(e) => e,
                _ => unreachable!(),
            },
            _ => return Err(Stop::Unsup("concretise aggregate".into())),
        };
        let asg = self.model(st, None).ok_or(Stop::Kill)?;
        let mut memo = FxMap::default();
        let k = self.x.eval(e, &asg, &mut memo);
        let c = self.x.cmp(Pred::Eq, w, &Val::S(e), &Val::C(k));
        if self.branch(st, &c)? {
            // only value left
            return Ok(k);
        }
        // the model value must be feasible
        Err(Stop::Unsup("concretisation lost its model".into()))
    }
    fn load(&mut self, st: &State, p: &Val, n: u64, w: u32) -> R<Val> {
        match p {
            Val::C(a) => self.load_c(st, *a, n, w),
            Val::S(e) => {
                if let N::Tab(v, t) = self.x.nodes[*e as usize].0 {
                    let d = st.doms[v as usize];
                    let tab = self.x.tabs[t as usize].clone();
                    let mut out = Box::new([0u64; 256]);
                    let mut bad: Dom = [0; 4];
                    let mut nbad = 0;
                    let mut why = None;
                    let mut last: Option<(u64, u64)> = None;
                    let mut ok = true;
                    for i in 0..256usize {
                        if d[i >> 6] >> (i & 63) & 1 == 0 {
                            continue;
                        }
                        let a = tab[i];
                        if let Some((la, lv)) = last {
                            if la == a {
                                out[i] = lv;
                                continue;
                            }
                        }
                        match self.load_c(st, a, n, w) {
                            Ok(Val::C(c)) => {
                                out[i] = c;
                                last = Some((a, c));
                            }
                            Ok(_) => {
                                ok = false;
                                break;
                            }
                            Err(Stop::Viol(m)) => {
                                bad[i >> 6] |= 1 << (i & 63);
                                nbad += 1;
                                why = Some(m);
                            }
                            Err(e) => return Err(e),
                        }
                    }
                    if ok {
                        if nbad > 0 {
                            // split off the out-of-bounds values
                            let mut ind = Box::new([0u64; 256]);
                            for i in 0..256 {
                                ind[i] = bad[i >> 6] >> (i & 63) & 1;
                            }
                            let c = self.x.tab(v, ind, 1);
                            if self.branch(st, &c)? {
                                return Err(Stop::Viol(why.unwrap()));
                            }
                            // infeasible bad values (multi-byte constraints): ignore them
                        }
                        let r = self.x.tab(v, out, w);
                        return Ok(self.refold(st, &r));
                    }
                    let a = self.concretise(st, p, 64)?;
                    return self.load_c(st, a, n, w);
                }
                self.load_multi(st, *e, n, w)
            }
            _ => Err(Stop::Unsup("aggregate pointer".into())),
        }
    }
    fn load_multi(&mut self, st: &State, e: Eid, n: u64, w: u32) -> R<Val> {
        let asg = self.model(st, None).ok_or(Stop::Kill)?;
        let mut memo = FxMap::default();
        let a0 = self.x.eval(e, &asg, &mut memo);
        let (base, size) = {
            // object of the model address
            let slot = a0 >> SLOT;
            let base = (slot << SLOT) + OBASE;
            match self.obj(st, base, 0, "read") {
                Ok((Some(o), _)) => {
                    let conc = match &o.sym {
                        None => true,
                        Some(s) => s.iter().all(|&x| x == 0),
                    };
                    if !conc || o.data.len() > 1 << 16 {
                        let a = self.concretise(st, &Val::S(e), 64)?;
                        return self.load_c(st, a, n, w);
                    }
                    (base, o.data.len() as u64)
                }
                _ => {
                    let a = self.concretise(st, &Val::S(e), 64)?;
                    return self.load_c(st, a, n, w);
                }
            }
        };
        if size < n {
            return Err(self.bad("read", a0, n, "outside its object"));
        }
        let off = self.x.bin(BinOp::Sub, 64, &Val::S(e), &Val::C(base));
        let inb = self.x.cmp(Pred::Ule, 64, &off, &Val::C(size - n));
        if !self.branch(st, &inb)? {
            return Err(self.bad("read", a0, n, "outside its object (symbolic index)"));
        }
        let mut step = 1;
        if n > 1 && size % n == 0 {
            let low = self.x.bin(BinOp::And, 64, &off, &Val::C(n - 1));
            let z = self.x.cmp(Pred::Eq, 64, &low, &Val::C(0));
            let aligned = match z {
                Val::C(k) => k == 1,
                Val::S(z) => !self.feasible(st, z, false),
                _ => false,
            };
            if aligned {
                step = n;
            }
        }
        let mut tab = vec![];
        {
            let (o, _) = self.obj(st, base, 0, "read")?;
            let o = o.unwrap();
            let mut i = 0;
            while i + n <= size {
                let mut v = 0u64;
                for k in 0..n {
                    v |= (o.data[(i + k) as usize] as u64) << (8 * k);
                }
                tab.push(v & mask(w));
                i += step;
            }
        }
        let idx = if step == 1 { off } else { self.x.bin(BinOp::LShr, 64, &off, &Val::C(step.trailing_zeros() as u64)) };
        let t = self.x.look_id(tab);
        let r = self.x.look(t, &idx, w);
        Ok(self.refold(st, &r))
    }
    fn load_ty(&mut self, st: &State, p: &Val, t: TyId) -> R<Val> {
        match self.p.tk[t as usize] {
            TK::I(w, b) => self.load(st, p, b as u64, w as u32),
            k => {
                let a = self.concretise(st, p, 64)?;
                self.load_agg(st, a, t, k)
            }
        }
    }
    fn load_agg(&mut self, st: &State, a: u64, t: TyId, k: TK) -> R<Val> {
        match k {
            TK::I(w, b) => self.load_c(st, a, b as u64, w as u32),
            TK::W(w) => {
                let n = (w as u64 + 63) / 64;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_c(st, a + 8 * i, 8, 64)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            TK::Vec(n, e) => {
                let ek = self.p.tk[e as usize];
                let mut v = vec![];
                match ek {
                    TK::I(w, b) if w % 8 == 0 => {
                        for i in 0..n as u64 {
                            v.push(self.load_c(st, a + b as u64 * i, b as u64, w as u32)?);
                        }
                    }
                    _ => return Err(Stop::Unsup("vector load".into())),
                }
                Ok(Val::A(Rc::new(v)))
            }
            TK::Arr(n, e) => {
                let s = self.p.m.types.lay[&self.p.m.types.res(e)].size;
                let ek = self.p.tk[e as usize];
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load_agg(st, a + s * i, e, ek)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            TK::Struct => {
                let p = self.p;
                let l = &p.m.types.lay[&p.m.types.res(t)];
                let mut v = vec![];
                if let Ty::Struct(fs, _) = p.m.types.get(t) {
                    for (i, f) in fs.iter().enumerate() {
                        v.push(self.load_agg(st, a + l.offs[i], *f, p.tk[*f as usize])?);
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("load type".into())),
        }
    }
    fn store_agg(&mut self, st: &mut State, a: u64, t: TyId, v: &Val) -> R<()> {
        match self.p.tk[t as usize] {
            TK::I(w, b) => self.store_c(st, a, b as u64, w as u32, v),
            TK::W(_) => {
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store_c(st, a + 8 * i as u64, 8, 64, x)?;
                    }
                    return Ok(());
                }
                Err(Stop::Unsup("wide store".into()))
            }
            TK::Vec(_, e) | TK::Arr(_, e) => {
                let s = self.p.m.types.lay[&self.p.m.types.res(e)].size;
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store_agg(st, a + s * i as u64, e, x)?;
                    }
                    return Ok(());
                }
                Err(Stop::Unsup("vector store".into()))
            }
            TK::Struct => {
                let p = self.p;
                let l = &p.m.types.lay[&p.m.types.res(t)];
                if let (Ty::Struct(fs, _), Val::A(vs)) = (p.m.types.get(t), v) {
                    for (i, f) in fs.iter().enumerate() {
                        self.store_agg(st, a + l.offs[i], *f, &vs[i])?;
                    }
                    return Ok(());
                }
                Err(Stop::Unsup("struct store".into()))
            }
            _ => Err(Stop::Unsup("store type".into())),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let fill = self.fill;
        let (data, sym): (Vec<u8>, Option<Vec<Eid>>) = {
            let (o, off) = self.obj(st, s, n, "read")?;
            match o {
                None => (vec![fill; n as usize], None),
                Some(o) => {
                    let r = off..off + n as usize;
                    let sy = match &o.sym {
                        Some(e) if e[r.clone()].iter().any(|&x| x != 0) => Some(e[r.clone()].to_vec()),
                        _ => None,
                    };
                    (o.data[r].to_vec(), sy)
                }
            }
        };
        let (o, off) = self.obj_mut(st, d, n)?;
        let r = off..off + n as usize;
        o.data[r.clone()].copy_from_slice(&data);
        match sym {
            Some(s) => {
                let len = o.data.len();
                let e = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                e[r].copy_from_slice(&s);
            }
            None => {
                if let Some(e) = &mut o.sym {
                    for x in e[r].iter_mut() {
                        *x = 0;
                    }
                }
            }
        }
        Ok(())
    }
    fn byte_at(&mut self, st: &State, a: u64) -> R<Val> {
        self.load_c(st, a, 1, 8)
    }
    fn cstr(&mut self, st: &State, a: u64) -> R<String> {
        let mut s = vec![];
        for i in 0..4096 {
            match self.byte_at(st, a + i)? {
                Val::C(0) => break,
                Val::C(c) => s.push(c as u8),
                _ => return Err(Stop::Unsup("symbolic message".into())),
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn malloc(&mut self, st: &mut State, n: u64, fill: u8) -> u64 {
        if n >= MAXOBJ {
            return 0;
        }
        let i = st.heap.push(Obj::new(n as usize, fill)) as u64;
        ((HEAP_SLOT + i) << SLOT) + OBASE
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let slot = a >> SLOT;
        if slot < HEAP_SLOT || a & ((1 << SLOT) - 1) != OBASE {
            return Err(self.bad("free", a, 0, "not the start of a heap block"));
        }
        match st.heap.get_mut((slot - HEAP_SLOT) as usize) {
            Some(s @ HSlot::Live(_)) => {
                *s = HSlot::Freed;
                Ok(())
            }
            Some(HSlot::Freed) => Err(self.bad("free", a, 0, "already freed")),
            None => Err(self.bad("free", a, 0, "wild pointer")),
        }
    }
    // ---------------------------------------------------------------- vectors / scalars
    fn bin_any(&mut self, op: BinOp, t: TyId, a: &Val, b: &Val) -> R<Val> {
        match self.p.tk[t as usize] {
            TK::I(w, _) => Ok(self.x.bin(op, w as u32, a, b)),
            TK::Vec(_, e) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let mut v = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        v.push(self.bin_any(op, e, p, q)?);
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                Err(Stop::Unsup("vector op".into()))
            }
            TK::W(w) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    match op {
                        BinOp::And | BinOp::Or | BinOp::Xor => {
                            let mut v = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                v.push(self.x.bin(op, 64, p, q));
                            }
                            return Ok(Val::A(Rc::new(v)));
                        }
                        BinOp::LShr | BinOp::Shl => {
                            if let Some(k) = y[0].c() {
                                if k % 64 == 0 && k < w as u64 {
                                    let s = (k / 64) as usize;
                                    let n = x.len();
                                    let v = (0..n)
                                        .map(|i| {
                                            if op == BinOp::LShr {
                                                x.get(i + s).cloned().unwrap_or(Val::C(0))
                                            } else if i >= s {
                                                x[i - s].clone()
                                            } else {
                                                Val::C(0)
                                            }
                                        })
                                        .collect();
                                    return Ok(Val::A(Rc::new(v)));
                                }
                            }
                        }
                        BinOp::Mul => {
                            // concrete 128-bit product
                            if x.len() == 2 {
                                if let (Some(a0), Some(a1), Some(b0), Some(b1)) = (x[0].c(), x[1].c(), y[0].c(), y[1].c()) {
                                    let r = ((a0 as u128) | (a1 as u128) << 64).wrapping_mul((b0 as u128) | (b1 as u128) << 64);
                                    return Ok(Val::A(Rc::new(vec![Val::C(r as u64), Val::C((r >> 64) as u64)])));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                Err(Stop::Unsup(format!("{}-bit {:?}", w, op)))
            }
            _ => Err(Stop::Unsup("bin type".into())),
        }
    }
    fn icmp_any(&mut self, p: Pred, t: TyId, a: &Val, b: &Val) -> R<Val> {
        match self.p.tk[t as usize] {
            TK::I(w, _) => Ok(self.x.cmp(p, w as u32, a, b)),
            TK::Vec(_, e) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let mut v = vec![];
                    for (i, j) in x.iter().zip(y.iter()) {
                        v.push(self.icmp_any(p, e, i, j)?);
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                Err(Stop::Unsup("vector cmp".into()))
            }
            _ => Err(Stop::Unsup("wide cmp".into())),
        }
    }
    fn flatten(&mut self, v: &Val, t: TyId, out: &mut Vec<(Val, u32)>) -> R<()> {
        match self.p.tk[t as usize] {
            TK::I(w, _) => out.push((v.clone(), w as u32)),
            TK::W(_) => {
                if let Val::A(l) = v {
                    for x in l.iter() {
                        out.push((x.clone(), 64));
                    }
                }
            }
            TK::Vec(_, e) => {
                if let Val::A(l) = v {
                    for x in l.iter() {
                        self.flatten(x, e, out)?;
                    }
                } else {
                    return Err(Stop::Unsup("flatten".into()));
                }
            }
            _ => return Err(Stop::Unsup("bitcast type".into())),
        }
        Ok(())
    }
    fn unflatten(&mut self, parts: &[(Val, u32)], pos: &mut u32, t: TyId) -> R<Val> {
        match self.p.tk[t as usize] {
            TK::I(w, _) => self.bits(parts, pos, w as u32),
            TK::W(w) => {
                let mut v = vec![];
                for _ in 0..(w as u32) / 64 {
                    v.push(self.bits(parts, pos, 64)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            TK::Vec(n, e) => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.unflatten(parts, pos, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("bitcast type".into())),
        }
    }
    fn bits(&mut self, parts: &[(Val, u32)], pos: &mut u32, w: u32) -> R<Val> {
        let mut acc: Option<(Val, u32)> = None;
        let mut need = w;
        let mut at = 0u32;
        for (v, pw) in parts {
            if need == 0 {
                break;
            }
            if at + pw <= *pos {
                at += pw;
                continue;
            }
            let lo = *pos - at;
            let take = (pw - lo).min(need);
            let piece = self.x.ext(v, *pw, lo, take);
            acc = Some(match acc {
                None => (piece, take),
                Some((a, aw)) => (self.x.cat(&piece, take, &a, aw), aw + take),
            });
            *pos += take;
            need -= take;
            at += pw;
        }
        acc.map(|x| x.0).ok_or(Stop::Unsup("bitcast size".into()))
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &Val) -> R<Val> {
        let (kf, kt) = (self.p.tk[from as usize], self.p.tk[to as usize]);
        match op {
            CastOp::Bitcast => {
                if let (TK::I(..), TK::I(..)) = (kf, kt) {
                    return Ok(a.clone());
                }
                let mut parts = vec![];
                self.flatten(a, from, &mut parts)?;
                let mut pos = 0;
                self.unflatten(&parts, &mut pos, to)
            }
            _ => match (kf, kt) {
                (TK::I(f, _), TK::I(t, _)) => {
                    let (f, t) = (f as u32, t as u32);
                    Ok(match op {
                        CastOp::ZExt => self.x.zext(a, f, t),
                        CastOp::SExt => self.x.sext(a, f, t),
                        _ => self.x.ext(a, f, 0, t),
                    })
                }
                (TK::Vec(_, e), TK::Vec(_, g)) => {
                    if let Val::A(l) = a {
                        let mut v = vec![];
                        for x in l.iter() {
                            v.push(self.cast(op, e, g, x)?);
                        }
                        return Ok(Val::A(Rc::new(v)));
                    }
                    Err(Stop::Unsup("vector cast".into()))
                }
                (TK::W(_), TK::I(t, _)) if op == CastOp::Trunc => {
                    if let Val::A(l) = a {
                        return Ok(self.x.ext(&l[0], 64, 0, t as u32));
                    }
                    Err(Stop::Unsup("wide trunc".into()))
                }
                (TK::I(f, _), TK::W(w)) if op == CastOp::ZExt => {
                    let lo = self.x.zext(a, f as u32, 64);
                    let mut v = vec![lo];
                    for _ in 1..(w as usize + 63) / 64 {
                        v.push(Val::C(0));
                    }
                    Ok(Val::A(Rc::new(v)))
                }
                _ => Err(Stop::Unsup("cast".into())),
            },
        }
    }
    fn select(&mut self, st: &State, c: &Val, cvec: bool, t: TyId, a: &Val, b: &Val) -> R<Val> {
        if cvec {
            if let (Val::A(c), Val::A(x), Val::A(y), TK::Vec(_, e)) = (c, a, b, self.p.tk[t as usize]) {
                let mut v = vec![];
                for i in 0..c.len() {
                    v.push(self.select(st, &c[i], false, e, &x[i], &y[i])?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            return Err(Stop::Unsup("vector select".into()));
        }
        if let Val::C(k) = c {
            return Ok(if k & 1 == 1 { a.clone() } else { b.clone() });
        }
        match self.p.tk[t as usize] {
            TK::I(w, _) => Ok(self.x.ite(c, w as u32, a, b)),
            _ => {
                let k = self.branch(st, c)?;
                Ok(if k { a.clone() } else { b.clone() })
            }
        }
    }
    // ---------------------------------------------------------------- control
    fn goto(&mut self, st: &mut State, target: u32) {
        let p = self.p;
        let f = &p.m.funcs[st.cur.f as usize];
        let blk = &f.blocks[target as usize];
        if !blk.phis.is_empty() {
            let from = st.cur.b;
            let mut buf = std::mem::take(&mut self.vbuf);
            buf.clear();
            for (_, inc) in &blk.phis {
                let o = inc.iter().find(|(_, b)| *b == from).expect("phi predecessor").0;
                let v = self.op(st, o);
                buf.push(v);
            }
            for ((d, _), v) in blk.phis.iter().zip(buf.drain(..)) {
                st.cur.regs[*d as usize] = v;
            }
            self.vbuf = buf;
        }
        st.cur.b = target;
        st.cur.pc = 0;
        self.cov[(p.bbase[st.cur.f as usize] + target) as usize] = true;
    }
    fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret: u32, normal: u32) -> R<()> {
        let p = self.p;
        let fun = &p.m.funcs[f as usize];
        if st.frames.len() > 3000 {
            return Err(Stop::Viol("stack overflow: recursion deeper than 3000 frames".into()));
        }
        let mut regs = args;
        regs.truncate(fun.nargs as usize);
        regs.resize(fun.nregs as usize, Val::C(0));
        let fr = Frame { f, b: 0, pc: 0, sp: st.stack.len() as u32, ret, normal, regs };
        let old = std::mem::replace(&mut st.cur, fr);
        st.frames.push(Rc::new(old));
        self.cov[p.bbase[f as usize] as usize] = true;
        Ok(())
    }
    pub fn reset(&mut self) {
        let n = self.st.jobs.len();
        let old = std::mem::take(&mut self.st);
        self.st.jobs = old
            .jobs
            .iter()
            .map(|_| JobStats { sample_at: 3, ..JobStats::default() })
            .collect();
        debug_assert!(self.st.jobs.len() == n);
        self.viols.clear();
        self.unsup.clear();
        self.samples.clear();
        self.forkpts.clear();
        for c in self.cov.iter_mut() {
            *c = false;
        }
        self.z.queries = 0;
        self.z.sat = 0;
        self.z.unsat = 0;
        self.z.cached = 0;
        self.z.time = 0.0;
    }
    /// run a state to its end (or put it back after `slice` instructions); forked states are pushed on `work`
    pub fn run_slice(&mut self, mut st: State, work: &mut Vec<State>, slice: u64) -> bool {
        self.until = self.st.insts + slice;
        loop {
            let r = self.steps(&mut st);
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::Fork(c)) => {
                    self.st.forks += 1;
                    *self.forkpts.entry((st.cur.f, st.cur.b)).or_insert(0) += 1;
                    let mut s2 = st.clone();
                    self.add_cond(&mut s2, &c, false);
                    self.add_cond(&mut st, &c, true);
                    s2.depth += 1;
                    st.depth += 1;
                    work.push(s2);
                }
                Err(Stop::Choose(n)) => {
                    if n == 0 {
                        self.st.jobs[st.job as usize].killed += 1;
                        return true;
                    }
                    self.st.forks += n as u64 - 1;
                    for k in (1..n).rev() {
                        let mut s2 = st.clone();
                        s2.pending = Some(k);
                        work.push(s2);
                    }
                    st.pending = Some(0);
                }
                Err(Stop::Yield) => {
                    work.push(st);
                    return false;
                }
                Err(Stop::Kill) => {
                    self.st.jobs[st.job as usize].killed += 1;
                    return true;
                }
                Err(Stop::Done) => {
                    self.finish(&st);
                    return true;
                }
                Err(Stop::Viol(m)) => {
                    self.violation(&st, m, None);
                    self.finish(&st);
                    return true;
                }
                Err(Stop::Unsup(m)) => {
                    let t = self.backtrace(&st);
                    self.unsup.push(format!("{} at {}", m, t.join(" < ")));
                    return true;
                }
            }
        }
    }
    fn finish(&mut self, st: &State) {
        let j = &mut self.st.jobs[st.job as usize];
        j.paths += 1;
        j.maxsteps = j.maxsteps.max(st.steps);
        j.maxvars = j.maxvars.max(st.doms.len() as u64);
        j.reach |= st.reach;
        if j.samples < self.max_samples as u64 && j.paths >= j.sample_at {
            j.samples += 1;
            j.sample_at = j.sample_at * 3 + 5;
            if let Some(asg) = self.model(st, None) {
                let mut memo = FxMap::default();
                let notes = st
                    .notes
                    .iter()
                    .map(|v| match v {
                        Val::C(c) => *c,
                        Val::S(e) => self.x.eval(*e, &asg, &mut memo),
                        _ => 0,
                    })
                    .collect();
                let log = self.log_of(st, &asg);
                self.samples.push(Sample { log, notes, job: st.job });
            }
        }
    }
    fn steps(&mut self, st: &mut State) -> R<()> {
        let p: &'p Prog = self.p;
        loop {
            let f = &p.m.funcs[st.cur.f as usize];
            let blk = &f.blocks[st.cur.b as usize];
            let insts = &blk.insts[..];
            let r = self.block(st, insts);
            r?;
            if self.st.insts > self.until {
                return Err(Stop::Yield);
            }
            if st.steps > self.max_steps {
                return Err(Stop::Viol(format!("step limit: more than {} IR instructions on one path", self.max_steps)));
            }
        }
    }
    /// execute instructions of the current block until control leaves it
    fn block(&mut self, st: &mut State, insts: &'p [Inst]) -> R<()> {
        loop {
            let pc = st.cur.pc as usize;
            let i = &insts[pc];
            st.steps += 1;
            self.st.insts += 1;
            match i {
                Inst::Bin { op, ty, d, a, b } => {
                    let a = self.op(st, *a);
                    let b = self.op(st, *b);
                    let r = match (&a, &b, p_tk(self.p, *ty)) {
                        (Val::C(x), Val::C(y), TK::I(w, _)) => {
                            if *y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                                return Err(Stop::Viol("division by zero".into()));
                            }
                            Val::C(eval_bin(*op, w as u32, *x, *y))
                        }
                        _ => self.bin_any(*op, *ty, &a, &b)?,
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::ICmp { p, ty, d, a, b } => {
                    let a = self.op(st, *a);
                    let b = self.op(st, *b);
                    let r = match (&a, &b, p_tk(self.p, *ty)) {
                        (Val::C(x), Val::C(y), TK::I(w, _)) => Val::C(eval_pred(*p, w as u32, *x, *y) as u64),
                        _ => self.icmp_any(*p, *ty, &a, &b)?,
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Cast { op, from, to, d, a } => {
                    let a = self.op(st, *a);
                    let r = self.cast(*op, *from, *to, &a)?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Load { d, ty, p } => {
                    let pv = self.op(st, *p);
                    let r = match (&pv, p_tk(self.p, *ty)) {
                        (Val::C(a), TK::I(w, b)) => self.load_c(st, *a, b as u64, w as u32)?,
                        _ => self.load_ty(st, &pv, *ty)?,
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Store { ty, v, p } => {
                    let v = self.op(st, *v);
                    let pv = self.op(st, *p);
                    let a = self.concretise(st, &pv, 64)?;
                    match p_tk(self.p, *ty) {
                        TK::I(w, b) => self.store_c(st, a, b as u64, w as u32, &v)?,
                        _ => self.store_agg(st, a, *ty, &v)?,
                    }
                }
                Inst::Gep { d, base, off, idx } => {
                    let mut acc = self.op(st, *base);
                    if *off != 0 {
                        acc = match acc {
                            Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                            v => self.x.bin(BinOp::Add, 64, &v, &Val::C(*off as u64)),
                        };
                    }
                    for (o, w, sc) in idx {
                        let v = self.op(st, *o);
                        acc = match (&acc, &v) {
                            (Val::C(a), Val::C(i)) => Val::C(a.wrapping_add((sx(*i, *w) as u64).wrapping_mul(*sc as u64))),
                            _ => {
                                let e = self.x.sext(&v, *w, 64);
                                let m = if (*sc as u64).is_power_of_two() {
                                    self.x.bin(BinOp::Shl, 64, &e, &Val::C(sc.trailing_zeros() as u64))
                                } else {
                                    self.x.bin(BinOp::Mul, 64, &e, &Val::C(*sc as u64))
                                };
                                self.x.bin(BinOp::Add, 64, &acc, &m)
                            }
                        };
                    }
                    st.cur.regs[*d as usize] = acc;
                }
                Inst::Br { t } => {
                    self.goto(st, *t);
                    return Ok(());
                }
                Inst::CondBr { c, t, f } => {
                    let c = self.op(st, *c);
                    let k = match &c {
                        Val::C(k) => k & 1 == 1,
                        _ => {
                            self.st.branches_sym += 1;
                            self.branch(st, &c)?
                        }
                    };
                    self.goto(st, if k { *t } else { *f });
                    return Ok(());
                }
                Inst::Switch { ty, v, def, cases } => {
                    let v = self.op(st, *v);
                    let t = self.switch(st, *ty, &v, *def, cases)?;
                    self.goto(st, t);
                    return Ok(());
                }
                Inst::Select { d, ty, c, cvec, a, b } => {
                    let c = self.op(st, *c);
                    let a = self.op(st, *a);
                    let b = self.op(st, *b);
                    let r = self.select(st, &c, *cvec, *ty, &a, &b)?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Call { d, rty, callee, args, atys, normal } => {
                    let fid = match callee {
                        Callee::Func(f) => *f,
                        Callee::Ind(o) => {
                            let v = self.op(st, *o);
                            let a = self.concretise(st, &v, 64)?;
                            let off = (a & ((1 << SLOT) - 1)).wrapping_sub(OBASE);
                            if a >> SLOT != FUNC_SLOT || off % 16 != 0 || off / 16 >= self.p.m.funcs.len() as u64 {
                                return Err(Stop::Viol(format!("call through invalid function pointer 0x{:x}", a)));
                            }
                            (off / 16) as u32
                        }
                        _ => return Err(Stop::Unsup("callee".into())),
                    };
                    let mut av = Vec::with_capacity(args.len().max(self.p.m.funcs[fid as usize].nregs as usize));
                    for a in args {
                        let v = self.op(st, *a);
                        av.push(v);
                    }
                    if let Some(bi) = self.p.fbi[fid as usize] {
                        let r = self.builtin(st, bi, fid, &av, atys, *rty)?;
                        if let Some(d) = d {
                            st.cur.regs[*d as usize] = r;
                        }
                        if let Some(n) = normal {
                            self.goto(st, *n);
                            return Ok(());
                        }
                    } else {
                        st.cur.pc += 1;
                        self.enter(st, fid, av, d.unwrap_or(NORET), normal.unwrap_or(NORET))?;
                        return Ok(());
                    }
                }
                Inst::Ret { v } => {
                    let r = match v {
                        Some(o) => Some(self.op(st, *o)),
                        None => None,
                    };
                    match st.frames.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => {
                            let caller = match Rc::try_unwrap(fr) {
                                Ok(f) => f,
                                Err(rc) => (*rc).clone(),
                            };
                            let done = std::mem::replace(&mut st.cur, caller);
                            st.stack.truncate(done.sp as usize);
                            if done.ret != NORET {
                                if let Some(r) = r {
                                    st.cur.regs[done.ret as usize] = r;
                                }
                            }
                            if done.normal != NORET {
                                self.goto(st, done.normal);
                            }
                            return Ok(());
                        }
                    }
                }
                Inst::Alloca { d, size, n } => {
                    let n = self.op(st, *n).c().unwrap_or(1);
                    let k = st.stack.len() as u64;
                    if size * n >= MAXOBJ {
                        return Err(Stop::Unsup("large alloca".into()));
                    }
                    st.stack.push(SSlot { size: (size * n) as u32, obj: None });
                    st.cur.regs[*d as usize] = Val::C(((STACK_SLOT + k) << SLOT) + OBASE);
                }
                Inst::ExtractValue { d, a, path } => {
                    let mut v = self.op(st, *a);
                    for &i in path {
                        v = match &v {
                            Val::A(l) => l[i as usize].clone(),
                            _ => return Err(Stop::Unsup("extractvalue".into())),
                        };
                    }
                    st.cur.regs[*d as usize] = v;
                }
                Inst::InsertValue { d, a, v, path, .. } => {
                    let a = self.op(st, *a);
                    let v = self.op(st, *v);
                    fn ins(a: &Val, v: Val, path: &[u32]) -> Option<Val> {
                        if path.is_empty() {
                            return Some(v);
                        }
                        match a {
                            Val::A(l) => {
                                let mut n = (**l).clone();
                                n[path[0] as usize] = ins(&n[path[0] as usize], v, &path[1..])?;
                                Some(Val::A(Rc::new(n)))
                            }
                            _ => None,
                        }
                    }
                    let r = ins(&a, v, path).ok_or(Stop::Unsup("insertvalue".into()))?;
                    st.cur.regs[*d as usize] = r;
                }
                Inst::ExtractElem { d, a, i } => {
                    let a = self.op(st, *a);
                    let i = self.op(st, *i);
                    let k = i.c().ok_or(Stop::Unsup("extractelement index".into()))? as usize;
                    let r = match &a {
                        Val::A(l) => l[k].clone(),
                        _ => return Err(Stop::Unsup("extractelement".into())),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::InsertElem { d, a, v, i, .. } => {
                    let a = self.op(st, *a);
                    let v = self.op(st, *v);
                    let i = self.op(st, *i);
                    let k = i.c().ok_or(Stop::Unsup("insertelement index".into()))? as usize;
                    let r = match &a {
                        Val::A(l) => {
                            let mut n = (**l).clone();
                            n[k] = v;
                            Val::A(Rc::new(n))
                        }
                        _ => return Err(Stop::Unsup("insertelement".into())),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Shuffle { d, a, b, mask, .. } => {
                    let a = self.op(st, *a);
                    let b = self.op(st, *b);
                    let r = match (&a, &b) {
                        (Val::A(x), Val::A(y)) => mask
                            .iter()
                            .map(|&m| {
                                if m < 0 {
                                    x[0].clone()
                                } else if (m as usize) < x.len() {
                                    x[m as usize].clone()
                                } else {
                                    y[m as usize - x.len()].clone()
                                }
                            })
                            .collect::<Vec<_>>(),
                        _ => return Err(Stop::Unsup("shuffle".into())),
                    };
                    st.cur.regs[*d as usize] = Val::A(Rc::new(r));
                }
                Inst::Fence => {}
                Inst::Freeze { d, a } => {
                    let v = self.op(st, *a);
                    st.cur.regs[*d as usize] = v;
                }
                Inst::AtomicRmw { d, op, ty, p, v } => {
                    let pv = self.op(st, *p);
                    let v = self.op(st, *v);
                    let a = self.concretise(st, &pv, 64)?;
                    if let TK::I(w, b) = self.p.tk[*ty as usize] {
                        let old = self.load_c(st, a, b as u64, w as u32)?;
                        let n = match op.as_str() {
                            "add" => self.x.bin(BinOp::Add, w as u32, &old, &v),
                            "sub" => self.x.bin(BinOp::Sub, w as u32, &old, &v),
                            "xchg" => v,
                            "or" => self.x.bin(BinOp::Or, w as u32, &old, &v),
                            "and" => self.x.bin(BinOp::And, w as u32, &old, &v),
                            _ => return Err(Stop::Unsup("atomicrmw".into())),
                        };
                        self.store_c(st, a, b as u64, w as u32, &n)?;
                        st.cur.regs[*d as usize] = old;
                    } else {
                        return Err(Stop::Unsup("atomicrmw type".into()));
                    }
                }
                Inst::CmpXchg { d, ty, p, c, n } => {
                    let pv = self.op(st, *p);
                    let c = self.op(st, *c);
                    let n = self.op(st, *n);
                    let a = self.concretise(st, &pv, 64)?;
                    if let TK::I(w, b) = self.p.tk[*ty as usize] {
                        let old = self.load_c(st, a, b as u64, w as u32)?;
                        let eq = self.x.cmp(Pred::Eq, w as u32, &old, &c);
                        let k = self.branch(st, &eq)?;
                        if k {
                            self.store_c(st, a, b as u64, w as u32, &n)?;
                        }
                        st.cur.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::C(k as u64)]));
                    } else {
                        return Err(Stop::Unsup("cmpxchg type".into()));
                    }
                }
                Inst::Unreachable => return Err(Stop::Viol("unreachable code reached".into())),
                Inst::Unsupported(s) => return Err(Stop::Unsup(format!("instruction {}", s))),
            }
            st.cur.pc += 1;
        }
    }
    fn switch(&mut self, st: &State, ty: TyId, v: &Val, def: u32, cases: &'p [(u64, u32)]) -> R<u32> {
        let w = match self.p.tk[ty as usize] {
            TK::I(w, _) => w as u32,
            _ => return Err(Stop::Unsup("switch type".into())),
        };
        match v {
            Val::C(k) => {
                if cases.len() > 6 {
                    let key = (st.cur.f, st.cur.b);
                    let m = match self.cases.get(&key) {
                        Some(m) => m.clone(),
                        None => {
                            let mut h = FxMap::default();
                            for (c, t) in cases {
                                h.insert(*c, *t);
                            }
                            let m = Rc::new((h, vec![]));
                            self.cases.insert(key, m.clone());
                            m
                        }
                    };
                    return Ok(*m.0.get(k).unwrap_or(&def));
                }
                for (c, t) in cases {
                    if c == k {
                        return Ok(*t);
                    }
                }
                Ok(def)
            }
            Val::S(e) => {
                self.st.branches_sym += 1;
                if let N::Tab(var, t) = self.x.nodes[*e as usize].0 {
                    let tab = self.x.tabs[t as usize].clone();
                    let d = st.doms[var as usize];
                    let mut tgt = [u32::MAX; 256];
                    let mut first = None;
                    let mut order: Vec<u32> = vec![];
                    for i in 0..256usize {
                        if d[i >> 6] >> (i & 63) & 1 == 0 {
                            continue;
                        }
                        let t = cases.iter().find(|c| c.0 == tab[i]).map_or(def, |c| c.1);
                        tgt[i] = t;
                        if first.is_none() {
                            first = Some(t);
                        }
                        if !order.contains(&t) {
                            order.push(t);
                        }
                    }
                    for &t in &order[..order.len() - 1] {
                        let mut ind = Box::new([0u64; 256]);
                        for i in 0..256 {
                            ind[i] = (tgt[i] == t) as u64;
                        }
                        let c = self.x.tab(var, ind, 1);
                        if self.branch(st, &c)? {
                            return Ok(t);
                        }
                    }
                    return Ok(*order.last().unwrap());
                }
                let mut order: Vec<u32> = vec![];
                for (_, t) in cases {
                    if !order.contains(t) && *t != def {
                        order.push(*t);
                    }
                }
                for t in order {
                    let mut c = Val::C(0);
                    for (k, tt) in cases {
                        if *tt == t {
                            let q = self.x.cmp(Pred::Eq, w, v, &Val::C(*k));
                            c = self.x.bin(BinOp::Or, 1, &c, &q);
                        }
                    }
                    if self.branch(st, &c)? {
                        return Ok(t);
                    }
                }
                Ok(def)
            }
            _ => Err(Stop::Unsup("switch value".into())),
        }
    }
    // ---------------------------------------------------------------- builtins
    fn builtin(&mut self, st: &mut State, bi: Bi, fid: u32, a: &[Val], atys: &[TyId], rty: TyId) -> R<Val> {
        let width = |s: &Self, i: usize| match s.p.tk[atys[i] as usize] {
            TK::I(w, _) => w as u32,
            _ => 0,
        };
        match bi {
            Bi::Nop => Ok(Val::C(0)),
            Bi::Malloc => {
                let n = self.concretise(st, &a[0], 64)?;
                let f = self.fill;
                Ok(Val::C(self.malloc(st, n, f)))
            }
            Bi::Calloc => {
                let n = self.concretise(st, &a[0], 64)?;
                let m = self.concretise(st, &a[1], 64)?;
                match n.checked_mul(m) {
                    Some(k) => Ok(Val::C(self.malloc(st, k, 0))),
                    None => Ok(Val::C(0)),
                }
            }
            Bi::PosixMemalign => {
                let pp = self.concretise(st, &a[0], 64)?;
                let n = self.concretise(st, &a[2], 64)?;
                let f = self.fill;
                let r = self.malloc(st, n, f);
                if r == 0 {
                    return Ok(Val::C(12));
                }
                self.store_c(st, pp, 8, 64, &Val::C(r))?;
                Ok(Val::C(0))
            }
            Bi::Realloc => {
                let old = self.concretise(st, &a[0], 64)?;
                let n = self.concretise(st, &a[1], 64)?;
                let f = self.fill;
                if old == 0 {
                    return Ok(Val::C(self.malloc(st, n, f)));
                }
                let slot = old >> SLOT;
                if slot < HEAP_SLOT || old & ((1 << SLOT) - 1) != OBASE {
                    return Err(self.bad("realloc", old, 0, "not the start of a heap block"));
                }
                let osz = match st.heap.get((slot - HEAP_SLOT) as usize) {
                    Some(HSlot::Live(o)) => o.data.len() as u64,
                    Some(HSlot::Freed) => return Err(self.bad("realloc", old, 0, "already freed")),
                    None => return Err(self.bad("realloc", old, 0, "wild pointer")),
                };
                let new = self.malloc(st, n, f);
                if new == 0 {
                    return Ok(Val::C(0));
                }
                self.copy(st, new, old, osz.min(n))?;
                self.free(st, old)?;
                Ok(Val::C(new))
            }
            Bi::Free => {
                let p = self.concretise(st, &a[0], 64)?;
                self.free(st, p)?;
                Ok(Val::C(0))
            }
            Bi::Strlen => {
                let p = self.concretise(st, &a[0], 64)?;
                let mut n = 0u64;
                loop {
                    let b = self.byte_at(st, p + n)?;
                    let z = self.x.cmp(Pred::Eq, 8, &b, &Val::C(0));
                    if self.branch(st, &z)? {
                        return Ok(Val::C(n));
                    }
                    n += 1;
                }
            }
            Bi::Memchr => {
                let p = self.concretise(st, &a[0], 64)?;
                let c = self.x.ext(&a[1], 32, 0, 8);
                let n = self.concretise(st, &a[2], 64)?;
                for i in 0..n {
                    let b = self.byte_at(st, p + i)?;
                    let z = self.x.cmp(Pred::Eq, 8, &b, &c);
                    if self.branch(st, &z)? {
                        return Ok(Val::C(p + i));
                    }
                }
                Ok(Val::C(0))
            }
            Bi::Bcmp | Bi::BytesEq => {
                let p = self.concretise(st, &a[0], 64)?;
                let q = self.concretise(st, &a[1], 64)?;
                let n = self.concretise(st, &a[2], 64)?;
                let mut acc = Val::C(1);
                for i in 0..n {
                    let x = self.byte_at(st, p + i)?;
                    let y = self.byte_at(st, q + i)?;
                    let e = self.x.cmp(Pred::Eq, 8, &x, &y);
                    acc = self.x.bin(BinOp::And, 1, &acc, &e);
                    if acc.c() == Some(0) {
                        break;
                    }
                }
                if bi == Bi::Bcmp {
                    acc = self.x.not1(&acc);
                }
                Ok(self.x.zext(&acc, 1, 32))
            }
            Bi::Memcmp => {
                let p = self.concretise(st, &a[0], 64)?;
                let q = self.concretise(st, &a[1], 64)?;
                let n = self.concretise(st, &a[2], 64)?;
                let mut acc = Val::C(0);
                for i in (0..n).rev() {
                    let x = self.byte_at(st, p + i)?;
                    let y = self.byte_at(st, q + i)?;
                    let e = self.x.cmp(Pred::Eq, 8, &x, &y);
                    let l = self.x.cmp(Pred::Ult, 8, &x, &y);
                    let d = self.x.ite(&l, 32, &Val::C(0xffff_ffff), &Val::C(1));
                    acc = self.x.ite(&e, 32, &acc, &d);
                }
                Ok(acc)
            }
            Bi::Memcpy => {
                let d = self.concretise(st, &a[0], 64)?;
                let s = self.concretise(st, &a[1], 64)?;
                let n = self.concretise(st, &a[2], 64)?;
                self.copy(st, d, s, n)?;
                Ok(Val::C(d))
            }
            Bi::Memset => {
                let d = self.concretise(st, &a[0], 64)?;
                let n = self.concretise(st, &a[2], 64)?;
                let w = width(self, 1);
                let b = self.x.ext(&a[1], w, 0, 8);
                if n == 0 {
                    return Ok(Val::C(d));
                }
                match b {
                    Val::C(c) => {
                        let (o, off) = self.obj_mut(st, d, n)?;
                        for x in o.data[off..off + n as usize].iter_mut() {
                            *x = c as u8;
                        }
                        if let Some(s) = &mut o.sym {
                            for x in s[off..off + n as usize].iter_mut() {
                                *x = 0;
                            }
                        }
                    }
                    v => {
                        for i in 0..n {
                            self.store_c(st, d + i, 1, 8, &v)?;
                        }
                    }
                }
                Ok(Val::C(d))
            }
            Bi::Getenv => Ok(Val::C(0)),
            Bi::Panic => Err(Stop::Viol(format!("panic: {}", self.p.dname[fid as usize]))),
            Bi::External => Err(Stop::Unsup(format!("external function {}", self.p.m.funcs[fid as usize].name))),
            Bi::Byte => {
                let v = st.doms.len() as u32;
                st.doms.push(FULL);
                st.log.push(Choice::Byte(v));
                Ok(self.x.var(v))
            }
            Bi::Choice => {
                let n = self.concretise(st, &a[0], 32)? as u32;
                match st.pending.take() {
                    Some(k) => {
                        st.log.push(Choice::Pick(n, k));
                        Ok(Val::C(k as u64))
                    }
                    None => Err(Stop::Choose(n)),
                }
            }
            Bi::Concrete => {
                let w = width(self, 0);
                let k = self.concretise(st, &a[0], w)?;
                Ok(Val::C(k))
            }
            Bi::Assume => {
                let w = width(self, 0);
                let nz = self.x.cmp(Pred::Ne, w, &a[0], &Val::C(0));
                match nz {
                    Val::C(0) => Err(Stop::Kill),
                    Val::C(_) => Ok(Val::C(0)),
                    v => {
                        let e = match &v {
                            Val::S(e) => *e,
                            _ => unreachable!(),
                        };
                        if !self.feasible(st, e, true) {
                            return Err(Stop::Kill);
                        }
                        self.add_cond(st, &v, true);
                        Ok(Val::C(0))
                    }
                }
            }
            Bi::Assert => {
                self.st.jobs[st.job as usize].asserts += 1;
                let w = width(self, 0);
                let nz = self.x.cmp(Pred::Ne, w, &a[0], &Val::C(0));
                match nz {
                    Val::C(0) => {
                        let m = self.concretise(st, &a[1], 64)?;
                        let s = self.cstr(st, m)?;
                        Err(Stop::Viol(format!("assertion: {}", s)))
                    }
                    Val::C(_) => Ok(Val::C(0)),
                    v => {
                        self.st.jobs[st.job as usize].asserts_sym += 1;
                        let e = match &v {
                            Val::S(e) => *e,
                            _ => unreachable!(),
                        };
                        if self.feasible(st, e, false) {
                            let m = self.concretise(st, &a[1], 64)?;
                            let s = self.cstr(st, m)?;
                            self.violation(st, format!("assertion: {}", s), Some((e, false)));
                            if !self.feasible(st, e, true) {
                                return Err(Stop::Kill);
                            }
                            self.add_cond(st, &v, true);
                        }
                        Ok(Val::C(0))
                    }
                }
            }
            Bi::End => Err(Stop::Done),
            Bi::Fail => {
                let m = self.concretise(st, &a[0], 64)?;
                let s = self.cstr(st, m)?;
                Err(Stop::Viol(format!("assertion: {}", s)))
            }
            Bi::Reach => {
                let m = self.concretise(st, &a[0], 64)?;
                let s = self.cstr(st, m)?;
                let i = match self.reach_names.iter().position(|x| *x == s) {
                    Some(i) => i,
                    None => {
                        self.reach_names.push(s);
                        self.reach_names.len() - 1
                    }
                };
                st.reach |= 1u128 << i.min(127);
                Ok(Val::C(0))
            }
            Bi::Param => {
                let i = self.concretise(st, &a[0], 32)? as usize;
                Ok(Val::C(self.params[st.job as usize].get(i).copied().unwrap_or(0)))
            }
            Bi::Note => {
                st.notes.push(a[0].clone());
                Ok(Val::C(0))
            }
            Bi::Expect => Ok(a[0].clone()),
            Bi::Ov(op, signed) => {
                let w = width(self, 0);
                let f = move |x: u64, y: u64| -> (u64, bool) {
                    let r = eval_bin(op, w, x, y);
                    let o = if signed {
                        let (x, y) = (sx(x, w) as i128, sx(y, w) as i128);
                        let t = match op {
                            BinOp::Add => x + y,
                            BinOp::Sub => x - y,
                            _ => x * y,
                        };
                        t != sx(r, w) as i128
                    } else {
                        let (x, y) = (x as i128, y as i128);
                        match op {
                            BinOp::Add => x + y != r as i128,
                            BinOp::Sub => x < y,
                            _ => (x as u128) * (y as u128) != r as u128,
                        }
                    };
                    (r, o)
                };
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let (r, o) = f(*x, *y);
                    return Ok(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u64)])));
                }
                let r = self.x.bin(op, w, &a[0], &a[1]);
                if let Some(o) = self.x.fold2p(&a[0], &a[1], 1, |x, y| f(x, y).1 as u64) {
                    return Ok(Val::A(Rc::new(vec![r, o])));
                }
                let o = match (op, signed) {
                    (BinOp::Add, false) => self.x.cmp(Pred::Ult, w, &r, &a[0]),
                    (BinOp::Sub, false) => self.x.cmp(Pred::Ult, w, &a[0], &a[1]),
                    (BinOp::Add, true) => {
                        let p = self.x.bin(BinOp::Xor, w, &a[0], &r);
                        let q = self.x.bin(BinOp::Xor, w, &a[1], &r);
                        let t = self.x.bin(BinOp::And, w, &p, &q);
                        self.x.ext(&t, w, w - 1, 1)
                    }
                    (BinOp::Sub, true) => {
                        let p = self.x.bin(BinOp::Xor, w, &a[0], &a[1]);
                        let q = self.x.bin(BinOp::Xor, w, &a[0], &r);
                        let t = self.x.bin(BinOp::And, w, &p, &q);
                        self.x.ext(&t, w, w - 1, 1)
                    }
                    _ => {
                        if w <= 32 {
                            let (x, y) = if signed {
                                (self.x.sext(&a[0], w, 64), self.x.sext(&a[1], w, 64))
                            } else {
                                (self.x.zext(&a[0], w, 64), self.x.zext(&a[1], w, 64))
                            };
                            let m = self.x.bin(BinOp::Mul, 64, &x, &y);
                            let rr = if signed { self.x.sext(&r, w, 64) } else { self.x.zext(&r, w, 64) };
                            self.x.cmp(Pred::Ne, 64, &m, &rr)
                        } else {
                            let x = self.concretise(st, &a[0], w)?;
                            let y = self.concretise(st, &a[1], w)?;
                            let (r, o) = f(x, y);
                            return Ok(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u64)])));
                        }
                    }
                };
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            Bi::Sat(op, _) => {
                let w = width(self, 0);
                match op {
                    BinOp::Sub => {
                        let c = self.x.cmp(Pred::Ult, w, &a[0], &a[1]);
                        let r = self.x.bin(BinOp::Sub, w, &a[0], &a[1]);
                        Ok(self.x.ite(&c, w, &Val::C(0), &r))
                    }
                    _ => {
                        let r = self.x.bin(BinOp::Add, w, &a[0], &a[1]);
                        let c = self.x.cmp(Pred::Ult, w, &r, &a[0]);
                        Ok(self.x.ite(&c, w, &Val::C(mask(w)), &r))
                    }
                }
            }
            Bi::Fsh(left) => {
                let w = width(self, 0);
                let k = self.concretise(st, &a[2], w)? % w as u64;
                if k == 0 {
                    return Ok(if left { a[0].clone() } else { a[1].clone() });
                }
                let kl = if left { k } else { w as u64 - k };
                let h = self.x.bin(BinOp::Shl, w, &a[0], &Val::C(kl));
                let l = self.x.bin(BinOp::LShr, w, &a[1], &Val::C(w as u64 - kl));
                Ok(self.x.bin(BinOp::Or, w, &h, &l))
            }
            Bi::Ctz | Bi::Clz | Bi::Ctpop | Bi::Bswap => {
                let w = width(self, 0);
                let f = move |x: u64| -> u64 {
                    match bi {
                        Bi::Ctz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Bi::Clz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.leading_zeros() as u64 - (64 - w as u64)
                            }
                        }
                        Bi::Ctpop => x.count_ones() as u64,
                        _ => x.swap_bytes() >> (64 - w),
                    }
                };
                if let Some(r) = self.x.fold1p(&a[0], w, f) {
                    return Ok(r);
                }
                let k = self.concretise(st, &a[0], w)?;
                Ok(Val::C(f(k)))
            }
            Bi::MinMax(p) => {
                let w = width(self, 0);
                let c = self.x.cmp(p, w, &a[0], &a[1]);
                Ok(self.x.ite(&c, w, &a[0], &a[1]))
            }
        }
        .map(|v| {
            let _ = rty;
            v
        })
    }
}

#[inline]
fn p_tk(p: &Prog, t: TyId) -> TK {
    p.tk[t as usize]
}
