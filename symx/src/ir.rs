//! Parser for the textual LLVM IR (opaque pointers, as printed by llvm-dis/opt 18)
//! of the whole program: harness + rexpat + std, linked by fat LTO.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, TyId),
    Vector(u64, TyId),
    Struct(Vec<TyId>, bool),
    Named(String),
    Opaque,
    Label,
    Meta,
    Func,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    pub map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>, // name -> definition
    pub lay: HashMap<TyId, Layout>,
}

impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn res(&self, t: TyId) -> TyId {
        match &self.tys[t as usize] {
            Ty::Named(n) => self.res(*self.named.get(n).unwrap_or_else(|| panic!("named type {}", n))),
            _ => t,
        }
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.tys[self.res(t) as usize]
    }
    pub fn layout(&mut self, t: TyId) -> Layout {
        let t = self.res(t);
        if let Some(l) = self.lay.get(&t) {
            return l.clone();
        }
        let l = match self.tys[t as usize].clone() {
            Ty::Int(w) => {
                let bytes = ((w + 7) / 8) as u64;
                let al = match bytes {
                    1 => 1,
                    2 => 2,
                    3 | 4 => 4,
                    5..=8 => 8,
                    _ => 16,
                };
                Layout { size: (bytes + al - 1) / al * al, align: al, offs: vec![] }
            }
            Ty::Ptr => Layout { size: 8, align: 8, offs: vec![] },
            Ty::Float(w) => Layout { size: (w / 8) as u64, align: (w / 8) as u64, offs: vec![] },
            Ty::Arr(n, e) => {
                let el = self.layout(e);
                Layout { size: el.size * n, align: el.align, offs: vec![] }
            }
            Ty::Vector(n, e) => {
                let bits = match *self.get(e) {
                    Ty::Int(w) => w as u64,
                    Ty::Ptr => 64,
                    Ty::Float(w) => w as u64,
                    _ => panic!("vector elem"),
                };
                let s = (bits * n + 7) / 8;
                Layout { size: s, align: s.next_power_of_two(), offs: vec![] }
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1u64;
                let mut offs = vec![];
                for f in fs {
                    let l = self.layout(f);
                    if !packed {
                        off = (off + l.align - 1) / l.align * l.align;
                        al = al.max(l.align);
                    }
                    offs.push(off);
                    off += l.size;
                }
                let size = (off + al - 1) / al * al;
                Layout { size, align: al, offs }
            }
            Ty::Func | Ty::Opaque => Layout { size: 0, align: 1, offs: vec![] },
            x => panic!("layout of {:?}", x),
        };
        self.lay.insert(t, l.clone());
        l
    }
    /// bytes written by a store of this type
    pub fn store_size(&mut self, t: TyId) -> u64 {
        match *self.get(t) {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => self.layout(t).size,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u64),
    Wide(u128),
    Undef,
    Zero,
    Str(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
    Global(String),
    /// base + offset
    Off(Box<Const>, i64),
    /// difference / arithmetic of constants
    Bin(BinOp, u32, Box<Const>, Box<Const>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Bitcast,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    K(u32),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Ind(Op),
    Func(u32),
    Builtin(u32),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, d: u32, a: Op, b: Op },
    ICmp { p: Pred, ty: TyId, d: u32, a: Op, b: Op },
    Cast { op: CastOp, from: TyId, to: TyId, d: u32, a: Op },
    Alloca { d: u32, size: u64, n: Op },
    Load { d: u32, ty: TyId, p: Op },
    Store { ty: TyId, v: Op, p: Op },
    Gep { d: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Select { d: u32, ty: TyId, c: Op, cvec: bool, a: Op, b: Op },
    Call { d: Option<u32>, rty: TyId, callee: Callee, args: Vec<Op>, atys: Vec<TyId>, normal: Option<u32> },
    ExtractValue { d: u32, a: Op, path: Vec<u32> },
    InsertValue { d: u32, aty: TyId, a: Op, v: Op, path: Vec<u32> },
    ExtractElem { d: u32, a: Op, i: Op },
    InsertElem { d: u32, vty: TyId, a: Op, v: Op, i: Op },
    Shuffle { d: u32, vty: TyId, a: Op, b: Op, mask: Vec<i64> },
    Fence,
    AtomicRmw { d: u32, op: String, ty: TyId, p: Op, v: Op },
    CmpXchg { d: u32, ty: TyId, p: Op, c: Op, n: Op },
    Freeze { d: u32, a: Op },
    Ret { v: Option<Op> },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: TyId, v: Op, def: u32, cases: Vec<(u64, u32)> },
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(Op, u32)>)>, // dst, (value, pred block)
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub defined: bool,
    pub id: u32,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub types: Types,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, Const)>,
    pub funcs: Vec<Func>,
    pub consts: Vec<(TyId, Const)>,
    pub dilocs: HashMap<u32, (u32, u32)>, // id -> (line, scope)
    pub difile: HashMap<u32, u32>,        // scope -> file id
    pub discope: HashMap<u32, u32>,       // scope -> parent scope
    pub files: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Glob(String),
    Num(String),
    CStr(Vec<u8>),
    Str(String),
    P(char),
    Meta(String),
    Attr,
    Dots,
    Nl,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn skip_line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn quoted(&mut self) -> &'a [u8] {
        // at opening quote
        self.i += 1;
        let st = self.i;
        while self.s[self.i] != b'"' {
            self.i += 1;
        }
        let r = &self.s[st..self.i];
        self.i += 1;
        r
    }
    fn next(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => self.skip_line(),
                b'\n' => {
                    self.i += 1;
                    return Tok::Nl;
                }
                b'%' | b'@' => {
                    self.i += 1;
                    let name = if self.s[self.i] == b'"' {
                        String::from_utf8_lossy(&unesc(self.quoted())).into_owned()
                    } else {
                        let st = self.i;
                        while self.i < self.s.len() && idch(self.s[self.i]) {
                            self.i += 1;
                        }
                        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
                    };
                    return if c == b'%' { Tok::Local(name) } else { Tok::Glob(name) };
                }
                b'"' => {
                    let q = self.quoted();
                    return Tok::Str(String::from_utf8_lossy(q).into_owned());
                }
                b'#' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                        self.i += 1;
                    }
                    return Tok::Attr;
                }
                b'!' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && idch(self.s[self.i]) {
                        self.i += 1;
                    }
                    return Tok::Meta(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
                }
                b'.' if self.s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    return Tok::Dots;
                }
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    let q = self.quoted();
                    return Tok::CStr(unesc(q));
                }
                b'0'..=b'9' | b'-' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (idch(self.s[self.i]) || self.s[self.i] == b'+') {
                        self.i += 1;
                    }
                    return Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                    let st = self.i;
                    while self.i < self.s.len() && idch(self.s[self.i]) {
                        self.i += 1;
                    }
                    return Tok::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
                }
                _ => {
                    self.i += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
}

struct Parser<'a> {
    lx: Lex<'a>,
    tok: Tok,
    m: Module,
    ckey: HashMap<String, u32>,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), b);
        b
    }
}

impl<'a> Parser<'a> {
    fn adv(&mut self) -> Tok {
        let n = self.lx.next();
        std::mem::replace(&mut self.tok, n)
    }
    fn is_p(&self, c: char) -> bool {
        self.tok == Tok::P(c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(&self.tok, Tok::Word(x) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat_p(c) {
            self.fail(&format!("expected {}", c));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let st = self.lx.s[..self.lx.i.min(self.lx.s.len())].iter().rposition(|&b| b == b'\n').map_or(0, |x| x + 1);
        let en = self.lx.s[st..].iter().position(|&b| b == b'\n').map_or(self.lx.s.len(), |x| st + x);
        panic!("IR parse error: {} at {:?} in line: {}", m, self.tok, String::from_utf8_lossy(&self.lx.s[st..en]));
    }
    fn to_nl(&mut self) {
        while self.tok != Tok::Nl && self.tok != Tok::Eof {
            self.adv();
        }
    }
    fn skip_line(&mut self) {
        // skip raw text to end of line (cheap, no tokenising)
        if self.tok != Tok::Nl {
            self.lx.skip_line();
            self.adv();
        }
    }
    fn word(&mut self) -> String {
        match self.adv() {
            Tok::Word(w) => w,
            _ => self.fail("word"),
        }
    }
    fn num_u64(&mut self) -> u64 {
        match self.adv() {
            Tok::Num(n) => n.parse().unwrap(),
            _ => self.fail("num"),
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            Tok::Word(w) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "x86_fp80" | "opaque" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
            Tok::Local(_) => true,
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.adv() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.exp('(');
                        self.adv();
                        self.exp(')');
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "x86_fp80" | "fp128" => Ty::Float(128),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "opaque" => Ty::Opaque,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                w => self.fail(&format!("type {}", w)),
            },
            Tok::Local(n) => Ty::Named(n),
            Tok::P('[') => {
                let n = self.num_u64();
                if !self.eat_w("x") {
                    self.fail("x");
                }
                let e = self.ty();
                self.exp(']');
                Ty::Arr(n, e)
            }
            Tok::P('{') => self.struct_rest(false),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let s = self.struct_rest(true);
                    self.exp('>');
                    s
                } else {
                    let n = self.num_u64();
                    if !self.eat_w("x") {
                        self.fail("x");
                    }
                    let e = self.ty();
                    self.exp('>');
                    Ty::Vector(n, e)
                }
            }
            _ => self.fail("type"),
        };
        let id = self.m.types.mk(t);
        // function type
        if self.is_p('(') && false {
            return id;
        }
        id
    }
    fn struct_rest(&mut self, packed: bool) -> Ty {
        let mut v = vec![];
        if !self.eat_p('}') {
            loop {
                v.push(self.ty());
                if self.eat_p('}') {
                    break;
                }
                self.exp(',');
            }
        }
        Ty::Struct(v, packed)
    }
    fn int_width(&self, t: TyId) -> u32 {
        match *self.m.types.get(t) {
            Ty::Int(w) => w,
            Ty::Ptr => 64,
            Ty::Float(w) => w,
            _ => 0,
        }
    }
    fn parse_num(&self, s: &str, w: u32) -> Const {
        if s.contains('.') || s.starts_with("0x") || s.contains("e+") {
            if let Some(h) = s.strip_prefix("0x") {
                let h = h.trim_start_matches(|c| c == 'K' || c == 'L' || c == 'M' || c == 'H');
                return Const::Wide(u128::from_str_radix(h, 16).unwrap_or(0));
            }
            let f: f64 = s.parse().unwrap();
            return Const::Int(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() });
        }
        if w <= 64 {
            let v: i128 = s.parse().unwrap();
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            Const::Int((v as u64) & m)
        } else if let Some(n) = s.strip_prefix('-') {
            let v: u128 = n.parse().unwrap();
            Const::Wide((v as i128).wrapping_neg() as u128)
        } else {
            Const::Wide(s.parse().unwrap())
        }
    }
    /// constant of known type (current token is the start of the value)
    fn cval(&mut self, t: TyId) -> Const {
        let w = self.int_width(t);
        match self.adv() {
            Tok::Num(n) => self.parse_num(&n, w),
            Tok::CStr(s) => Const::Str(s),
            Tok::Glob(g) => Const::Global(g),
            Tok::P('{') => {
                let v = self.agg_rest('}');
                Const::Agg(v)
            }
            Tok::P('[') => {
                let v = self.agg_rest(']');
                Const::Agg(v)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg_rest('}');
                    self.exp('>');
                    Const::Agg(v)
                } else {
                    let v = self.agg_rest('>');
                    Const::Agg(v)
                }
            }
            Tok::Word(wd) => match wd.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "zeroinitializer" | "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                "getelementptr" => {
                    while matches!(self.tok, Tok::Word(ref w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw")) {
                        self.adv();
                    }
                    if self.eat_w("inrange") {
                        self.exp('(');
                        while !self.eat_p(')') {
                            self.adv();
                        }
                    }
                    self.exp('(');
                    let bt = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = self.cval(pt);
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let c = self.cval(it);
                        let w = self.int_width(it);
                        let v = match c {
                            Const::Int(v) => sx(v, w),
                            Const::Zero => 0,
                            _ => self.fail("gep const idx"),
                        };
                        if first {
                            off += v * self.m.types.layout(cur).size as i64;
                            first = false;
                        } else {
                            let (o, n) = self.step(cur, v);
                            off += o;
                            cur = n;
                        }
                    }
                    self.exp(')');
                    Const::Off(Box::new(base), off)
                }
                "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => {
                    self.exp('(');
                    let st = self.ty();
                    let c = self.cval(st);
                    if !self.eat_w("to") {
                        self.fail("to");
                    }
                    let _ = self.ty();
                    self.exp(')');
                    c
                }
                "trunc" | "zext" => {
                    self.exp('(');
                    let st = self.ty();
                    let c = self.cval(st);
                    self.eat_w("to");
                    let tt = self.ty();
                    self.exp(')');
                    let w = self.int_width(tt);
                    Const::Bin(BinOp::And, w, Box::new(c), Box::new(Const::Int(if w >= 64 { u64::MAX } else { (1 << w) - 1 })))
                }
                "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                    while matches!(self.tok, Tok::Word(ref w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint")) {
                        self.adv();
                    }
                    let op = binop(&wd).unwrap();
                    self.exp('(');
                    let t1 = self.ty();
                    let a = self.cval(t1);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.cval(t2);
                    self.exp(')');
                    Const::Bin(op, self.int_width(t1), Box::new(a), Box::new(b))
                }
                "icmp" => {
                    // only address-of-global against null occurs
                    let pred = self.word();
                    self.exp('(');
                    let t1 = self.ty();
                    let a = self.cval(t1);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.cval(t2);
                    self.exp(')');
                    match (&a, &b, pred.as_str()) {
                        (Const::Global(_), Const::Zero, "ne") | (Const::Zero, Const::Global(_), "ne") => Const::Int(1),
                        (Const::Global(_), Const::Zero, "eq") | (Const::Zero, Const::Global(_), "eq") => Const::Int(0),
                        _ => self.fail("constant icmp"),
                    }
                }
                _ => self.fail(&format!("constant {}", wd)),
            },
            _ => self.fail("constant"),
        }
    }
    fn agg_rest(&mut self, close: char) -> Vec<(TyId, Const)> {
        let mut v = vec![];
        if self.eat_p(close) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.cval(t);
            v.push((t, c));
            if self.eat_p(close) {
                return v;
            }
            self.exp(',');
        }
    }
    /// step into an aggregate type by a constant index
    fn step(&mut self, t: TyId, i: i64) -> (i64, TyId) {
        match self.m.types.get(t).clone() {
            Ty::Struct(fs, _) => {
                let l = self.m.types.layout(t);
                (l.offs[i as usize] as i64, fs[i as usize])
            }
            Ty::Arr(_, e) | Ty::Vector(_, e) => {
                let l = self.m.types.layout(e);
                (l.size as i64 * i, e)
            }
            x => self.fail(&format!("gep step {:?}", x)),
        }
    }
    fn kconst(&mut self, t: TyId, c: Const) -> Op {
        let key = format!("{}:{:?}", t, c);
        if let Some(&k) = self.ckey.get(&key) {
            return Op::K(k);
        }
        let k = self.m.consts.len() as u32;
        self.m.consts.push((t, c));
        self.ckey.insert(key, k);
        Op::K(k)
    }
    fn val(&mut self, t: TyId, fx: &mut FnCtx) -> Op {
        if let Tok::Local(n) = &self.tok {
            let r = fx.reg(&n.clone());
            self.adv();
            return Op::R(r);
        }
        if self.is_w("asm") {
            self.fail("asm value");
        }
        let c = self.cval(t);
        self.kconst(t, c)
    }
    fn skip_attrs(&mut self) {
        // parameter / return attributes
        loop {
            match &self.tok {
                Tok::Word(w) => match w.as_str() {
                    "zeroext" | "signext" | "inreg" | "noalias" | "nocapture" | "nonnull" | "readonly" | "readnone" | "writeonly"
                    | "returned" | "noundef" | "immarg" | "nofree" | "nest" | "swiftself" | "allocalign" | "allocptr" | "noreturn"
                    | "nounwind" | "cold" | "willreturn" | "dead_on_unwind" | "writable" => {
                        self.adv();
                    }
                    "align" => {
                        self.adv();
                        if self.eat_p('(') {
                            self.adv();
                            self.exp(')');
                        } else {
                            self.adv();
                        }
                    }
                    "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "elementtype" | "range" | "captures" | "nofpclass"
                    | "initializes" | "memory" | "byref" | "preallocated" | "inalloca" => {
                        self.adv();
                        self.exp('(');
                        let mut d = 1;
                        while d > 0 {
                            match self.adv() {
                                Tok::P('(') => d += 1,
                                Tok::P(')') => d -= 1,
                                Tok::Nl | Tok::Eof => self.fail("attr"),
                                _ => {}
                            }
                        }
                    }
                    _ => return,
                },
                Tok::Attr | Tok::Str(_) => {
                    self.adv();
                    if self.eat_p('=') {
                        self.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_fn_prefix(&mut self) {
        loop {
            match &self.tok {
                Tok::Word(w) => match w.as_str() {
                    "internal" | "private" | "external" | "weak" | "weak_odr" | "linkonce" | "linkonce_odr" | "hidden" | "protected"
                    | "default" | "dso_local" | "dso_preemptable" | "fastcc" | "ccc" | "coldcc" | "available_externally" | "extern_weak"
                    | "common" | "appending" | "unnamed_addr" | "local_unnamed_addr" | "preserve_mostcc" => {
                        self.adv();
                    }
                    _ => {
                        let t = self.tok.clone();
                        self.skip_attrs();
                        if self.tok == t {
                            return;
                        }
                    }
                },
                _ => return,
            }
        }
    }
    fn parse_func(&mut self, define: bool) {
        self.skip_fn_prefix();
        let _rt = self.ty();
        let name = match self.adv() {
            Tok::Glob(g) => g,
            _ => self.fail("function name"),
        };
        self.exp('(');
        let mut fx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        let mut nargs = 0;
        let mut unnamed = 0;
        if !self.eat_p(')') {
            loop {
                if self.tok == Tok::Dots {
                    self.adv();
                    self.exp(')');
                    break;
                }
                let _t = self.ty();
                self.skip_attrs();
                if let Tok::Local(n) = &self.tok {
                    let n = n.clone();
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    fx.reg(&n);
                    self.adv();
                } else {
                    fx.reg(&format!("__arg{}", nargs));
                    unnamed += 1;
                }
                nargs += 1;
                if self.eat_p(')') {
                    break;
                }
                self.exp(',');
            }
        }
        let id = self.m.funcs.len() as u32;
        if !define {
            self.skip_line();
            self.m.funcs.push(Func { name, nargs, blocks: vec![], nregs: 0, defined: false, id });
            return;
        }
        while !self.is_p('{') {
            if self.tok == Tok::Nl {
                self.fail("function body");
            }
            // `personality ptr @x`, attributes, section...
            self.adv();
        }
        self.adv();
        while self.tok == Tok::Nl {
            self.adv();
        }
        let mut blocks: Vec<Block> = vec![];
        let mut order: Vec<u32> = vec![];
        // entry label
        let mut curlabel: Option<String> = Some(unnamed.to_string());
        let mut cur = Block::default();
        let mut started = false;
        loop {
            match &self.tok {
                Tok::Nl => {
                    self.adv();
                    continue;
                }
                Tok::P('}') => {
                    self.adv();
                    break;
                }
                _ => {}
            }
            // label?
            let lab = match &self.tok {
                Tok::Word(w) => Some(w.clone()),
                Tok::Num(n) => Some(n.clone()),
                Tok::Str(s) => Some(s.clone()),
                _ => None,
            };
            if let Some(l) = lab {
                if self.lx.i < self.lx.s.len() && self.lx.s[self.lx.i] == b':' {
                    self.adv();
                    self.exp(':');
                    if started {
                        let b = fx.block(&curlabel.take().unwrap());
                        order.push(b);
                        blocks.push(std::mem::take(&mut cur));
                    }
                    curlabel = Some(l);
                    started = true;
                    self.to_nl();
                    continue;
                }
            }
            started = true;
            self.parse_inst(&mut fx, &mut cur);
            // trailing metadata: find !dbg
            let mut dbg = 0;
            while self.tok != Tok::Nl && self.tok != Tok::Eof {
                if self.tok == Tok::Meta("!dbg".into()) {
                    self.adv();
                    if let Tok::Meta(m) = &self.tok {
                        dbg = m[1..].parse().unwrap_or(0);
                    }
                }
                self.adv();
            }
            while cur.dbg.len() < cur.insts.len() {
                cur.dbg.push(dbg);
            }
        }
        let b = fx.block(&curlabel.take().unwrap());
        order.push(b);
        blocks.push(cur);
        // place in id order; block 0 must be the entry
        let entry = order[0];
        let n = fx.nblocks as usize;
        let mut out: Vec<Block> = vec![Block::default(); n];
        for (o, b) in order.iter().zip(blocks) {
            out[*o as usize] = b;
        }
        // entry remap: swap block 0 with entry
        if entry != 0 {
            let swap = |x: u32| if x == 0 { entry } else if x == entry { 0 } else { x };
            out.swap(0, entry as usize);
            for b in out.iter_mut() {
                for (_, inc) in b.phis.iter_mut() {
                    for (_, p) in inc.iter_mut() {
                        *p = swap(*p);
                    }
                }
                for i in b.insts.iter_mut() {
                    match i {
                        Inst::Br { t } => *t = swap(*t),
                        Inst::CondBr { t, f, .. } => {
                            *t = swap(*t);
                            *f = swap(*f);
                        }
                        Inst::Switch { def, cases, .. } => {
                            *def = swap(*def);
                            for c in cases.iter_mut() {
                                c.1 = swap(c.1);
                            }
                        }
                        Inst::Call { normal: Some(nb), .. } => *nb = swap(*nb),
                        _ => {}
                    }
                }
            }
        }
        let nregs = fx.regs.len() as u32;
        self.m.funcs.push(Func { name, nargs, blocks: out, nregs, defined: true, id });
    }
    fn label(&mut self, fx: &mut FnCtx) -> u32 {
        if !self.eat_w("label") {
            self.fail("label");
        }
        match self.adv() {
            Tok::Local(n) => fx.block(&n),
            _ => self.fail("label name"),
        }
    }
    fn skip_flags(&mut self) {
        while let Tok::Word(w) = &self.tok {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "inbounds" | "disjoint" | "nneg" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" | "nusw" | "weak" | "samesign" => {
                    self.adv();
                }
                _ => break,
            }
        }
    }
    fn parse_inst(&mut self, fx: &mut FnCtx, blk: &mut Block) {
        let mut d: Option<u32> = None;
        if let Tok::Local(n) = &self.tok {
            let n = n.clone();
            d = Some(fx.reg(&n));
            self.adv();
            self.exp('=');
        }
        let op = self.word();
        let dd = d.unwrap_or(u32::MAX);
        let inst = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.skip_flags();
                let ty = self.ty();
                let a = self.val(ty, fx);
                self.exp(',');
                let b = self.val(ty, fx);
                Inst::Bin { op: binop(&op).unwrap(), ty, d: dd, a, b }
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => self.fail(&format!("pred {}", x)),
                };
                let ty = self.ty();
                let a = self.val(ty, fx);
                self.exp(',');
                let b = self.val(ty, fx);
                Inst::ICmp { p, ty, d: dd, a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => {
                self.skip_flags();
                let from = self.ty();
                let a = self.val(from, fx);
                self.eat_w("to");
                let to = self.ty();
                let op = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "bitcast" => CastOp::Bitcast,
                    _ => {
                        let (wf, wt) = (self.int_width(from), self.int_width(to));
                        if wt < wf {
                            CastOp::Trunc
                        } else if wt > wf {
                            CastOp::ZExt
                        } else {
                            CastOp::Bitcast
                        }
                    }
                };
                Inst::Cast { op, from, to, d: dd, a }
            }
            "alloca" => {
                let ty = self.ty();
                let mut n = {
                    let t = self.m.types.mk(Ty::Int(64));
                    self.kconst(t, Const::Int(1))
                };
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        self.adv();
                    } else if self.is_type_start() {
                        let t = self.ty();
                        n = self.val(t, fx);
                    } else {
                        break;
                    }
                }
                let size = self.m.types.layout(ty).size;
                Inst::Alloca { d: dd, size, n }
            }
            "load" => {
                self.skip_flags();
                let ty = self.ty();
                self.exp(',');
                let pt = self.ty();
                let p = self.val(pt, fx);
                Inst::Load { d: dd, ty, p }
            }
            "store" => {
                self.skip_flags();
                let ty = self.ty();
                let v = self.val(ty, fx);
                self.exp(',');
                let pt = self.ty();
                let p = self.val(pt, fx);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                self.skip_flags();
                let bt = self.ty();
                self.exp(',');
                let pt = self.ty();
                let vecgep = matches!(self.m.types.get(pt), Ty::Vector(..));
                let base = self.val(pt, fx);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.is_p(',') {
                    self.adv();
                    if !self.is_type_start() {
                        break; // metadata
                    }
                    let it = self.ty();
                    let o = self.val(it, fx);
                    let w = self.int_width(it);
                    let cv = match o {
                        Op::K(k) => match &self.m.consts[k as usize].1 {
                            Const::Int(v) => Some(sx(*v, w)),
                            Const::Zero => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        let sz = self.m.types.layout(cur).size as i64;
                        match cv {
                            Some(v) => off += v * sz,
                            None => idx.push((o, w, sz)),
                        }
                    } else {
                        match cv {
                            Some(v) => {
                                let (o, n) = self.step(cur, v);
                                off += o;
                                cur = n;
                            }
                            None => {
                                let (sz, n) = match self.m.types.get(cur).clone() {
                                    Ty::Arr(_, e) | Ty::Vector(_, e) => (self.m.types.layout(e).size as i64, e),
                                    x => self.fail(&format!("gep dyn {:?}", x)),
                                };
                                idx.push((o, w, sz));
                                cur = n;
                            }
                        }
                    }
                }
                if vecgep {
                    Inst::Unsupported("vector gep".into())
                } else {
                    Inst::Gep { d: dd, base, off, idx }
                }
            }
            "select" => {
                self.skip_flags();
                let ct = self.ty();
                let c = self.val(ct, fx);
                self.exp(',');
                let ty = self.ty();
                let a = self.val(ty, fx);
                self.exp(',');
                let ty2 = self.ty();
                let b = self.val(ty2, fx);
                let cvec = matches!(self.m.types.get(ct), Ty::Vector(..));
                Inst::Select { d: dd, ty, c, cvec, a, b }
            }
            "phi" => {
                self.skip_flags();
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.exp('[');
                    let v = self.val(ty, fx);
                    self.exp(',');
                    let b = match self.adv() {
                        Tok::Local(n) => fx.block(&n),
                        _ => self.fail("phi block"),
                    };
                    self.exp(']');
                    inc.push((v, b));
                    if !self.is_p(',') {
                        break;
                    }
                    self.adv();
                    if !self.is_p('[') {
                        break;
                    }
                }
                blk.phis.push((dd, inc));
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    self.word();
                }
                let is_invoke = op == "invoke";
                self.skip_flags();
                self.skip_fn_prefix();
                let rty = self.ty();
                self.skip_attrs();
                // optional explicit function type `(ptr, ...)`
                if self.is_p('(') {
                    let mut dep = 0;
                    loop {
                        match self.adv() {
                            Tok::P('(') => dep += 1,
                            Tok::P(')') => {
                                dep -= 1;
                                if dep == 0 {
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                let callee = match self.tok.clone() {
                    Tok::Glob(g) => {
                        self.adv();
                        Callee::Direct(g)
                    }
                    Tok::Local(n) => {
                        self.adv();
                        Callee::Ind(Op::R(fx.reg(&n)))
                    }
                    Tok::Word(w) if w == "asm" => {
                        blk.insts.push(Inst::Fence);
                        if let Some(_d) = d {
                            blk.insts.pop();
                            blk.insts.push(Inst::Unsupported("asm".into()));
                        }
                        self.to_nl();
                        return;
                    }
                    _ => {
                        let pt = self.m.types.mk(Ty::Ptr);
                        let c = self.cval(pt);
                        Callee::Ind(self.kconst(pt, c))
                    }
                };
                if let Callee::Direct(g) = &callee {
                    if g.starts_with("llvm.dbg.") || g.starts_with("llvm.experimental.noalias") {
                        self.to_nl();
                        return;
                    }
                }
                self.exp('(');
                let mut args = vec![];
                let mut atys = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty();
                        self.skip_attrs();
                        if matches!(self.m.types.get(t), Ty::Meta) {
                            self.to_nl();
                            return;
                        }
                        let v = self.val(t, fx);
                        args.push(v);
                        atys.push(t);
                        if self.eat_p(')') {
                            break;
                        }
                        self.exp(',');
                    }
                }
                let mut normal = None;
                if is_invoke {
                    while !self.is_w("to") {
                        self.adv();
                    }
                    self.adv();
                    normal = Some(self.label(fx));
                    while !self.is_w("unwind") {
                        self.adv();
                    }
                    self.adv();
                    let _ = self.label(fx);
                }
                Inst::Call { d, rty, callee, args, atys, normal }
            }
            "extractvalue" => {
                let aty = self.ty();
                let a = self.val(aty, fx);
                let mut path = vec![];
                while self.eat_p(',') {
                    if let Tok::Num(n) = &self.tok {
                        path.push(n.parse().unwrap());
                        self.adv();
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue { d: dd, a, path }
            }
            "insertvalue" => {
                let aty = self.ty();
                let a = self.val(aty, fx);
                self.exp(',');
                let vt = self.ty();
                let v = self.val(vt, fx);
                let mut path = vec![];
                while self.eat_p(',') {
                    if let Tok::Num(n) = &self.tok {
                        path.push(n.parse().unwrap());
                        self.adv();
                    } else {
                        break;
                    }
                }
                Inst::InsertValue { d: dd, aty, a, v, path }
            }
            "extractelement" => {
                let vt = self.ty();
                let a = self.val(vt, fx);
                self.exp(',');
                let it = self.ty();
                let i = self.val(it, fx);
                Inst::ExtractElem { d: dd, a, i }
            }
            "insertelement" => {
                let vty = self.ty();
                let a = self.val(vty, fx);
                self.exp(',');
                let et = self.ty();
                let v = self.val(et, fx);
                self.exp(',');
                let it = self.ty();
                let i = self.val(it, fx);
                Inst::InsertElem { d: dd, vty, a, v, i }
            }
            "shufflevector" => {
                let vty = self.ty();
                let a = self.val(vty, fx);
                self.exp(',');
                let t2 = self.ty();
                let b = self.val(t2, fx);
                self.exp(',');
                let mt = self.ty();
                let n = match *self.m.types.get(mt) {
                    Ty::Vector(n, _) => n,
                    _ => self.fail("mask"),
                };
                let mc = self.cval(mt);
                let mask = match mc {
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(i) => *i as i64,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    Const::Zero => vec![0; n as usize],
                    _ => vec![-1; n as usize],
                };
                Inst::Shuffle { d: dd, vty, a, b, mask }
            }
            "fence" => Inst::Fence,
            "atomicrmw" => {
                self.skip_flags();
                let o = self.word();
                let pt = self.ty();
                let p = self.val(pt, fx);
                self.exp(',');
                let ty = self.ty();
                let v = self.val(ty, fx);
                Inst::AtomicRmw { d: dd, op: o, ty, p, v }
            }
            "cmpxchg" => {
                self.skip_flags();
                let pt = self.ty();
                let p = self.val(pt, fx);
                self.exp(',');
                let ty = self.ty();
                let c = self.val(ty, fx);
                self.exp(',');
                let t2 = self.ty();
                let n = self.val(t2, fx);
                Inst::CmpXchg { d: dd, ty, p, c, n }
            }
            "freeze" => {
                let t = self.ty();
                let a = self.val(t, fx);
                Inst::Freeze { d: dd, a }
            }
            "ret" => {
                if self.eat_w("void") {
                    Inst::Ret { v: None }
                } else {
                    let t = self.ty();
                    let v = self.val(t, fx);
                    Inst::Ret { v: Some(v) }
                }
            }
            "br" => {
                if self.is_w("label") {
                    let t = self.label(fx);
                    Inst::Br { t }
                } else {
                    let ct = self.ty();
                    let c = self.val(ct, fx);
                    self.exp(',');
                    let t = self.label(fx);
                    self.exp(',');
                    let f = self.label(fx);
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let ty = self.ty();
                let w = self.int_width(ty);
                let v = self.val(ty, fx);
                self.exp(',');
                let def = self.label(fx);
                self.exp('[');
                let mut cases = vec![];
                loop {
                    while self.tok == Tok::Nl {
                        self.adv();
                    }
                    if self.eat_p(']') {
                        break;
                    }
                    let t = self.ty();
                    let c = match self.cval(t) {
                        Const::Int(i) => i,
                        Const::Zero => 0,
                        _ => self.fail("case"),
                    };
                    self.exp(',');
                    let l = self.label(fx);
                    cases.push((c & mask(w), l));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "unreachable" => Inst::Unreachable,
            x => {
                let x = x.to_string();
                self.to_nl();
                Inst::Unsupported(x)
            }
        };
        blk.insts.push(inst);
    }
    fn parse_global(&mut self, name: String) {
        self.exp('=');
        let mut external = false;
        let mut constant = false;
        loop {
            match &self.tok {
                Tok::Word(w) => match w.as_str() {
                    "external" | "extern_weak" => {
                        external = true;
                        self.adv();
                    }
                    "global" => {
                        self.adv();
                        break;
                    }
                    "constant" => {
                        constant = true;
                        self.adv();
                        break;
                    }
                    "alias" => {
                        self.adv();
                        let _t = self.ty();
                        self.exp(',');
                        let pt = self.ty();
                        let c = self.cval(pt);
                        self.m.aliases.push((name, c));
                        self.to_nl();
                        return;
                    }
                    "thread_local" => {
                        self.adv();
                        if self.eat_p('(') {
                            self.adv();
                            self.exp(')');
                        }
                    }
                    _ => {
                        self.adv();
                    }
                },
                _ => self.fail("global"),
            }
        }
        let ty = self.ty();
        let init = if external { None } else { Some(self.cval(ty)) };
        let mut align = 1;
        while self.tok != Tok::Nl && self.tok != Tok::Eof {
            if self.eat_w("align") {
                align = self.num_u64();
            } else {
                self.adv();
            }
        }
        self.m.globals.push(Global { name, ty, init, constant, align });
    }
    fn meta_line(&mut self, id: u32) {
        // raw line parse for the debug-info nodes we use
        let st = self.lx.i;
        let mut en = st;
        let s = self.lx.s;
        while en < s.len() && s[en] != b'\n' {
            en += 1;
        }
        let l = std::str::from_utf8(&s[st..en]).unwrap_or("");
        let field = |k: &str| -> Option<&str> {
            let p = l.find(k)? + k.len();
            let r = &l[p..];
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            Some(r[..e].trim())
        };
        let mref = |k: &str| field(k).and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse::<u32>().ok());
        if l.contains("!DILocation(") {
            if let (Some(line), Some(sc)) = (field("line: "), mref("scope: ")) {
                self.m.dilocs.insert(id, (line.parse().unwrap_or(0), sc));
            }
        } else if l.contains("!DIFile(") {
            if let Some(f) = field("filename: ") {
                self.m.files.insert(id, f.trim_matches('"').to_string());
            }
        } else if l.contains("!DISubprogram(") || l.contains("!DILexicalBlock") {
            if let Some(f) = mref("file: ") {
                self.m.difile.insert(id, f);
            }
            if let Some(f) = mref("scope: ") {
                self.m.discope.insert(id, f);
            }
        }
    }
    fn parse(&mut self) {
        self.adv();
        loop {
            match self.tok.clone() {
                Tok::Nl => {
                    self.adv();
                }
                Tok::Eof => break,
                Tok::Word(w) if w == "define" => {
                    self.adv();
                    self.parse_func(true);
                }
                Tok::Word(w) if w == "declare" => {
                    self.adv();
                    self.parse_func(false);
                }
                Tok::Word(_) => self.skip_line(),
                Tok::Local(n) => {
                    self.adv();
                    self.exp('=');
                    self.eat_w("type");
                    let t = self.ty();
                    self.m.types.named.insert(n, t);
                    self.to_nl();
                }
                Tok::Glob(g) => {
                    self.adv();
                    self.parse_global(g);
                }
                Tok::Meta(mm) => {
                    if let Ok(id) = mm[1..].parse::<u32>() {
                        self.meta_line(id);
                    }
                    self.lx.skip_line();
                    self.adv();
                }
                _ => self.skip_line(),
            }
        }
    }
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w == 0 || w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn binop(s: &str) -> Option<BinOp> {
    Some(match s {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        _ => return None,
    })
}

pub fn parse(text: &[u8]) -> Module {
    let m = Module {
        types: Types::default(),
        globals: vec![],
        aliases: vec![],
        funcs: vec![],
        consts: vec![],
        dilocs: HashMap::new(),
        difile: HashMap::new(),
        discope: HashMap::new(),
        files: HashMap::new(),
    };
    let mut p = Parser { lx: Lex { s: text, i: 0 }, tok: Tok::Nl, m, ckey: HashMap::new() };
    p.parse();
    p.m
}
