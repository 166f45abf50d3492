//! Parser context: handlers that write every event to the log.
use crate::rt::*;
use libc::{c_char, c_int, c_void};
pub use rexpat::expat_h::*;
pub use rexpat::lib::xmlparse::*;

pub const H_ELEM: u32 = 1;
pub const H_TEXT: u32 = 2;
pub const H_PI: u32 = 4;
pub const H_COMMENT: u32 = 8;
pub const H_CDATA: u32 = 16;
pub const H_DEFAULT: u32 = 32;
pub const H_DEFEXP: u32 = 64;
pub const H_DOCTYPE: u32 = 128;
pub const H_ENTITY: u32 = 256;
pub const H_NOTATION: u32 = 512;
pub const H_NS: u32 = 1024;
pub const H_ELDECL: u32 = 2048;
pub const H_ATTLIST: u32 = 4096;
pub const H_XMLDECL: u32 = 8192;
pub const H_SKIPPED: u32 = 16384;
pub const H_EXTERN: u32 = 32768;
pub const H_UNPARSED: u32 = 65536;
pub const H_NOTSTAND: u32 = 131072;
pub const H_UNKENC: u32 = 262144;

pub const H_CONTENT: u32 = H_ELEM | H_TEXT | H_PI | H_COMMENT | H_CDATA;
pub const H_DTD: u32 = H_DOCTYPE | H_ENTITY | H_NOTATION | H_ELDECL | H_ATTLIST | H_XMLDECL | H_SKIPPED;
pub const H_ALL: u32 = H_CONTENT | H_DTD;

#[repr(C)]
pub struct Ctx {
    pub log: *mut Log,
    pub p: XML_Parser,
    pub mask: u32,
    /// called after each event with its tag
    pub hook: Option<unsafe fn(&mut Ctx, u8)>,
    /// called before the event is logged
    pub ext: Option<unsafe fn(&mut Ctx, XML_Parser, *const XML_Char, *const XML_Char, *const XML_Char, *const XML_Char) -> c_int>,
    pub unk: Option<unsafe fn(&mut Ctx, *const XML_Char, *mut XML_Encoding) -> c_int>,
    pub merge: bool,
    pub quiet: bool,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub d: u64,
    pub stop_ev: usize,
    pub stop_tag: u8,
    pub depth: i64,
    pub notstand_ret: c_int,
    /// whether the context of an external entity is logged, or only that there is one
    pub noctx: bool,
    pub nested: [u32; 8],
    pub nnested: usize,
}

unsafe fn cx<'a>(u: *mut c_void) -> &'a mut Ctx {
    &mut *(u as *mut Ctx)
}

impl Ctx {
    pub unsafe fn new() -> *mut Ctx {
        let c = zalloc(std::mem::size_of::<Ctx>()) as *mut Ctx;
        (*c).log = Log::new();
        (*c).merge = true;
        (*c).notstand_ret = 1;
        c
    }
    pub unsafe fn l(&mut self) -> &mut Log {
        &mut *self.log
    }
    unsafe fn done(&mut self, t: u8) {
        if let Some(h) = self.hook {
            h(self, t)
        }
    }
}

unsafe extern "C" fn start_el(u: *mut c_void, n: *const XML_Char, a: *mut *const XML_Char) {
    let c = cx(u);
    c.depth += 1;
    c.l().tag(b'S');
    c.l().str0(n);
    let mut i = 0;
    while !(*a.offset(i)).is_null() {
        c.l().str0(*a.offset(i));
        c.l().str0(*a.offset(i + 1));
        i += 2;
    }
    c.done(b'S');
}
unsafe extern "C" fn end_el(u: *mut c_void, n: *const XML_Char) {
    let c = cx(u);
    c.depth -= 1;
    c.l().tag(b'E');
    c.l().str0(n);
    c.done(b'E');
}
unsafe extern "C" fn text(u: *mut c_void, s: *const XML_Char, n: c_int) {
    let c = cx(u);
    if !(c.merge && c.l().last == b'T') {
        c.l().tag(b'T');
    }
    c.l().strn(s, n);
    c.done(b'T');
}
unsafe extern "C" fn pi(u: *mut c_void, t: *const XML_Char, d: *const XML_Char) {
    let c = cx(u);
    c.l().tag(b'P');
    c.l().str0(t);
    c.l().str0(d);
    c.done(b'P');
}
unsafe extern "C" fn comment(u: *mut c_void, d: *const XML_Char) {
    let c = cx(u);
    c.l().tag(b'C');
    c.l().str0(d);
    c.done(b'C');
}
unsafe extern "C" fn cd_start(u: *mut c_void) {
    let c = cx(u);
    c.l().tag(b'[');
    c.done(b'[');
}
unsafe extern "C" fn cd_end(u: *mut c_void) {
    let c = cx(u);
    c.l().tag(b']');
    c.done(b']');
}
unsafe extern "C" fn default(u: *mut c_void, s: *const XML_Char, n: c_int) {
    let c = cx(u);
    if !(c.merge && c.l().last == b'D') {
        c.l().tag(b'D');
    }
    c.l().strn(s, n);
    c.done(b'D');
}
unsafe extern "C" fn start_dt(u: *mut c_void, n: *const XML_Char, s: *const XML_Char, p: *const XML_Char, i: c_int) {
    let c = cx(u);
    c.l().tag(b'd');
    c.l().str0(n);
    c.l().str0(s);
    c.l().str0(p);
    c.l().int((i != 0) as u64);
    c.done(b'd');
}
unsafe extern "C" fn end_dt(u: *mut c_void) {
    let c = cx(u);
    c.l().tag(b'e');
    c.done(b'e');
}
unsafe extern "C" fn entity(
    u: *mut c_void,
    n: *const XML_Char,
    pe: c_int,
    v: *const XML_Char,
    vl: c_int,
    base: *const XML_Char,
    s: *const XML_Char,
    p: *const XML_Char,
    nn: *const XML_Char,
) {
    let c = cx(u);
    c.l().tag(b'L');
    c.l().str0(n);
    c.l().int(pe as u64);
    if v.is_null() {
        c.l().put(0, K_NULL);
    } else {
        c.l().strn(v, vl);
        c.l().end();
    }
    c.l().str0(base);
    c.l().str0(s);
    c.l().str0(p);
    c.l().str0(nn);
    c.done(b'L');
}
unsafe extern "C" fn unparsed(u: *mut c_void, n: *const XML_Char, b: *const XML_Char, s: *const XML_Char, p: *const XML_Char, nn: *const XML_Char) {
    let c = cx(u);
    c.l().tag(b'U');
    c.l().str0(n);
    c.l().str0(b);
    c.l().str0(s);
    c.l().str0(p);
    c.l().str0(nn);
    c.done(b'U');
}
unsafe extern "C" fn notation(u: *mut c_void, n: *const XML_Char, b: *const XML_Char, s: *const XML_Char, p: *const XML_Char) {
    let c = cx(u);
    c.l().tag(b'O');
    c.l().str0(n);
    c.l().str0(b);
    c.l().str0(s);
    c.l().str0(p);
    c.done(b'O');
}
unsafe extern "C" fn ns_start(u: *mut c_void, p: *const XML_Char, uri: *const XML_Char) {
    let c = cx(u);
    c.l().tag(b'N');
    c.l().str0(p);
    c.l().str0(uri);
    c.done(b'N');
}
unsafe extern "C" fn ns_end(u: *mut c_void, p: *const XML_Char) {
    let c = cx(u);
    c.l().tag(b'n');
    c.l().str0(p);
    c.done(b'n');
}
pub unsafe fn log_model(l: &mut Log, m: *const XML_Content) {
    l.int((*m).type_0 as u32 as u64);
    l.int((*m).quant as u32 as u64);
    l.str0((*m).name);
    l.int((*m).numchildren as u64);
    let mut i = 0;
    while i < (*m).numchildren as isize {
        log_model(l, (*m).children.offset(i));
        i += 1;
    }
}
unsafe extern "C" fn eldecl(u: *mut c_void, n: *const XML_Char, m: *mut XML_Content) {
    let c = cx(u);
    c.l().tag(b'M');
    c.l().str0(n);
    log_model(c.l(), m);
    XML_FreeContentModel(c.p, m);
    c.done(b'M');
}
unsafe extern "C" fn attlist(u: *mut c_void, e: *const XML_Char, n: *const XML_Char, t: *const XML_Char, d: *const XML_Char, r: c_int) {
    let c = cx(u);
    c.l().tag(b'A');
    c.l().str0(e);
    c.l().str0(n);
    c.l().str0(t);
    c.l().str0(d);
    c.l().int(r as u64);
    c.done(b'A');
}
unsafe extern "C" fn xmldecl(u: *mut c_void, v: *const XML_Char, e: *const XML_Char, s: c_int) {
    let c = cx(u);
    c.l().tag(b'X');
    c.l().str0(v);
    c.l().str0(e);
    c.l().int(s as i64 as u64);
    c.done(b'X');
}
unsafe extern "C" fn skipped(u: *mut c_void, n: *const XML_Char, pe: c_int) {
    let c = cx(u);
    c.l().tag(b'K');
    c.l().str0(n);
    c.l().int(pe as u64);
    c.done(b'K');
}
unsafe extern "C" fn notstand(u: *mut c_void) -> c_int {
    let c = cx(u);
    c.l().tag(b'Q');
    c.done(b'Q');
    c.notstand_ret
}
unsafe extern "C" fn extern_ref(p: XML_Parser, ctx: *const XML_Char, base: *const XML_Char, sys: *const XML_Char, pubid: *const XML_Char) -> c_int {
    let c = cx(XML_GetUserData_(p));
    c.l().tag(b'R');
    if c.noctx {
        c.l().int(!ctx.is_null() as u64);
    } else {
        c.l().str0(ctx);
    }
    c.l().str0(base);
    c.l().str0(sys);
    c.l().str0(pubid);
    match c.ext {
        Some(f) => {
            let r = f(c, p, ctx, base, sys, pubid);
            c.done(b'R');
            r
        }
        None => {
            c.done(b'R');
            1
        }
    }
}
/// XML_GetUserData is a macro in C: the user data is the first field of the parser
pub unsafe fn XML_GetUserData_(p: XML_Parser) -> *mut c_void {
    *(p as *const *mut c_void)
}
unsafe extern "C" fn unkenc(d: *mut c_void, n: *const XML_Char, info: *mut XML_Encoding) -> c_int {
    let c = cx(d);
    c.l().tag(b'V');
    c.l().str0(n);
    match c.unk {
        Some(f) => f(c, n, info),
        None => 0,
    }
}

pub unsafe fn set_handlers(p: XML_Parser, c: *mut Ctx, m: u32) {
    XML_SetUserData(p, c as *mut c_void);
    (*c).p = p;
    (*c).mask = m;
    if m & H_ELEM != 0 {
        XML_SetElementHandler(p, Some(start_el), Some(end_el));
    }
    if m & H_TEXT != 0 {
        XML_SetCharacterDataHandler(p, Some(text));
    }
    if m & H_PI != 0 {
        XML_SetProcessingInstructionHandler(p, Some(pi));
    }
    if m & H_COMMENT != 0 {
        XML_SetCommentHandler(p, Some(comment));
    }
    if m & H_CDATA != 0 {
        XML_SetCdataSectionHandler(p, Some(cd_start), Some(cd_end));
    }
    if m & H_DEFAULT != 0 {
        XML_SetDefaultHandler(p, Some(default));
    }
    if m & H_DEFEXP != 0 {
        XML_SetDefaultHandlerExpand(p, Some(default));
    }
    if m & H_DOCTYPE != 0 {
        XML_SetDoctypeDeclHandler(p, Some(start_dt), Some(end_dt));
    }
    if m & H_ENTITY != 0 {
        XML_SetEntityDeclHandler(p, Some(entity));
    }
    if m & H_UNPARSED != 0 {
        XML_SetUnparsedEntityDeclHandler(p, Some(unparsed));
    }
    if m & H_NOTATION != 0 {
        XML_SetNotationDeclHandler(p, Some(notation));
    }
    if m & H_NS != 0 {
        XML_SetNamespaceDeclHandler(p, Some(ns_start), Some(ns_end));
    }
    if m & H_ELDECL != 0 {
        XML_SetElementDeclHandler(p, Some(eldecl));
    }
    if m & H_ATTLIST != 0 {
        XML_SetAttlistDeclHandler(p, Some(attlist));
    }
    if m & H_XMLDECL != 0 {
        XML_SetXmlDeclHandler(p, Some(xmldecl));
    }
    if m & H_SKIPPED != 0 {
        XML_SetSkippedEntityHandler(p, Some(skipped));
    }
    if m & H_EXTERN != 0 {
        XML_SetExternalEntityRefHandler(p, Some(extern_ref));
    }
    if m & H_NOTSTAND != 0 {
        XML_SetNotStandaloneHandler(p, Some(notstand));
    }
    if m & H_UNKENC != 0 {
        XML_SetUnknownEncodingHandler(p, Some(unkenc), c as *mut c_void);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Res {
    pub st: u32,
    pub err: u32,
    pub idx: i64,
    pub line: u64,
    pub col: u64,
}

pub unsafe fn res(p: XML_Parser, st: XML_Status) -> Res {
    Res {
        st: st as u32,
        err: XML_GetErrorCode(p),
        idx: XML_GetCurrentByteIndex(p) as i64,
        line: XML_GetCurrentLineNumber(p) as u64,
        col: XML_GetCurrentColumnNumber(p) as u64,
    }
}

pub const UTF8: &[u8] = b"UTF-8\0";

/// encoding name in the parser's character width
pub unsafe fn ename(s: &[u8]) -> *const XML_Char {
    let p = zalloc((s.len() + 1) * std::mem::size_of::<XML_Char>()) as *mut XML_Char;
    for (i, &b) in s.iter().enumerate() {
        *p.add(i) = b as XML_Char;
    }
    p
}

pub unsafe fn create(ns: bool, sep: u8) -> XML_Parser {
    let p = if ns {
        XML_ParserCreateNS(std::ptr::null(), sep as XML_Char)
    } else {
        XML_ParserCreate(std::ptr::null())
    };
    if p.is_null() {
        fail!("parser creation failed");
    }
    p
}

pub fn pe_mode(v: u32) -> XML_ParamEntityParsing {
    match v {
        0 => XML_ParamEntityParsing::NEVER,
        1 => XML_ParamEntityParsing::UNLESS_STANDALONE,
        _ => XML_ParamEntityParsing::ALWAYS,
    }
}

pub unsafe fn parse_all(p: XML_Parser, d: &Doc) -> Res {
    let b = d.exact(0, d.n);
    let s = XML_Parse(p, b, d.n as c_int, 1);
    let r = res(p, s);
    libc::free(b as *mut c_void);
    r
}

/// two XML_Parse calls; each chunk lives in its own exact-size block freed right after the call
pub unsafe fn parse_split(p: XML_Parser, d: &Doc, k: usize) -> Res {
    let b = d.exact(0, k);
    let s = XML_Parse(p, b, k as c_int, 0);
    let r = res(p, s);
    libc::free(b as *mut c_void);
    if s != XML_Status::OK {
        return r;
    }
    let b = d.exact(k, d.n);
    let s = XML_Parse(p, b, (d.n - k) as c_int, 1);
    let r = res(p, s);
    libc::free(b as *mut c_void);
    r
}

pub unsafe fn feed_buffer(p: XML_Parser, d: &Doc, from: usize, to: usize, fin: bool) -> XML_Status {
    let n = to - from;
    let q = XML_GetBuffer(p, n as c_int);
    if q.is_null() {
        return XML_Status::ERROR;
    }
    libc::memcpy(q, d.b.add(from) as *const c_void, n);
    XML_ParseBuffer(p, n as c_int, fin as c_int)
}

/// what was asked for last by feed_move
pub static mut ASKED: usize = 0;
/// through XML_GetBuffer, asking for so much that what is kept moves to a new place
pub unsafe fn feed_move(p: XML_Parser, d: &Doc, from: usize, to: usize, fin: bool) -> XML_Status {
    let n = to - from;
    ASKED = if ASKED == 0 { 1500 } else { ASKED * 2 };
    let q = XML_GetBuffer(p, ASKED as c_int);
    if q.is_null() {
        return XML_Status::ERROR;
    }
    libc::memcpy(q, d.b.add(from) as *const c_void, n);
    XML_ParseBuffer(p, n as c_int, fin as c_int)
}

#[allow(unused)]
pub type CStr = *const c_char;
