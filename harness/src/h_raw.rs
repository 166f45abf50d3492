//! Any bytes at all: nothing is read or written out of bounds (the executor's own checks), the parser
//! comes back with a status, and what it allocated is released.
use crate::ctx::*;
use crate::dtd::ext_index;
use crate::env::*;
use crate::h_ext::X;
use crate::h_mut::change;
use crate::rt::*;
use crate::tpl;
use libc::{c_char, c_int, c_void};

/// p2: the flags of env.rs and
pub const R_NOEXPAND: u64 = 256; // the default handler that does not expand internal entities
pub const R_BARE: u64 = 512; // no handlers but that for external entities
pub const R_CUR: u64 = 1024; // XML_DefaultCurrent inside every handler
pub const R_FOREIGN: u64 = 2048;

/// p3
const ENCS: [&[u8]; 8] = [b"", b"", b"", b"iso-8859-1\0", b"us-ascii\0", b"utf-16le\0", b"utf-16\0", b"x-map\0"];
fn wide(k: u64) -> bool {
    k == 1 || k == 2 || k == 5 || k == 6
}

static mut TXT: [*mut Doc; 4] = [std::ptr::null_mut(); 4];
static mut TOTAL: usize = 0;
static mut RELEASED: usize = 0;
static mut TAKEN: usize = 0;
static mut FEED: u64 = 0;
static mut ENC: u64 = 0;
static mut DEPTH: usize = 0;
static mut CUR: bool = false;

unsafe fn push(d: &mut Doc, k: u64, c: u8) {
    match k {
        1 | 5 => {
            d.push(c);
            d.push(0);
        }
        2 | 6 => {
            d.push(0);
            d.push(c);
        }
        _ => d.push(c),
    }
}

unsafe fn make(t: &[u8], n: usize, k: u64, op: u64, fill: usize) -> *mut Doc {
    let r = zalloc(std::mem::size_of::<Doc>()) as *mut Doc;
    let mut d = Doc::new(2 * t.len() + 4 * n + 2 * fill + 40);
    if k == 1 {
        d.lit(&[0xff, 0xfe]);
    } else if k == 2 {
        d.lit(&[0xfe, 0xff]);
    }
    let mut first = true;
    for &c in t {
        if c != 1 {
            push(&mut d, k, c);
            continue;
        }
        if first && fill != 0 {
            let m = fill + choice(6);
            let mut i = 0;
            while i < m {
                push(&mut d, k, b'a');
                i += 1;
            }
        }
        first = false;
        let mut i = 0;
        while i < n && op == 0 {
            d.sym();
            i += 1;
        }
    }
    std::ptr::write(r, if op == 0 { d } else { change(d, op - 1) });
    r
}

unsafe extern "C" fn release(_d: *mut c_void) {
    RELEASED += 1;
}
unsafe extern "C" fn convert(_d: *mut c_void, s: *const c_char) -> c_int {
    match *s.add(1) as u8 {
        b'a' => -1,
        b'b' => 0xd800,
        b'c' => 0x20ac,
        b'd' => 0xfffe,
        c => c as c_int,
    }
}
unsafe fn unknown(_c: &mut Ctx, _n: *const XML_Char, info: *mut XML_Encoding) -> c_int {
    let mut i = 0;
    while i < 256 {
        (*info).map[i] = match i {
            0..=0x7f => i as c_int,
            0xf6 => -2,
            0xf7 => -3,
            0xf8 => -4,
            0xf9 => -1,
            0xa5 => 0x416,
            _ => i as c_int,
        };
        i += 1;
    }
    (*info).convert = Some(convert);
    (*info).release = Some(release);
    TAKEN += 1;
    1
}

unsafe fn hook(c: &mut Ctx, t: u8) {
    let p = c.p;
    let i = XML_GetCurrentByteIndex(p) as i64;
    check!(i >= -1 && i <= TOTAL as i64, "byte index outside the document");
    check!(XML_GetCurrentByteCount(p) >= 0, "negative byte count");
    let l = XML_GetCurrentLineNumber(p) as i64;
    let k = XML_GetCurrentColumnNumber(p) as i64;
    check!(l >= 1 && l <= TOTAL as i64 + 1 && k >= 0 && k <= TOTAL as i64 + 1, "line or column outside the document");
    let (mut off, mut len): (c_int, c_int) = (0, 0);
    let b = XML_GetInputContext(p, &mut off, &mut len);
    if !b.is_null() {
        check!(off >= 0 && len >= 0 && off <= len, "input context outside its buffer");
        if len > 0 {
            c.l().int(*b as u64 ^ *b.offset(len as isize - 1) as u64);
        }
    }
    let n = XML_GetSpecifiedAttributeCount(p);
    check!(n >= 0, "negative number of attributes");
    c.l().int(n as u64);
    c.l().int(XML_GetIdAttributeIndex(p) as u64);
    if CUR && t != b'D' {
        XML_DefaultCurrent(p);
    }
}

unsafe fn drive(p: XML_Parser, d: &Doc, f: u64) -> Res {
    match f {
        0 => parse_all(p, d),
        // given up anywhere
        20 => {
            let k = choice(d.n + 1);
            let s = feed(p, d, 0, k, false);
            res(p, s)
        }
        21 => {
            let k = choice(d.n + 1);
            let mut s = feed_buffer(p, d, 0, k, false);
            if s == XML_Status::OK {
                let q = XML_GetBuffer(p, 7);
                if q.is_null() {
                    s = XML_Status::ERROR;
                }
            }
            res(p, s)
        }
        _ => feed_mode(p, d, f - 1),
    }
}

unsafe fn status_ok(r: &Res) {
    check!(r.st <= 1, "neither success nor failure");
    check!((r.st == 1) == (r.err == 0), "status and error code contradict each other");
    check!(r.err <= 43, "no such error code");
    if r.err != 0 {
        check!(!XML_ErrorString(std::mem::transmute(r.err)).is_null(), "no message for an error code");
    }
}

unsafe fn reader(c: &mut Ctx, p: XML_Parser, ctx: *const XML_Char, _b: *const XML_Char, sys: *const XML_Char, _pub: *const XML_Char) -> c_int {
    if DEPTH == 4 {
        return 0;
    }
    let e = if ENC == 0 || ENC == 1 || ENC == 2 { std::ptr::null() } else { ename(ENCS[ENC as usize]) };
    let q = XML_ExternalEntityParserCreate(Some(&mut *p), ctx, e);
    if q.is_null() {
        fail!("no parser for an external entity");
        return 0;
    }
    DEPTH += 1;
    let (top, total) = (c.p, TOTAL);
    c.p = q;
    let d = &*TXT[ext_index(if sys.is_null() { 0 } else { *sys as u8 })];
    TOTAL = d.n;
    let r = drive(q, d, FEED);
    status_ok(&r);
    XML_ParserFree(q);
    c.p = top;
    TOTAL = total;
    DEPTH -= 1;
    r.st as c_int
}

/// p0 template, or 1000 + index of the texts in h_ext.rs; p1 free bytes per hole; p2 flags; p3 encoding;
/// p4 how everything is fed (0 whole, 1 + mode of feed_mode, 20 and 21 given up); p5 0 or 1 + op of h_mut; p6 which text it changes; p7 filling
#[no_mangle]
pub unsafe extern "C" fn h_raw() {
    CAP = if param(7) == 0 { 6000 } else { 60000 };
    let n = param(1) as usize;
    let f = param(2);
    ENC = param(3);
    FEED = param(4);
    let op = |k: u64| if param(6) == k { param(5) } else { 0 };
    let holes = if param(5) == 0 { n } else { 0 };
    let doc;
    if param(0) < 1000 {
        doc = make(tpl::T[param(0) as usize].1, holes, ENC, op(4), param(7) as usize);
        TXT = [doc; 4];
    } else {
        let x = &X[param(0) as usize - 1000];
        doc = make(x.1, holes, ENC, op(4), 0);
        let mut i = 0;
        while i < 4 {
            TXT[i] = make(x.2[i], holes, ENC, op(i as u64), if i == 0 { param(7) as usize } else { 0 });
            i += 1;
        }
    }
    TOTAL = (*doc).n;
    CUR = f & R_CUR != 0;
    let mut mask = H_EXTERN | H_UNKENC;
    if f & R_BARE == 0 {
        mask |= H_ALL | H_NS | H_NOTSTAND;
        mask |= if f & R_NOEXPAND != 0 { H_DEFAULT } else { H_DEFEXP };
    }
    let live = LIVE;
    let name = if ENCS[ENC as usize].len() == 0 { std::ptr::null() } else { ename(ENCS[ENC as usize]) };
    let (p, c) = parser_enc(f, mask, name);
    (*c).ext = Some(reader);
    (*c).unk = Some(unknown);
    (*c).hook = Some(hook);
    (*c).merge = false;
    if f & R_FOREIGN != 0 {
        XML_UseForeignDTD(p, true);
    }
    let r = drive(p, &*doc, FEED);
    status_ok(&r);
    check!(r.idx >= -1 && r.idx <= TOTAL as i64, "byte index outside the document");
    let events = (*(*c).log).events;
    if r.st == 1 {
        reach!("accepted");
    } else {
        reach!("rejected");
        // nothing more is parsed
        let s = feed(p, &*doc, 0, (*doc).n, true);
        check!(s == XML_Status::ERROR, "parsing goes on behind an error");
        check!((*(*c).log).events == events, "events behind an error");
    }
    if r.st == 1 && FEED < 20 {
        check!((*c).depth == 0, "elements left open in an accepted document");
    }
    XML_ParserFree(p);
    check!(LIVE == live, "memory still allocated after the parser was freed");
    check!(RELEASED == TAKEN, "an encoding's data was not released exactly once");
}
