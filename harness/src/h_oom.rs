//! Allocation failures.
use crate::ctx::*;
use crate::env::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;
use libc::c_int;

unsafe fn ext(c: &mut Ctx, p: XML_Parser, x: *const XML_Char, _b: *const XML_Char, _s: *const XML_Char, _q: *const XML_Char) -> c_int {
    let ch = XML_ExternalEntityParserCreate(p.as_ref(), x, std::ptr::null());
    if ch.is_null() {
        return 0;
    }
    let keep = c.p;
    c.p = ch;
    let t: &[u8] = if x.is_null() { b"<!ENTITY z 'Z'><!ATTLIST a zz CDATA 'z'>" } else { b"<q r='1'/>" };
    let s = XML_Parse(ch, t.as_ptr() as *const _, t.len() as c_int, 1);
    c.p = keep;
    XML_ParserFree(ch);
    (s == XML_Status::OK) as c_int
}

/// c.a = length of the log after the last event that is not the end of a namespace scope: a start tag
/// that fails takes back the declarations it has made
unsafe fn mark(c: &mut Ctx, t: u8) {
    if t != b'n' {
        c.a = (*c.log).n as u64;
    }
}

unsafe fn setup_o(p: XML_Parser, c: *mut Ctx, f: u64) {
    (*c).hook = Some(mark);
    setup(p, c, f, H_ALL | H_EXTERN | H_NS);
    (*c).ext = Some(ext);
}

/// p0 template, p1 free bytes, p2 flags, p3: 0 only that allocation fails, 1 that and all later ones,
/// p4: highest ordinal, p5: 0 whole, 1 cut in the middle, 2 GetBuffer
#[no_mangle]
pub unsafe extern "C" fn h_oom() {
    let f = param(2);
    let d = tpl::doc(param(0), param(1));
    let half = if param(5) == 0 { d.n } else { d.n / 2 };
    // without failures
    let c1 = Ctx::new();
    arm_failure(0, false);
    let p1 = if f & F_NS != 0 { XML_ParserCreateNS(std::ptr::null(), b'|' as XML_Char) } else { XML_ParserCreate(std::ptr::null()) };
    setup_o(p1, c1, f);
    let s = run(p1, &d, half);
    let r1 = res(p1, s);
    XML_ParserFree(p1);
    let total = ALLOCS;
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    // with one
    let k = 1 + choice(param(4) as usize);
    if k > total {
        return;
    }
    let c2 = Ctx::new();
    arm_failure(k, param(3) == 1);
    let p2 = if f & F_NS != 0 { XML_ParserCreateNS(std::ptr::null(), b'|' as XML_Char) } else { XML_ParserCreate(std::ptr::null()) };
    if p2.is_null() {
        reach!("no parser");
        arm_failure(0, false);
        check!(LIVE == 0, "a parser that could not be created leaks memory");
        return;
    }
    setup_o(p2, c2, f);
    let s = run(p2, &d, half);
    let r2 = res(p2, s);
    arm_failure(0, false);
    XML_ParserFree(p2);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    let (l1, l2) = (&*(*c1).log, &*(*c2).log);
    l2.note();
    if r2.st == 1 {
        reach!("survived");
        check!(r1.st == 1 && l1.same(l2), "an allocation failure was swallowed and changed the events");
    } else if r2.err == 1 || r2.err == 21 {
        reach!("no memory");
        let n = (*c2).a as usize;
        check!(n <= l1.n && bytes_eq(l1.kind, l2.kind, n) && bytes_eq(l1.buf, l2.buf, n), "events before the failure are not a prefix of the document's events");
    } else {
        check!(r1.st == 0 && r1.err == r2.err, "an allocation failure is reported as another error");
    }
}

unsafe fn run(p: XML_Parser, d: &Doc, half: usize) -> XML_Status {
    if param(5) == 2 {
        let s = feed_buffer(p, d, 0, half, false);
        if s != XML_Status::OK {
            return s;
        }
        return feed_buffer(p, d, half, d.n, true);
    }
    if half < d.n {
        let s = feed(p, d, 0, half, false);
        if s != XML_Status::OK {
            return s;
        }
    }
    feed(p, d, if half < d.n { half } else { 0 }, d.n, true)
}
