//! Chunking invariance.
use crate::ctx::*;
use crate::env::*;
use crate::rt::*;
use crate::tpl;

/// the encoding of a document that starts with X NUL or NUL X is a guess from the first two bytes
pub fn guessed(d: &Doc) -> bool {
    d.n >= 2 && (d.at(0) == 0 || d.at(1) == 0)
}

pub unsafe fn compare_runs(r1: &Res, l1: &Log, r2: &Res, l2: &Log, guess: bool) {
    if r1.st == 1 {
        reach!("accepted");
    } else {
        reach!("rejected");
    }
    check!(r1.st == r2.st, "verdict depends on how the document was fed");
    if guess && r1.st != 1 {
        return;
    }
    check!(same_code(r1.err, r2.err), "error code depends on how the document was fed");
    if r1.st == 1 {
        check!(l1.same(l2), "events depend on how the document was fed");
    } else {
        check!(l1.same_upto_text(l2), "events before the error depend on how the document was fed");
    }
    if r1.st != 1 && r1.err == r2.err {
        check!(r1.idx == r2.idx, "final byte index depends on how the document was fed");
        check!(r1.line == r2.line && r1.col == r2.col, "final line and column depend on how the document was fed");
    }
}

/// p0 template, p1 free units, p2 flags, p3 mask, p4 mode, p5 encoding (0 = UTF-8, 3/4 = UTF-16 with BOM)
#[no_mangle]
pub unsafe extern "C" fn h_split() {
    let f = param(2);
    let mask = mask_of(param(3));
    let t = tpl::T[param(0) as usize].1;
    let k = param(5);
    let pr = pair(t, param(1) as usize, if k == 0 { K_UTF8 } else { k }, k == K_16LE || k == K_16BE);
    let d = pr.enc;
    let (p1, c1) = parser(f, mask);
    (*c1).hook = Some(pos_hook);
    let s = feed(p1, &d, 0, d.n, true);
    let r1 = res(p1, s);
    XML_ParserFree(p1);
    (*(*c1).log).note();
    let (p2, c2) = parser(f, mask);
    (*c2).hook = Some(pos_hook);
    let r2 = feed_mode(p2, &d, param(4));
    XML_ParserFree(p2);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    compare_runs(&r1, &*(*c1).log, &r2, &*(*c2).log, k == 0 && guessed(&d));
}
