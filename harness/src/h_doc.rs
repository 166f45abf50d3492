//! Whole documents against the reference parser.
use crate::ctx::*;
use crate::env::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;

/// p0 template, p1 free bytes, p2 flags, p3 handler mask (0 = all)
#[no_mangle]
pub unsafe extern "C" fn h_doc() {
    let mut d = tpl::doc(param(0), param(1));
    let f = param(2);
    let mask = mask_of(param(3));
    let (p, c) = parser(f, mask);
    let r = parse_all(p, &d);
    XML_ParserFree(p);
    (*(*c).log).note();
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    let mut o = oracle(f, mask);
    let e = o.document(Sl { p: d.b, n: d.n });
    compare(&mut o, e, &r, &*(*c).log);
    d.free();
}

pub const BITS: [u32; 13] = [
    H_ELEM, H_TEXT, H_PI, H_COMMENT, H_CDATA, H_DOCTYPE, H_ENTITY, H_NOTATION, H_ELDECL, H_ATTLIST, H_XMLDECL, H_SKIPPED, H_UNPARSED,
];

/// any one handler alone, or all but one: p0 template, p1 free bytes, p2 flags
#[no_mangle]
pub unsafe extern "C" fn h_mask() {
    let mut d = tpl::doc(param(0), param(1));
    let f = param(2);
    let b = BITS[choice(BITS.len())];
    let mask = if flip() { b } else { (H_ALL | H_UNPARSED) & !b };
    let (p, c) = parser(f, mask);
    let r = parse_all(p, &d);
    XML_ParserFree(p);
    (*(*c).log).note();
    let mut o = oracle(f, mask);
    let e = o.document(Sl { p: d.b, n: d.n });
    compare(&mut o, e, &r, &*(*c).log);
    d.free();
}
