//! Whole documents with free bytes anywhere.
use crate::ctx::*;
use crate::env::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;

/// the template (holes empty) in encoding k with some of its bytes free: op 0 one byte replaced, 1 one byte inserted,
/// 2 two neighbouring bytes replaced, 3 cut off anywhere with one free byte at the end, 4 two neighbouring bytes exchanged for one
pub unsafe fn mutated(t: &[u8], op: u64, k: u64) -> Doc {
    let pr = pair(t, 0, if k == 0 { K_UTF8 } else { k }, k == K_16LE || k == K_16BE);
    change(pr.enc, op)
}
pub unsafe fn mutate(t: &[u8], op: u64) -> Doc {
    mutated(t, op, 0)
}
pub unsafe fn change(s: Doc, op: u64) -> Doc {
    let mut d = Doc::new(s.n + 2);
    if s.n == 0 && op != 1 && op != 3 {
        return d;
    }
    let at = choice(s.n + (op == 1 || op == 3) as usize);
    let mut i = 0;
    while i < at {
        d.push(s.at(i));
        i += 1;
    }
    d.sym();
    let skip = match op {
        0 => 1,
        1 => 0,
        2 => {
            d.sym();
            2
        }
        3 => return d,
        _ => 2,
    };
    i += skip;
    while i < s.n {
        d.push(s.at(i));
        i += 1;
    }
    d
}

/// against the reference parser: p0 template, p1 op, p2 flags, p3 handlers
#[no_mangle]
pub unsafe extern "C" fn h_mut() {
    CAP = 8192;
    let d = mutated(tpl::T[param(0) as usize].1, param(1), 0);
    let f = param(2);
    let mask = mask_of(param(3));
    let (p, c) = parser(f, mask);
    let r = parse_all(p, &d);
    XML_ParserFree(p);
    (*(*c).log).note();
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    let mut o = oracle(f, mask);
    let e = o.document(Sl { p: d.b, n: d.n });
    compare(&mut o, e, &r, &*(*c).log);
}
