//! The same document in different encodings.
use crate::ctx::*;
use crate::oracle::*;
use crate::env::*;
use crate::rt::*;
use crate::tpl;

/// line and column of every event that is not character data; a byte order mark counts as a column
pub unsafe fn lc_hook(c: &mut Ctx, t: u8) {
    if t == b'T' || t == b'D' || t == b'X' {
        return;
    }
    let line = XML_GetCurrentLineNumber(c.p) as u64;
    let col = XML_GetCurrentColumnNumber(c.p) as u64;
    let adj = if line == 1 { c.a } else { 0 };
    let l = &mut *c.log;
    l.int(line);
    l.int(col - adj);
}

pub unsafe fn no_elements(l: &Log) -> bool {
    let mut i = 0;
    while i < l.n {
        if *l.kind.add(i) == K_TAG && *l.buf.add(i) == b'S' {
            return false;
        }
        i += 1;
    }
    true
}

/// p0 template, p1 free units per hole, p2 flags, p3 mask, p4 how the encoding is made known, p5 encoding, p6 split
/// p4: 0 byte order mark, 1 recognised from the first bytes, 2 parser creation, 3 XML_SetEncoding, 4 XML declaration,
///     5 parser creation with the generic name "UTF-16", 6 byte order mark and declaration,
///     7 the name given from outside overrides the declaration
#[no_mangle]
pub unsafe extern "C" fn h_enc() {
    let f = param(2);
    let mask = if param(3) == 0 { H_ALL & !H_XMLDECL } else { param(3) as u32 };
    let how = param(4);
    let k = param(5);
    let t = tpl::T[param(0) as usize].1;
    let mut pr = Pair { enc: Doc::new(2048), u8: Doc::new(2048), bad: false };
    let bom = how == 0 || how == 6 || how == 5 && flip();
    let decl: &[u8] = match (how, k) {
        (4, K_LATIN1) => b"<?xml version='1.0' encoding='ISO-8859-1'?>\n",
        (4, K_ASCII) => b"<?xml version='1.0' encoding='us-ascii'?>\n",
        (4, K_UTF8) => b"<?xml version='1.0' encoding='Utf-8'?>\n",
        (6, K_UTF8) => b"<?xml version='1.0' encoding='UTF-8'?>\n",
        (6, K_16BE) => b"<?xml version='1.0' encoding='UTF-16BE'?>\n",
        (6, _) | (4, _) => b"<?xml version='1.0' encoding='utf-16'?>\n",
        (7, _) => b"<?xml version='1.0' encoding='iso-8859-1'?>\n",
        _ => b"",
    };
    add(&mut pr, decl, 0, k, bom);
    add(&mut pr, t, param(1) as usize, k, false);
    let bad = pr.bad;
    if bom && pr.u8.n > 2 {
        // a second byte order mark would be the first one of the reference document
        assume(!(pr.u8.at(0) == 0xef && pr.u8.at(1) == 0xbb && pr.u8.at(2) == 0xbf));
    }
    let name: &[u8] = match k {
        K_LATIN1 => b"iso-8859-1",
        K_ASCII => b"US-ASCII",
        K_16LE => b"UTF-16LE",
        K_16BE => b"utf-16be",
        _ => b"UTF-8",
    };
    let mut en = std::ptr::null();
    if how == 2 || how == 7 {
        en = ename(name);
    } else if how == 5 {
        en = ename(b"utf-16");
    }
    let (p1, c1) = parser_enc(f, mask, en);
    (*c1).a = bom as u64;
    (*c1).hook = Some(lc_hook);
    if how == 3 {
        check!(XML_SetEncoding(p1, ename(name)) == XML_Status::OK, "setting the encoding before parsing failed");
    }
    let r1 = if param(6) == 1 { feed_mode(p1, &pr.enc, M_SPLIT) } else { parse_all(p1, &pr.enc) };
    XML_ParserFree(p1);
    (*(*c1).log).note();
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    if bad {
        reach!("not a character");
        check!(r1.st == 0, "a code unit that is no character was accepted");
        return;
    }
    // the reference run: the same characters in UTF-8, whatever the declaration says
    let (p2, c2) = parser_enc(f, mask, ename(b"UTF-8"));
    (*c2).hook = Some(lc_hook);
    let r2 = parse_all(p2, &pr.u8);
    XML_ParserFree(p2);
    if r2.st == 1 {
        reach!("accepted");
    } else {
        reach!("rejected");
    }
    check!(r1.st == r2.st, "verdict depends on the encoding");
    if r1.st == 0 && pr.u8.n > 0 && (pr.u8.at(0) != b'<' || pr.u8.n > 1 && pr.u8.at(1) == 0) {
        // what is reported for other first characters depends on a guess from the first two bytes
        return;
    }
    // outside the root element, what is said about junk in a declaration depends on which byte types
    // the encoding's characters have
    let g = |x| x == E_SYNTAX || x == E_INVALID || x == 6;
    let loose = r1.st == 0 && no_elements(&*(*c2).log) && g(r1.err) && g(r2.err);
    check!(loose || same_code(r1.err, r2.err), "error code depends on the encoding");
    if r1.st == 1 {
        check!((*(*c1).log).same(&*(*c2).log), "events depend on the encoding");
    } else {
        check!((*(*c1).log).same_upto_text(&*(*c2).log), "events before the error depend on the encoding");
    }
    if !loose && r1.err == r2.err && (r1.st == 0 || param(6) == 0) {
        let adj = if r1.line == 1 { bom as u64 } else { 0 };
        check!(r1.line == r2.line && r1.col == r2.col + adj, "line or column depends on the encoding");
    }
}
