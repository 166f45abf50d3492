//! Reusing a parser after XML_ParserReset.
use crate::ctx::*;
use crate::env::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;
use libc::c_int;

unsafe fn ext_part(c: &mut Ctx, p: XML_Parser, x: *const XML_Char, _b: *const XML_Char, _s: *const XML_Char, _q: *const XML_Char) -> c_int {
    let ch = XML_ExternalEntityParserCreate(p.as_ref(), x, std::ptr::null());
    if ch.is_null() {
        return 0;
    }
    let keep = c.p;
    c.p = ch;
    let t: &[u8] = if x.is_null() { b"<!ENTITY z 'Z'><!ATTLIST a zz CDATA 'z'>" } else { b"<q/>" };
    let s = XML_Parse(ch, t.as_ptr() as *const _, t.len() as c_int, 1);
    c.p = keep;
    XML_ParserFree(ch);
    (s == XML_Status::OK) as c_int
}

/// first use: p0 template, p1 free bytes, p2 flags; p3: 0 whole, 1 cut anywhere and abandoned,
/// 2 suspended at any event, 3 aborted at any event, 4 with external entities; p4 0: a fresh setup after the
/// reset, 1: no handlers after the reset; second use: p5 template, p6 free bytes
#[no_mangle]
pub unsafe extern "C" fn h_reset() {
    let f = param(2);
    let how = param(3);
    let d = tpl::doc(param(0), param(1));
    let m1 = if how == 4 { H_ALL | H_EXTERN | H_NOTSTAND } else { H_ALL };
    let (p, c) = parser(f, m1);
    (*c).ext = Some(ext_part);
    if how == 4 {
        XML_UseForeignDTD(p, true);
        XML_SetParamEntityParsing(p, XML_ParamEntityParsing::ALWAYS);
    }
    XML_SetBase(p, ename(b"base"));
    if how == 2 || how == 3 {
        (*c).b = 1 + choice(6) as u64;
        (*c).d = (how == 2) as u64;
        (*c).hook = Some(stop);
    }
    if how == 1 {
        let k = choice(d.n + 1);
        let _ = feed(p, &d, 0, k, false);
    } else {
        let _ = feed(p, &d, 0, d.n, true);
    }
    let evs = (*(*c).log).events;
    check!(XML_ParserReset(p, std::ptr::null()), "resetting the parser failed");
    reach!("reset");
    check!(XML_GetBase(p).is_null(), "the base survives a reset");
    check!(XML_GetErrorCode(p) == 0, "the error code survives a reset");
    check!(*(p as *const *mut libc::c_void) == std::ptr::null_mut(), "user data survives a reset");
    let d2 = tpl::doc(param(5), param(6));
    if param(4) == 1 {
        let r = parse_all(p, &d2);
        check!((*(*c).log).events == evs, "handlers survive a reset");
        let (q, _) = parser(f, 0);
        let r2 = parse_all(q, &d2);
        check!(r == r2, "verdict after a reset differs from a new parser's");
        XML_ParserFree(q);
        XML_ParserFree(p);
        check!(LIVE == 0, "memory still allocated after the parser was freed");
        return;
    }
    // the namespace mode and the triplet mode stay, everything else is as in a new parser
    let c2 = Ctx::new();
    setup(p, c2, f & (F_NS | F_TRIP), H_ALL | H_NS);
    (*c2).hook = Some(pos_hook);
    let r2 = parse_all(p, &d2);
    XML_ParserFree(p);
    let (q, c3) = parser(f & (F_NS | F_TRIP), H_ALL | H_NS);
    (*c3).hook = Some(pos_hook);
    let r3 = parse_all(q, &d2);
    XML_ParserFree(q);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c2).log).note();
    check!(r2 == r3, "verdict after a reset differs from a new parser's");
    check!((*(*c2).log).same(&*(*c3).log), "events after a reset differ from a new parser's");
}

unsafe fn stop(c: &mut Ctx, _t: u8) {
    if c.b > 0 {
        c.b -= 1;
        if c.b == 0 {
            XML_StopParser(c.p, c.d == 1);
        }
    }
}
