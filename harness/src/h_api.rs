//! Calls of the interface in every state of the parser; error strings, version, features.
use crate::ctx::*;
use crate::env::*;
use crate::h_susp::{status, ST_FINISHED, ST_INIT, ST_PARSING, ST_SUSP};
use crate::rt::*;
use crate::tpl;
use libc::{c_char, c_int, c_void};
use std::ptr::null;

const OK: XML_Status = XML_Status::OK;
const ERR: XML_Status = XML_Status::ERROR;

/// what has been set so far, and the parser's state as far as a user can know it
struct Model {
    st: u32,
    /// the parse failed, with this code
    failed: u32,
    fin: bool,
    trip: bool,
    pe: u32,
    foreign: bool,
    latin1: bool,
}

unsafe fn int32() -> c_int {
    (byte() as u32 | (byte() as u32) << 8 | (byte() as u32) << 16 | (byte() as u32) << 24) as c_int
}

unsafe fn negative() -> c_int {
    let v = int32();
    assume(v < 0);
    v
}

unsafe fn refused(p: XML_Parser, code: u32, m: &Model) {
    check!(XML_GetErrorCode(p) == code, "a refused call reports another error code than documented");
    same_state(p, m);
}

unsafe fn same_state(p: XML_Parser, m: &Model) {
    let (st, fb) = status(p);
    check!(st == m.st, "parsing status is not what happened");
    check!(fb == m.fin, "final-buffer status is not what happened");
}

const N_CALLS: usize = 17;

/// one call outside of a handler; how = which one
unsafe fn call(p: XML_Parser, how: usize, m: &mut Model) {
    let busy = m.st == ST_PARSING || m.st == ST_SUSP;
    let no_input = match m.st {
        ST_SUSP => 33,
        ST_FINISHED => 36,
        _ => 0,
    };
    let x = b"xyz";
    match how {
        0 => {
            check!(XML_Parse(p, x.as_ptr() as *const c_char, negative(), flip() as c_int) == ERR, "a negative length was accepted");
            refused(p, 41, m);
        }
        1 => {
            let n = int32();
            assume(n != 0);
            check!(XML_Parse(p, null(), n, flip() as c_int) == ERR, "a missing buffer was accepted");
            refused(p, 41, m);
        }
        2 => {
            check!(XML_GetBuffer(p, negative()).is_null(), "a buffer of negative length was handed out");
            let e = XML_GetErrorCode(p);
            check!(e == 1 || no_input != 0 && e == no_input, "a refused call reports another error code than documented");
            same_state(p, m);
        }
        3 => {
            // more than there is room for, or a negative length
            let n = if flip() { negative() } else { c_int::max_value() - choice(2) as c_int };
            check!(XML_ParseBuffer(p, n, flip() as c_int) == ERR, "a length outside the buffer was accepted");
            let e = XML_GetErrorCode(p);
            check!(e == 41 || no_input != 0 && e == no_input, "a refused call reports another error code than documented");
            same_state(p, m);
        }
        4 => {
            let n = [0, 1, 7, 1023, 1024, 1025, 4096, (1 << 30) + 1, c_int::max_value()][choice(9)];
            let b = XML_GetBuffer(p, n) as *mut u8;
            if no_input != 0 {
                check!(b.is_null(), "a buffer was handed out by a parser that takes no input");
                refused(p, no_input, m);
            } else if b.is_null() {
                check!(n > 1 << 30, "no buffer");
                refused(p, 1, m);
            } else {
                // all of it can be written to
                if n > 0 {
                    *b = b'x';
                    *b.add(n as usize / 2) = b'x';
                    *b.add(n as usize - 1) = b'x';
                }
                same_state(p, m);
            }
        }
        5 => {
            if m.st == ST_SUSP {
                return;
            }
            check!(XML_ResumeParser(p) == ERR, "a parser that is not suspended was resumed");
            refused(p, 34, m);
            if m.failed != 0 {
                m.failed = 34;
            }
        }
        6 => {
            // outside of a handler only a suspended parser may be stopped
            if m.st == ST_SUSP {
                check!(XML_StopParser(p, true) == ERR, "a suspended parser was suspended");
                refused(p, 33, m);
            } else if m.st == ST_FINISHED {
                check!(XML_StopParser(p, flip()) == ERR, "a finished parser was stopped");
                refused(p, 36, m);
            }
        }
        7 => {
            if m.st == ST_SUSP {
                check!(XML_StopParser(p, false) == OK, "a suspended parser was not aborted");
                m.st = ST_FINISHED;
                same_state(p, m);
            }
        }
        8 => {
            let l1 = flip();
            let r = XML_SetEncoding(p, ename(if l1 { b"iso-8859-1" } else { b"UTF-8" }));
            if busy {
                check!(r == ERR, "the encoding was changed while parsing");
            } else {
                check!(r == OK, "setting the encoding failed");
                m.latin1 = l1;
            }
            same_state(p, m);
        }
        9 => {
            let v = flip();
            let r = XML_UseForeignDTD(p, v);
            check!(r as u32 == if busy { 26 } else { 0 }, "XML_UseForeignDTD does not return what is documented");
            if !busy {
                m.foreign = v;
            }
            same_state(p, m);
        }
        10 => {
            let v = choice(3) as u32;
            let r = XML_SetParamEntityParsing(p, pe_mode(v));
            check!((r != 0) == !busy, "XML_SetParamEntityParsing does not return what is documented");
            if !busy {
                m.pe = v;
            }
            same_state(p, m);
        }
        11 => {
            let v = flip();
            XML_SetReturnNSTriplet(p, v);
            if !busy {
                m.trip = v;
            }
            same_state(p, m);
        }
        12 => {
            let b = ename(b"http://base");
            check!(XML_SetBase(p, b) == OK, "setting the base failed");
            *(b as *mut XML_Char) = b'x' as XML_Char;
            let g = XML_GetBase(p);
            check!(!g.is_null() && *g == b'h' as XML_Char && *g.add(10) == b'e' as XML_Char && *g.add(11) == 0, "the base is not what was set");
            check!(XML_SetBase(p, null()) == OK && XML_GetBase(p).is_null(), "the base was not removed");
            same_state(p, m);
        }
        13 => {
            if no_input == 0 {
                return;
            }
            check!(XML_Parse(p, x.as_ptr() as *const c_char, choice(4) as c_int, flip() as c_int) == ERR, "input was accepted by a parser that takes none");
            refused(p, no_input, m);
        }
        14 => {
            if no_input == 0 {
                return;
            }
            check!(XML_ParseBuffer(p, 0, flip() as c_int) == ERR, "input was accepted by a parser that takes none");
            refused(p, no_input, m);
        }
        15 => {
            // an empty piece that is not the last one changes nothing
            if no_input != 0 {
                return;
            }
            let before = XML_GetErrorCode(p);
            let r = XML_Parse(p, if flip() { null() } else { x.as_ptr() as *const c_char }, 0, 0);
            check!(r == OK || m.failed != 0, "an empty piece was refused");
            if m.failed == 0 {
                check!(XML_GetErrorCode(p) == before || XML_GetErrorCode(p) == 0, "an empty piece caused an error code");
            }
            m.st = ST_PARSING;
            m.fin = false;
            same_state(p, m);
        }
        _ => {
            let keep = XML_GetUserData_(p);
            XML_SetUserData(p, x.as_ptr() as *mut c_void);
            check!(XML_GetUserData_(p) == x.as_ptr() as *mut c_void, "the user data is not what was set");
            XML_SetUserData(p, keep);
            let q = XML_MemMalloc(p, 24) as *mut u8;
            *q = 1;
            *q.add(23) = 2;
            let q = XML_MemRealloc(p, q as *mut c_void, 48) as *mut u8;
            check!(*q == 1 && *q.add(23) == 2, "XML_MemRealloc lost the contents");
            *q.add(47) = 3;
            XML_MemFree(p, q as *mut c_void);
            same_state(p, m);
        }
    }
}

unsafe fn suspend_at(c: &mut Ctx, _t: u8) {
    if c.b > 0 {
        c.b -= 1;
        if c.b == 0 {
            check!(XML_StopParser(c.p, c.d == 1) == OK, "stopping inside a handler failed");
            c.a = 1;
        }
    }
}

const MASK: u32 = H_ALL | H_NS | H_EXTERN;

unsafe fn no_parse(_c: &mut Ctx, _p: XML_Parser, _x: *const XML_Char, _b: *const XML_Char, _s: *const XML_Char, _q: *const XML_Char) -> c_int {
    1
}

unsafe fn document(bad: bool) -> Doc {
    let mut d = Doc::new(256);
    d.lit(if param(1) == 0 { b"<!DOCTYPE r SYSTEM 's' [<!ATTLIST r a ID 'v'>]>" } else { b"" });
    d.lit(b"<r xmlns:p='u'><p:b c='1'>\xc3\xa9</p:b><d/>");
    d.lit(if bad { b"</x>" } else { b"</r>" });
    d
}

/// p0 number of calls in a row, p1 document (0 with, 1 without a document type declaration), p2 state:
/// 0 new, 1 parsing, 2 suspended, 3 finished, 4 failed, 5 aborted, 6 reset, 7 in a nested parser,
/// p3 1 = free choice of the calls only for the last one
#[no_mangle]
pub unsafe extern "C" fn h_api() {
    let state = param(2);
    let d = document(state == 4);
    let (p, c) = parser(F_NS, MASK);
    (*c).ext = Some(no_parse);
    let mut m = Model { st: ST_INIT, failed: 0, fin: false, trip: false, pe: 0, foreign: false, latin1: false };
    let mut at = 0;
    same_state(p, &m);
    check!(XML_GetErrorCode(p) == 0, "a new parser reports an error");
    match state {
        1 => {
            at = [0, 1, 13, d.n - 3, d.n][choice(5)];
            check!(if flip() { feed(p, &d, 0, at, false) } else { feed_buffer(p, &d, 0, at, false) } == OK, "the document's beginning was rejected");
            m.st = ST_PARSING;
        }
        2 | 5 => {
            let fin = flip();
            let e = [1, 3, 5, 7][choice(4)];
            (*c).b = e;
            (*c).d = (state == 2) as u64;
            (*c).hook = Some(suspend_at);
            let r = if flip() { feed(p, &d, 0, d.n, fin) } else { feed_buffer(p, &d, 0, d.n, fin) };
            m.fin = fin;
            at = d.n;
            if state == 2 {
                check!(r == XML_Status::SUSPENDED, "stopping in a handler did not suspend the parser");
                m.st = ST_SUSP;
            } else {
                check!(r == ERR, "stopping in a handler did not abort the parser");
                refused(p, 35, &Model { st: ST_FINISHED, fin, ..m });
                m.st = ST_FINISHED;
            }
        }
        3 | 6 => {
            check!(feed(p, &d, 0, d.n, true) == OK, "the document was rejected");
            m.st = ST_FINISHED;
            m.fin = true;
        }
        4 => {
            let fin = flip();
            check!(feed(p, &d, 0, d.n, fin) == ERR, "the document was accepted");
            m.st = ST_PARSING;
            m.fin = fin;
            m.failed = 7;
            refused(p, 7, &m);
        }
        _ => {}
    }
    if state == 6 {
        check!(XML_ParserReset(p, null()), "resetting the parser failed");
        m.st = ST_INIT;
        (*(*c).log).clear();
        set_handlers(p, c, MASK);
        // documented: the status is that of a new parser
        m.fin = status(p).1;
        same_state(p, &m);
    }
    let n0 = (*(*c).log).n;
    let k = param(0);
    let mut i = 0;
    while i < k {
        call(p, choice(N_CALLS), &mut m);
        i += 1;
    }
    check!((*(*c).log).n == n0, "a call outside of parsing delivered events");
    // what comes next is as if the refused calls had not been made
    if m.failed != 0 {
        let x = [byte()];
        let r = XML_Parse(p, x.as_ptr() as *const c_char, 1, flip() as c_int);
        check!(r == ERR && (XML_GetErrorCode(p) != 0) && (k != 0 || XML_GetErrorCode(p) == m.failed), "a failed parser takes more input");
        check!((*(*c).log).n == n0, "events after an error");
        XML_ParserFree(p);
        check!(LIVE == 0, "memory still allocated after the parser was freed");
        return;
    }
    if m.st == ST_FINISHED {
        let x = [byte()];
        check!(XML_Parse(p, x.as_ptr() as *const c_char, 1, flip() as c_int) == ERR, "a finished parser takes more input");
        refused(p, 36, &m);
        check!((*(*c).log).n == n0, "events from a finished parser");
        XML_ParserFree(p);
        check!(LIVE == 0, "memory still allocated after the parser was freed");
        return;
    }
    let mut r = OK;
    if m.st == ST_SUSP {
        r = XML_ResumeParser(p);
    }
    if r == OK && !(m.st == ST_SUSP && m.fin) {
        r = feed(p, &d, at, d.n, true);
    }
    let r = res(p, r);
    reach!("went on");
    XML_ParserFree(p);
    // settings made while they were allowed show their effect
    let (q, c2) = parser(F_NS, MASK);
    (*c2).ext = Some(no_parse);
    if m.latin1 {
        XML_SetEncoding(q, ename(b"iso-8859-1"));
    }
    XML_UseForeignDTD(q, m.foreign);
    XML_SetParamEntityParsing(q, pe_mode(m.pe));
    XML_SetReturnNSTriplet(q, m.trip);
    let r2 = parse_all(q, &d);
    XML_ParserFree(q);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c).log).note();
    check!(r.st == 1 && r2.st == 1, "the document was rejected");
    check!((*(*c).log).same(&*(*c2).log), "refused calls changed the events, or accepted ones did not");
}

/// Calls inside a handler: at one event of the document, settings are refused, stopping twice follows the rules.
/// p0 template, p1 free bytes, p2 flags
#[no_mangle]
pub unsafe extern "C" fn h_apih() {
    let d = tpl::doc(param(0), param(1));
    let f = param(2);
    let (p1, c1) = parser(f, MASK);
    (*c1).ext = Some(no_parse);
    let r1 = parse_all(p1, &d);
    XML_ParserFree(p1);
    let e = (*(*c1).log).events;
    if e == 0 {
        return;
    }
    let (p, c) = parser(f, MASK);
    (*c).ext = Some(no_parse);
    (*c).b = 1 + choice(e) as u64;
    (*c).hook = Some(refuse_all);
    let r = parse_all(p, &d);
    (*(*c).log).note();
    let (l1, l2) = (&*(*c1).log, &*(*c).log);
    if (*c).a == 0 {
        check!(r == r1 && l1.same(l2), "refused calls inside a handler changed the parse");
    } else {
        check!(r.st == 0 && (r.err == 35 || r.err == r1.err), "an aborted parse succeeded");
        check!(l2.n <= l1.n && bytes_eq(l1.kind, l2.kind, l2.n) && bytes_eq(l1.buf, l2.buf, l2.n), "events before an abort are not a prefix of the document's events");
    }
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
}

unsafe fn refuse_all(c: &mut Ctx, _t: u8) {
    if c.b == 0 {
        return;
    }
    c.b -= 1;
    if c.b != 0 {
        return;
    }
    let p = c.p;
    let m = Model { st: ST_PARSING, failed: 0, fin: true, trip: false, pe: 0, foreign: false, latin1: false };
    same_state(p, &m);
    check!(XML_SetEncoding(p, ename(b"iso-8859-1")) == ERR, "the encoding was changed while parsing");
    check!(XML_UseForeignDTD(p, true) as u32 == 26, "XML_UseForeignDTD does not return what is documented");
    check!(XML_SetParamEntityParsing(p, XML_ParamEntityParsing::ALWAYS) == 0, "XML_SetParamEntityParsing does not return what is documented");
    XML_SetReturnNSTriplet(p, true);
    check!(XML_ResumeParser(p) == ERR, "a parser that is not suspended was resumed");
    same_state(p, &m);
    if flip() {
        // suspending, suspending again, aborting, stopping again
        if flip() {
            check!(XML_StopParser(p, true) == OK, "stopping inside a handler failed");
            let s = Model { st: ST_SUSP, ..m };
            same_state(p, &s);
            check!(XML_StopParser(p, true) == ERR, "a suspended parser was suspended");
            refused(p, 33, &s);
        }
        check!(XML_StopParser(p, false) == OK, "aborting inside a handler failed");
        let s = Model { st: ST_FINISHED, ..m };
        same_state(p, &s);
        check!(XML_StopParser(p, flip()) == ERR, "a finished parser was stopped");
        refused(p, 36, &s);
        c.a = 1;
        reach!("aborted");
    }
}

/// a parser for an external entity: no reset; suspending is refused if it reads a parameter entity
#[no_mangle]
pub unsafe extern "C" fn h_apic() {
    let (p, c) = parser(F_NS | 8, H_ALL | H_EXTERN);
    (*c).ext = Some(nested_calls);
    (*c).hook = Some(child_stop);
    let d = b"<!DOCTYPE r SYSTEM 's' [<!ENTITY e SYSTEM 't'>]><r>&e;</r>";
    let s = XML_Parse(p, d.as_ptr() as *const c_char, d.len() as c_int, 1);
    check!(s == OK && XML_GetErrorCode(p) == 0, "refused calls in a nested parser changed the parse");
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c).log).note();
}

unsafe fn child_stop(c: &mut Ctx, t: u8) {
    if c.a == 0 || t == b'R' {
        return;
    }
    let m = Model { st: ST_PARSING, failed: 0, fin: true, trip: false, pe: 0, foreign: false, latin1: false };
    if c.a == 1 {
        check!(XML_StopParser(c.p, true) == ERR, "a parser for a parameter entity was suspended");
        refused(c.p, 37, &m);
        reach!("parameter entity");
    } else if c.d == 0 {
        c.d = 1;
        check!(XML_StopParser(c.p, true) == OK, "stopping inside a handler failed");
        reach!("general entity");
    }
}

unsafe fn nested_calls(c: &mut Ctx, p: XML_Parser, x: *const XML_Char, _b: *const XML_Char, _s: *const XML_Char, _q: *const XML_Char) -> c_int {
    let ch = XML_ExternalEntityParserCreate(p.as_ref(), x, null());
    if ch.is_null() {
        return 0;
    }
    check!(status(ch).0 == ST_INIT, "the status of a new nested parser");
    check!(!XML_ParserReset(ch, null()), "a nested parser was reset");
    check!(XML_GetUserData_(ch) == XML_GetUserData_(p), "a nested parser has other user data");
    let keep = c.p;
    c.p = ch;
    c.a = if x.is_null() { 1 } else { 2 };
    let t: &[u8] = if x.is_null() { b"<!ELEMENT r ANY>" } else { b"<q>x</q>" };
    let mut s = XML_Parse(ch, t.as_ptr() as *const c_char, t.len() as c_int, 1);
    check!(!XML_ParserReset(ch, null()), "a nested parser was reset");
    if s == XML_Status::SUSPENDED {
        s = XML_ResumeParser(ch);
    }
    c.p = keep;
    c.a = 0;
    XML_ParserFree(ch);
    (s == OK) as c_int
}

/// every function accepts a missing parser
#[no_mangle]
pub unsafe extern "C" fn h_apin() {
    // opaque to the compiler
    let p: XML_Parser = concrete(0) as usize as XML_Parser;
    let x = b"<a/>";
    check!(XML_Parse(p, x.as_ptr() as *const c_char, int32(), 1) == ERR, "no parser");
    check!(XML_ParseBuffer(p, int32(), 1) == ERR, "no parser");
    check!(XML_GetBuffer(p, int32()).is_null(), "no parser");
    check!(XML_ResumeParser(p) == ERR && XML_StopParser(p, flip()) == ERR, "no parser");
    check!(!XML_ParserReset(p, null()), "no parser");
    check!(XML_SetEncoding(p, null()) == ERR, "no parser");
    check!(XML_UseForeignDTD(p, true) as u32 == 41, "no parser");
    check!(XML_SetParamEntityParsing(p, XML_ParamEntityParsing::ALWAYS) == 0, "no parser");
    check!(XML_SetHashSalt(p, 1) == 0, "no parser");
    check!(XML_GetErrorCode(p) == 41, "no parser");
    check!(XML_SetBase(p, null()) == ERR && XML_GetBase(p).is_null(), "no parser");
    check!(XML_GetSpecifiedAttributeCount(p) == -1 && XML_GetIdAttributeIndex(p) == -1, "no parser");
    check!(XML_GetCurrentByteIndex(p) == -1 && XML_GetCurrentByteCount(p) == 0, "no parser");
    check!(XML_GetCurrentLineNumber(p) == 0 && XML_GetCurrentColumnNumber(p) == 0, "no parser");
    let (mut a, mut b) = (7, 7);
    check!(XML_GetInputContext(p, &mut a, &mut b).is_null(), "no parser");
    check!(XML_ExternalEntityParserCreate(None, null(), null()).is_null(), "no parser");
    check!(XML_MemMalloc(p, 8).is_null() && XML_MemRealloc(p, std::ptr::null_mut(), 8).is_null(), "no parser");
    XML_MemFree(p, std::ptr::null_mut());
    XML_FreeContentModel(p, std::ptr::null_mut());
    XML_DefaultCurrent(p);
    XML_SetReturnNSTriplet(p, true);
    XML_UseParserAsHandlerArg(p);
    XML_SetUserData(p, std::ptr::null_mut());
    let mut s: XML_ParsingStatus = std::mem::zeroed();
    XML_GetParsingStatus(p, &mut s);
    XML_SetElementHandler(p, None, None);
    XML_SetCharacterDataHandler(p, None);
    XML_SetProcessingInstructionHandler(p, None);
    XML_SetCommentHandler(p, None);
    XML_SetCdataSectionHandler(p, None, None);
    XML_SetDefaultHandler(p, None);
    XML_SetDefaultHandlerExpand(p, None);
    XML_SetDoctypeDeclHandler(p, None, None);
    XML_SetEntityDeclHandler(p, None);
    XML_SetUnparsedEntityDeclHandler(p, None);
    XML_SetNotationDeclHandler(p, None);
    XML_SetNamespaceDeclHandler(p, None, None);
    XML_SetElementDeclHandler(p, None);
    XML_SetAttlistDeclHandler(p, None);
    XML_SetXmlDeclHandler(p, None);
    XML_SetSkippedEntityHandler(p, None);
    XML_SetExternalEntityRefHandler(p, None);
    XML_SetExternalEntityRefHandlerArg(p, std::ptr::null_mut());
    XML_SetNotStandaloneHandler(p, None);
    XML_SetUnknownEncodingHandler(p, None, std::ptr::null_mut());
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated");
    reach!("no parser");
}

/// the documented result of setting the hash salt before parsing
#[no_mangle]
pub unsafe extern "C" fn h_apisalt() {
    let (p, _c) = parser(0, 0);
    let r = XML_SetHashSalt(p, 0x1234);
    check!(r == 1, "XML_SetHashSalt before parsing does not report success");
    XML_ParserFree(p);
}

// ------------------------------------------------------------------ handlers replaced while parsing
unsafe extern "C" fn other_text(u: *mut c_void, _s: *const XML_Char, n: c_int) {
    let c = &mut *(u as *mut Ctx);
    c.d += n as u64;
}

unsafe fn swap_hook(c: &mut Ctx, t: u8) {
    if t == b'S' {
        c.b += 1;
        if c.b == c.a {
            match c.c {
                0 => XML_SetCharacterDataHandler(c.p, Some(other_text)),
                1 => XML_SetCharacterDataHandler(c.p, None),
                2 => XML_SetElementHandler(c.p, None, None),
                3 => XML_SetEndElementHandler(c.p, None),
                4 => XML_SetUserData(c.p, c.stop_ev as *mut c_void),
                _ => XML_UseParserAsHandlerArg(c.p),
            }
        }
    }
}

/// handlers and user data that are changed inside a handler apply from the next event on
#[no_mangle]
pub unsafe extern "C" fn h_apisw() {
    let (p, c) = parser(0, H_ELEM | H_TEXT);
    let d = b"<a>1<b>22<c>333</c>4444</b>55555</a>";
    let (q, c2) = (p, Ctx::new());
    let _ = q;
    (*c2).p = p;
    (*c).stop_ev = c2 as usize;
    (*c).a = 1 + choice(3) as u64;
    (*c).c = choice(5) as u64;
    (*c).hook = Some(swap_hook);
    check!(XML_Parse(p, d.as_ptr() as *const c_char, d.len() as c_int, 1) == OK, "the document was rejected");
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated");
    // expected
    let e = &mut *Log::new();
    let e2 = &mut *Log::new();
    let mut n = 0u64;
    let mut cnt = 0u64;
    let (mut swapped, mut i) = (false, 0);
    while i < d.len() {
        let to2 = swapped && (*c).c == 4;
        let l = if to2 { &mut *e2 } else { &mut *e };
        if d[i] == b'<' && d[i + 1] != b'/' {
            if !(swapped && (*c).c == 2) {
                l.tag(b'S');
                l.ascii(&d[i + 1..i + 2]);
                l.end();
            }
            n += 1;
            if n == (*c).a {
                swapped = true;
            }
            i += 3;
        } else if d[i] == b'<' {
            if !(swapped && ((*c).c == 2 || (*c).c == 3)) {
                l.tag(b'E');
                l.ascii(&d[i + 2..i + 3]);
                l.end();
            }
            i += 4;
        } else {
            if swapped && (*c).c == 0 {
                cnt += 1;
            } else if !(swapped && (*c).c == 1) {
                if l.last != b'T' {
                    l.tag(b'T');
                }
                l.ascii(&d[i..i + 1]);
            }
            i += 1;
        }
    }
    (*(*c).log).note();
    check!((*(*c).log).same(e) && (*(*c2).log).same(e2), "a handler set while parsing is not the one called");
    check!((*c).d == cnt, "a handler set while parsing is not the one called");
}

// ------------------------------------------------------------------ C26
unsafe fn len(s: *const XML_LChar) -> usize {
    let mut n = 0;
    while *s.add(n) != 0 {
        n += 1;
    }
    n
}

const LAST: u32 = 41;

/// all 2^32 codes: those of the interface have distinct messages, the others none
#[no_mangle]
pub unsafe extern "C" fn h_errstr() {
    let a = int32() as u32;
    let s = XML_ErrorString(a);
    if a == 0 || a > LAST {
        check!(s.is_null(), "a number that is no error code has a message");
        reach!("no message");
        return;
    }
    check!(!s.is_null(), "an error code has no message");
    let a = concrete(a as u64) as u32;
    let s = XML_ErrorString(a);
    let n = len(s);
    check!(n > 3 && n < 100, "the length of an error message");
    let mut b = 1;
    while b <= LAST {
        let t = XML_ErrorString(b);
        check!(!t.is_null(), "an error code has no message");
        let m = len(t);
        let mut same = m == n;
        let mut i = 0;
        while i < n && i < m {
            same &= *s.add(i) == *t.add(i);
            i += 1;
        }
        check!(same == (a == b), "two error codes have the same message");
        b += 1;
    }
    reach!("message");
}

unsafe fn is(s: *const XML_LChar, t: &[u8]) -> bool {
    len(s) == t.len() && (0..t.len()).all(|i| *s.add(i) as u32 == t[i] as u32)
}

#[no_mangle]
pub unsafe extern "C" fn h_version() {
    let v = XML_ExpatVersionInfo();
    let s = XML_ExpatVersion();
    let mut want = [0u8; 40];
    let mut n = 0;
    for &c in b"expat_" {
        want[n] = c;
        n += 1;
    }
    for (i, &x) in [v.major, v.minor, v.micro].iter().enumerate() {
        check!(x >= 0 && x < 100, "version number");
        if i > 0 {
            want[n] = b'.';
            n += 1;
        }
        if x > 9 {
            want[n] = b'0' + (x / 10) as u8;
            n += 1;
        }
        want[n] = b'0' + (x % 10) as u8;
        n += 1;
    }
    check!(is(s, &want[..n]), "the version string is not the version's numbers");
    let f = XML_GetFeatureList();
    let wide = std::mem::size_of::<XML_Char>() == 2;
    let mut seen = 0u32;
    let mut i = 0;
    while (*f.add(i)).feature as u32 != 0 {
        let e = &*f.add(i);
        let k = e.feature as u32;
        check!(k < 32 && seen >> k & 1 == 0, "a feature is listed twice");
        seen |= 1 << k;
        let name: &[u8] = match k {
            1 => b"XML_UNICODE",
            2 => b"XML_UNICODE_WCHAR_T",
            3 => b"XML_DTD",
            4 => b"XML_CONTEXT_BYTES",
            5 => b"XML_MIN_SIZE",
            6 => b"sizeof(XML_Char)",
            7 => b"sizeof(XML_LChar)",
            8 => b"XML_NS",
            9 => b"XML_LARGE_SIZE",
            _ => b"XML_ATTR_INFO",
        };
        check!(is(e.name, name), "a feature has another's name");
        if k == 6 {
            check!(e.value == std::mem::size_of::<XML_Char>() as i64, "size of characters");
        } else if k == 7 {
            check!(e.value == std::mem::size_of::<XML_LChar>() as i64, "size of message characters");
        } else if k == 4 {
            // what XML_GetInputContext reaches back to is checked by C27
            check!(e.value == 1024, "number of context bytes");
        } else {
            check!(e.value == 0, "value of a feature that has none");
        }
        i += 1;
    }
    check!((*f.add(i)).name.is_null(), "the end of the feature list");
    check!((seen >> 1 & 1 == 1) == wide, "XML_UNICODE does not tell the character width");
    check!(seen >> 6 & 7 == 7 && seen >> 3 & 1 == 1, "a feature of this build is not listed");
    reach!("version");
}
