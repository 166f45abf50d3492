//! Suspending, resuming, aborting.
use crate::ctx::*;
use crate::env::*;
use crate::h_split::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;
use libc::c_int;

pub const ST_INIT: u32 = 0;
pub const ST_PARSING: u32 = 1;
pub const ST_FINISHED: u32 = 2;
pub const ST_SUSP: u32 = 3;

pub unsafe fn status(p: XML_Parser) -> (u32, bool) {
    let mut s: XML_ParsingStatus = std::mem::zeroed();
    XML_GetParsingStatus(p, &mut s);
    (s.parsing as u32, s.finalBuffer)
}

/// compare positions: in an entity that is finished after a suspension they are no longer those of
/// the reference, which the parser has already passed
static mut POS: bool = true;

/// does the template declare entities?
fn entities(t: u64) -> bool {
    tpl::T[t as usize].1.windows(8).any(|w| w == b"<!ENTITY")
}

/// c.b = events left before stopping (0 = do not stop), c.c = stop again after every event,
/// c.d = 1 resumable, 0 abort
unsafe fn stop_hook(c: &mut Ctx, t: u8) {
    let ev = (*c.log).events;
    if c.stop_ev != 0 && ev != c.stop_ev && status(c.p).0 != ST_PARSING {
        // only what belongs to the same piece of markup may follow
        let st = c.stop_tag;
        let ok = match t {
            b'n' => st == b'N' || st == b'S' || st == b'E' || st == b'n',
            b'E' => st == b'N' || st == b'S',
            b'N' | b'S' => st == b'N',
            // the start of a CDATA section and its first piece of text are one step
            b'T' | b']' => st == b'[',
            b'e' => st == b'd',
            _ => false,
        };
        check!(ok, "events go on after the parser was stopped");
    }
    if POS {
        pos_hook(c, t);
    }
    if c.b == 0 {
        return;
    }
    c.b -= 1;
    if c.b == 0 {
        let (st, _) = status(c.p);
        check!(st == ST_PARSING || st == ST_SUSP || st == ST_FINISHED, "parser not active inside a handler");
        if st == ST_PARSING {
            let r = XML_StopParser(c.p, c.d == 1);
            check!(r == XML_Status::OK, "stopping inside a handler failed");
            let (st, _) = status(c.p);
            check!(st == if c.d == 1 { ST_SUSP } else { ST_FINISHED }, "status after stopping");
            reach!("stopped");
            c.stop_ev = ev;
            c.stop_tag = t;
            c.a += 1;
            if c.d == 0 {
                // events seen when the parser was aborted
                c.b = 0;
                c.c = (*c.log).events as u64;
                return;
            }
        }
        if c.c == 1 {
            c.b = 1;
        }
    }
}

/// resume until the parser is no longer suspended; every call that is not allowed meanwhile is refused
pub unsafe fn drain(p: XML_Parser, fin: bool) -> XML_Status {
    let mut s = XML_Status::SUSPENDED;
    while s == XML_Status::SUSPENDED {
        let (st, fb) = status(p);
        check!(st == ST_SUSP, "status of a suspended parser");
        check!(fb == fin, "finalBuffer of a suspended parser");
        let x = b" ";
        check!(XML_Parse(p, x.as_ptr() as *const _, 1, 0) == XML_Status::ERROR && XML_GetErrorCode(p) == 33, "parsing while suspended");
        check!(XML_GetBuffer(p, 1).is_null() && XML_GetErrorCode(p) == 33, "buffer while suspended");
        check!(XML_StopParser(p, true) == XML_Status::ERROR && XML_GetErrorCode(p) == 33, "suspending twice");
        check!(XML_ParseBuffer(p, 0, 1) == XML_Status::ERROR && XML_GetErrorCode(p) == 33, "parsing a buffer while suspended");
        s = XML_ResumeParser(p);
    }
    s
}

/// p0 template, p1 free bytes, p2 flags, p3 mask, p4: 0 = stop at any one event, 1 = at every event,
/// p5: 0 = one chunk, 1 = two chunks cut anywhere, 2 = byte by byte, 3 = cut anywhere and the buffer moved
#[no_mangle]
pub unsafe extern "C" fn h_susp() {
    let f = param(2);
    let mask = mask_of(param(3));
    let d = tpl::doc(param(0), param(1));
    let (p1, c1) = parser(f, mask);
    POS = !entities(param(0));
    (*c1).hook = if POS { Some(pos_hook) } else { None };
    let s = feed(p1, &d, 0, d.n, true);
    let r1 = res(p1, s);
    XML_ParserFree(p1);
    let (p2, c2) = parser(f, mask);
    (*c2).hook = Some(stop_hook);
    (*c2).d = 1;
    if param(4) == 1 {
        (*c2).b = 1;
        (*c2).c = 1;
    } else {
        let e = (*(*c1).log).events;
        if e == 0 {
            return;
        }
        (*c2).b = 1 + choice(e) as u64;
    }
    ASKED = 0;
    let k = if param(5) & 1 == 1 { choice(d.n + 1) } else { d.n };
    let mut at = 0;
    let mut s = XML_Status::OK;
    while at < d.n || at == 0 {
        let to = if param(5) == 2 {
            at + 1
        } else if at < k {
            k
        } else {
            d.n
        };
        s = if param(5) == 3 { feed_move(p2, &d, at, to, to == d.n) } else { feed(p2, &d, at, to, to == d.n) };
        if s == XML_Status::SUSPENDED {
            s = drain(p2, to == d.n);
        }
        at = to;
        if s != XML_Status::OK {
            break;
        }
        check!(status(p2).0 == if at == d.n { ST_FINISHED } else { ST_PARSING }, "status after a chunk");
    }
    let r2 = res(p2, s);
    // an error found behind the event leaves the parser resumable in name only
    let n2 = (*(*c2).log).n;
    let x = XML_ResumeParser(p2);
    let e = XML_GetErrorCode(p2);
    check!(x == XML_Status::ERROR && (e == 34 || s == XML_Status::ERROR && e == r2.err), "resuming a parser that is not suspended");
    check!((*(*c2).log).n == n2, "events from a parser that is not suspended");
    XML_ParserFree(p2);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c2).log).note();
    let mut r2 = r2;
    if !POS {
        r2.idx = r1.idx;
        r2.line = r1.line;
        r2.col = r1.col;
    }
    compare_runs(&r1, &*(*c1).log, &r2, &*(*c2).log, param(5) != 0 && guessed(&d));
}

/// Aborting: p0 template, p1 free bytes, p2 flags, p3 mask, p4: 0 abort in a handler, 1 abort while suspended
#[no_mangle]
pub unsafe extern "C" fn h_abort() {
    let f = param(2);
    let mask = mask_of(param(3));
    let d = tpl::doc(param(0), param(1));
    let (p1, c1) = parser(f, mask);
    POS = !entities(param(0));
    (*c1).hook = if POS { Some(pos_hook) } else { None };
    let s = feed(p1, &d, 0, d.n, true);
    let r1 = res(p1, s);
    XML_ParserFree(p1);
    let e = (*(*c1).log).events;
    if e == 0 {
        return;
    }
    let (p2, c2) = parser(f, mask);
    (*c2).hook = Some(stop_hook);
    (*c2).d = param(4);
    (*c2).b = 1 + choice(e) as u64;
    let s = feed(p2, &d, 0, d.n, true);
    if (*c2).a == 0 {
        return;
    }
    let at = (*c2).c;
    if param(4) == 1 {
        if s != XML_Status::SUSPENDED {
            // the event came with an error behind it
            return;
        }
        check!(XML_StopParser(p2, false) == XML_Status::OK, "aborting a suspended parser failed");
        check!(status(p2).0 == ST_FINISHED, "status after aborting");
        check!(XML_ResumeParser(p2) == XML_Status::ERROR && XML_GetErrorCode(p2) == 34, "an aborted parser was resumed");
    } else {
        check!(s == XML_Status::ERROR, "aborted parse succeeded");
        check!(XML_GetErrorCode(p2) == 35 || XML_GetErrorCode(p2) == r1.err, "aborted parse reports another error");
        reach!("aborted");
    }
    let n2 = (*(*c2).log).n;
    let ev2 = (*(*c2).log).events as u64;
    let x = b"<";
    check!(XML_Parse(p2, x.as_ptr() as *const _, 1, 1) == XML_Status::ERROR && XML_GetErrorCode(p2) == 36, "parsing after an abort");
    check!(XML_GetBuffer(p2, 1).is_null() && XML_GetErrorCode(p2) == 36, "buffer after an abort");
    check!(XML_ParseBuffer(p2, 0 as c_int, 1) == XML_Status::ERROR && XML_GetErrorCode(p2) == 36, "parsing a buffer after an abort");
    check!(XML_StopParser(p2, true) == XML_Status::ERROR && XML_GetErrorCode(p2) == 36, "stopping after an abort");
    check!((*(*c2).log).n == n2, "events after an abort");
    XML_ParserFree(p2);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    let (l1, l2) = (&*(*c1).log, &*(*c2).log);
    check!(l2.n <= l1.n && bytes_eq(l1.kind, l2.kind, l2.n) && bytes_eq(l1.buf, l2.buf, l2.n), "events before an abort are not a prefix of the document's events");
    if param(4) == 0 {
        // the event itself, and at most the end of an empty element with its namespace ends
        check!(ev2 <= at + 2, "events went on after an abort");
    }
    l2.note();
}
