//! Nested parsers (external entities and subsets): positions, context, default handler, cuts, suspension,
//! abort, allocation failures, reset. The documents are those of h_ext.rs.
use crate::ctx::*;
use crate::dtd::ext_index;
use crate::env::*;
use crate::h_ext::{TXT, X};
use crate::h_mut::mutate;
use crate::h_pos::*;
use crate::h_split::*;
use crate::h_susp::{drain, status, ST_FINISHED, ST_PARSING, ST_SUSP};
use crate::rt::*;
use crate::tpl;
use libc::c_int;

/// how entities are fed: 0 whole, 1 cut anywhere, 2 byte by byte, 3 cut, through XML_GetBuffer, the buffer moved
static mut FEED: u64 = 0;
/// positions are checked (bits of Run.what), or 0
static mut WHAT: u64 = 0;
/// parsers at work, the document's first; whether it reads a subset or parameter entity
static mut PS: [XML_Parser; 8] = [std::ptr::null_mut(); 8];
static mut PE: [bool; 8] = [false; 8];
static mut LEV: usize = 0;
/// verdicts of the nested parsers, in the order in which they end
static mut NEST: [Res; 16] = [Res { st: 0, err: 0, idx: 0, line: 0, col: 0 }; 16];
static mut NN: usize = 0;
/// default handler alone
static mut DEFLT: bool = false;
static mut NS_ON: bool = false;

/// a text up to its end, or to the first call that does not succeed; suspensions are resumed
unsafe fn give(p: XML_Parser, d: &Doc, mode: u64) -> XML_Status {
    let k = if mode == 1 || mode == 3 { choice(d.n + 1) } else { 0 };
    let mut at = 0;
    ASKED = 0;
    loop {
        let to = match mode {
            2 if at < d.n => at + 1,
            0 => d.n,
            _ if at < k => k,
            _ => d.n,
        };
        if WHAT != 0 {
            (*R).fed = to;
        }
        let fin = to == d.n;
        let mut s = if mode == 3 { feed_move(p, d, at, to, fin) } else { feed(p, d, at, to, fin) };
        if s == XML_Status::SUSPENDED {
            s = drain(p, fin);
        }
        at = to;
        if s != XML_Status::OK || fin {
            return s;
        }
    }
}

unsafe fn begin(c: &Ctx, d: &Doc) {
    if WHAT != 0 {
        let r = run_of(d, 0, 0, true, true, NS_ON, WHAT);
        if DEFLT {
            (*r).cur = false;
        }
        (*r).seen_now(c);
    }
}

/// checks at the end of a parser's text
unsafe fn finish(d: &Doc, v: &Res) {
    if WHAT == 0 {
        return;
    }
    let r = &mut *R;
    if v.st != 1 {
        // a parameter entity without even one token: there is no position
        let none = PE[LEV] && v.idx == -1 && v.line == 1 && v.col == 0 && !r.gap && r.cnt == 0;
        if WHAT & 1 != 0 && !none {
            error_place(r, v, 0);
        }
        return;
    }
    if DEFLT {
        // what reached no other handler reached this one
        let bom = d.n >= 3 && d.at(0) == 0xef && d.at(1) == 0xbb && d.at(2) == 0xbf;
        let mut i = if bom { 3 } else { 0 };
        let mut o = 0;
        while i < d.n {
            if *r.mark.add(i) == 0 {
                check!(o < r.outn && *r.out.add(o) == d.at(i), "the default handler did not receive the text of an entity");
                o += 1;
            }
            i += 1;
        }
        check!(o == r.outn, "the default handler received more than the text of an entity");
    }
}

unsafe fn nreader(c: &mut Ctx, p: XML_Parser, ctx: *const XML_Char, _b: *const XML_Char, sys: *const XML_Char, _pub: *const XML_Char) -> c_int {
    check!(p == PS[LEV], "the handler was called for another parser");
    if LEV > 5 {
        assume(false);
    }
    let d = &*TXT[ext_index(if sys.is_null() { 0 } else { *sys as u8 })];
    let q = XML_ExternalEntityParserCreate(Some(&mut *p), ctx, std::ptr::null());
    if q.is_null() {
        return 0;
    }
    let (keep, keepr) = (c.p, R);
    LEV += 1;
    PS[LEV] = q;
    PE[LEV] = ctx.is_null();
    c.p = q;
    if WHAT != 0 && d.n >= 2 {
        assume(d.at(0) != 0 && d.at(1) != 0);
    }
    begin(c, d);
    let s = give(q, d, FEED);
    let v = res(q, s);
    finish(d, &v);
    if NN < 16 {
        NEST[NN] = v;
        NN += 1;
    }
    XML_ParserFree(q);
    LEV -= 1;
    c.p = keep;
    R = keepr;
    if WHAT != 0 {
        (*R).seen_now(c);
    }
    (s == XML_Status::OK) as c_int
}

/// the texts: p0 which, p1 free bytes per hole, p5 0 or 1 + op of h_mut, p6 which text it changes
unsafe fn texts() -> *mut Doc {
    CAP = 4096;
    let x = &X[param(0) as usize];
    let n = param(1) as usize;
    let op = param(5);
    let make = |t: &[u8], k: u64| -> *mut Doc {
        let d = zalloc(std::mem::size_of::<Doc>()) as *mut Doc;
        if op != 0 && param(6) == k {
            std::ptr::write(d, mutate(t, op - 1));
        } else {
            std::ptr::write(d, Doc::new(t.len() + 4 * n + 8));
            tpl::build(&mut *d, t, n);
        }
        d
    };
    let mut i = 0;
    while i < 4 {
        TXT[i] = make(x.2[i], i as u64);
        i += 1;
    }
    make(x.1, 4)
}

unsafe fn root(f: u64, mask: u32) -> (XML_Parser, *mut Ctx) {
    let (p, c) = parser(f, mask);
    (*c).noctx = true;
    (*c).ext = Some(nreader);
    PS[0] = p;
    PE[0] = false;
    LEV = 0;
    NN = 0;
    NS_ON = f & F_NS != 0;
    (p, c)
}
const M: u32 = H_ALL | H_UNPARSED | H_EXTERN | H_NOTSTAND;
unsafe fn mask_for(f: u64) -> u32 {
    if f & F_NS != 0 {
        M | H_NS
    } else {
        M
    }
}

/// Positions, input context, what is delivered. p2 flags, p3 how entities are fed, p4 how the document is, p7 what (1, 2)
#[no_mangle]
pub unsafe extern "C" fn h_nestpos() {
    let f = param(2);
    let doc = texts();
    let (p, c) = root(f, mask_for(f));
    (*c).hook = Some(check_hook);
    WHAT = param(7);
    FEED = param(3);
    begin(&*c, &*doc);
    let s = give(p, &*doc, param(4));
    let v = res(p, s);
    finish(&*doc, &v);
    if s == XML_Status::OK {
        reach!("accepted");
    } else {
        reach!("rejected");
    }
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parsers were freed");
    (*(*c).log).note();
}

/// Only the default handler (p7 = 0) or default handler and XML_DefaultCurrent in all content handlers (p7 = 1), besides the
/// handler for external entities. p2 - p6 as above
#[no_mangle]
pub unsafe extern "C" fn h_nestdef() {
    let f = param(2);
    let doc = texts();
    let (p, c) = root(f, H_EXTERN | if param(7) == 1 { H_CONTENT } else { 0 });
    (*c).hook = Some(check_hook);
    set_default(p, param(7) == 2, collect_and_check);
    WHAT = 4;
    DEFLT = true;
    FEED = param(3);
    begin(&*c, &*doc);
    let s = give(p, &*doc, param(4));
    let v = res(p, s);
    finish(&*doc, &v);
    if s == XML_Status::OK {
        reach!("accepted");
    } else {
        reach!("rejected");
    }
    note((*R).outn as u64);
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parsers were freed");
}

/// a text whose first bytes look like UTF-16: what it is taken for depends on whether its first byte comes alone
unsafe fn guessed_any(doc: &Doc) -> bool {
    let mut g = guessed(doc);
    let mut i = 0;
    while i < 4 {
        g = g || guessed(&*TXT[i]);
        i += 1;
    }
    g
}

unsafe fn compare_nested(a: &[Res; 16], n: usize, pos: bool) {
    check!(n == NN, "another number of entities was read");
    let mut i = 0;
    while i < n {
        let (x, y) = (&a[i], &NEST[i]);
        check!(x.st == y.st, "the verdict of a nested parser changed");
        check!(same_code(x.err, y.err), "the error code of a nested parser changed");
        if x.st != 1 && x.err == y.err && pos {
            check!(x.idx == y.idx && x.line == y.line && x.col == y.col, "the error position of a nested parser changed");
        }
        i += 1;
    }
}

/// The same with document and entities fed in pieces as with everything whole. p2 flags, p3 entities, p4 document
#[no_mangle]
pub unsafe extern "C" fn h_nestcut() {
    let f = param(2);
    let doc = &*texts();
    let (p, c1) = root(f, mask_for(f));
    (*c1).hook = Some(pos_hook);
    let s = give(p, doc, 0);
    let r1 = res(p, s);
    XML_ParserFree(p);
    let (a, n) = (NEST, NN);
    (*(*c1).log).note();
    let (p, c2) = root(f, mask_for(f));
    (*c2).hook = Some(pos_hook);
    FEED = param(3);
    let s = give(p, doc, param(4));
    let r2 = res(p, s);
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parsers were freed");
    if guessed_any(doc) {
        return;
    }
    compare_runs(&r1, &*(*c1).log, &r2, &*(*c2).log, false);
    compare_nested(&a, n, true);
}

/// which parser is stopped: 0 the one whose handler it is, 1 the document's
static mut WHO: usize = 0;
static mut STOPPED: [bool; 8] = [false; 8];
static mut STOP_EV: [usize; 8] = [0; 8];
static mut STOP_IDX: [i64; 8] = [0; 8];
static mut STOP_TAG: [u8; 8] = [0; 8];
static mut REFUSED: bool = false;
static mut ABORTED: usize = 99;
/// end of the log before the declaration of an entity after an abort: its value may have been cut short
static mut FROZEN: bool = false;
static mut SAFE: usize = 0;

unsafe fn nstop(c: &mut Ctx, t: u8) {
    let ev = (*c.log).events;
    if STOPPED[LEV] && STOP_EV[LEV] != ev {
        let (st, _) = status(c.p);
        if st != ST_PARSING {
            let o = STOP_TAG[LEV];
            let ok = match t {
                b'n' => o == b'N' || o == b'S' || o == b'E' || o == b'n',
                b'E' => o == b'N' || o == b'S',
                b'N' | b'S' => o == b'N',
                b'T' | b']' => o == b'[',
                // the rest of the token in which entities are read
                b'e' | b'R' | b'Q' | b'L' => (o == b'd' || o == b'R' || o == b'Q' || o == b'e') && STOP_IDX[LEV] == XML_GetCurrentByteIndex(c.p),
                _ => false,
            };
            check!(ok, "events go on after the parser was stopped");
        }
    }
    FROZEN = FROZEN || t == b'L' && ABORTED != 99;
    if !FROZEN {
        SAFE = (*c.log).n;
    }
    if c.b == 0 {
        return;
    }
    c.b -= 1;
    if c.b != 0 {
        return;
    }
    let w = if WHO == 0 { LEV } else { 0 };
    let q = PS[w];
    let (st, _) = status(q);
    if st == ST_PARSING {
        let r = XML_StopParser(q, c.d == 1);
        if c.d == 1 && PE[w] {
            check!(r == XML_Status::ERROR && XML_GetErrorCode(q) == 37, "a parser that reads a parameter entity was suspended");
            check!(status(q).0 == ST_PARSING, "a refused suspension changed the state");
            reach!("refused");
            REFUSED = true;
        } else {
            check!(r == XML_Status::OK, "stopping inside a handler failed");
            check!(status(q).0 == if c.d == 1 { ST_SUSP } else { ST_FINISHED }, "status after stopping");
            reach!("stopped");
            if LEV > 0 {
                reach!("nested");
            }
            STOPPED[w] = true;
            STOP_EV[w] = ev;
            STOP_IDX[w] = XML_GetCurrentByteIndex(q);
            // a parser stopped while a nested one is at work goes on to the end of its reference
            STOP_TAG[w] = if w == LEV { t } else { b'R' };
            if c.d == 0 {
                ABORTED = w;
                c.c = ev as u64;
            }
        }
    }
    if c.c == 1 && c.d == 1 {
        c.b = 1;
    }
}

/// Suspended in any handler of any of the parsers (p7 + 0: that parser, + 1: the document's; + 2: at every event; + 4: aborted)
/// and resumed: the same events. p2 flags, p3, p4 as above
#[no_mangle]
pub unsafe extern "C" fn h_nestsusp() {
    let f = param(2);
    let doc = &*texts();
    let (p, c1) = root(f, mask_for(f));
    let s = give(p, doc, 0);
    let r1 = res(p, s);
    XML_ParserFree(p);
    let (a, n) = (NEST, NN);
    let (p, c2) = root(f, mask_for(f));
    (*c2).hook = Some(nstop);
    (*c2).d = (param(7) & 4 == 0) as u64;
    WHO = (param(7) & 1) as usize;
    if param(7) & 2 != 0 {
        (*c2).b = 1;
        (*c2).c = 1;
    } else {
        let e = (*(*c1).log).events;
        if e == 0 {
            return;
        }
        (*c2).b = 1 + choice(e) as u64;
    }
    FEED = param(3);
    let s = give(p, doc, param(4));
    let mut r2 = res(p, s);
    let st2 = status(p).0;
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parsers were freed");
    if param(3) != 0 && guessed_any(doc) {
        return;
    }
    let (l1, l2) = (&*(*c1).log, &*(*c2).log);
    l2.note();
    if (*c2).d == 1 {
        r2.idx = r1.idx;
        r2.line = r1.line;
        r2.col = r1.col;
        compare_runs(&r1, l1, &r2, l2, param(3) + param(4) != 0 && r1.st != 1);
        compare_nested(&a, n, false);
        return;
    }
    if ABORTED == 99 {
        return;
    }
    reach!("aborted");
    check!(s == XML_Status::ERROR, "an aborted parse succeeded");
    check!(ABORTED != 0 || st2 == ST_FINISHED, "status after an aborted parse");
    // an error of the document's parser may lie before the event it is found behind
    let e = r2.err;
    if ABORTED == 0 {
        check!(e == 35 || e == 21 && r1.err == 21 || e == r1.err, "an aborted parse reports another error");
    } else {
        check!(e == 21 || e == r1.err, "a parse whose nested parser was aborted reports another error");
    }
    check!(SAFE <= l1.n && bytes_eq(l1.kind, l2.kind, SAFE) && bytes_eq(l1.buf, l2.buf, SAFE), "events before an abort are not a prefix of the document's events");
}

/// the last declaration of an entity in the log
static mut LS: usize = 0;
static mut LE: usize = 0;
/// end of the log after the last event that is not the end of a namespace scope
unsafe fn nmark(c: &mut Ctx, t: u8) {
    if t != b'n' {
        c.a = (*c.log).n as u64;
    }
    if t == b'L' {
        LE = (*c.log).n;
        LS = LE;
        while LS > 0 && *(*c.log).kind.add(LS) != K_TAG {
            LS -= 1;
        }
    }
}

/// Allocation failures. p2 flags, p3, p4 as above, p7 highest ordinal * 2 + (0 that one fails, 1 and all later ones)
#[no_mangle]
pub unsafe extern "C" fn h_nestoom() {
    let f = param(2);
    let doc = &*texts();
    FEED = param(3);
    arm_failure(0, false);
    let (p, c1) = root(f, mask_for(f));
    let s = give(p, doc, param(4));
    let r1 = res(p, s);
    XML_ParserFree(p);
    let total = ALLOCS;
    check!(LIVE == 0, "memory still allocated after the parsers were freed");
    let (a, n) = (NEST, NN);
    let k = 1 + choice((param(7) / 2) as usize);
    if k > total {
        return;
    }
    let c2 = Ctx::new();
    arm_failure(k, param(7) & 1 == 1);
    let p = if f & F_NS != 0 { XML_ParserCreateNS(std::ptr::null(), sep_of(f) as XML_Char) } else { XML_ParserCreate(std::ptr::null()) };
    if p.is_null() {
        arm_failure(0, false);
        check!(LIVE == 0, "a parser that could not be created leaks memory");
        return;
    }
    setup(p, c2, f, mask_for(f));
    (*c2).noctx = true;
    (*c2).ext = Some(nreader);
    (*c2).hook = Some(nmark);
    PS[0] = p;
    LEV = 0;
    NN = 0;
    let s = give(p, doc, param(4));
    let r2 = res(p, s);
    arm_failure(0, false);
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parsers were freed");
    let (l1, l2) = (&*(*c1).log, &*(*c2).log);
    l2.note();
    if r2.st == 1 {
        check!(r1.st == 1 && l1.same(l2), "an allocation failure was swallowed and changed the events");
    } else if r2.err == 1 || r2.err == 21 {
        reach!("no memory");
        let mut n = (*c2).a as usize;
        if n == LE {
            // its value may have been cut short
            n = LS;
        }
        check!(n <= l1.n && bytes_eq(l1.kind, l2.kind, n) && bytes_eq(l1.buf, l2.buf, n), "events before the failure are not a prefix of the document's events");
    } else {
        check!(r1.st == 0 && r1.err == r2.err, "an allocation failure is reported as another error");
        compare_nested(&a, n, true);
    }
}

unsafe fn stop6(c: &mut Ctx, _t: u8) {
    if c.b > 0 {
        c.b -= 1;
        if c.b == 0 {
            XML_StopParser(PS[WHO * LEV], c.d == 1);
        }
    }
}
/// leaves a suspended parser as it is
unsafe fn carefree(c: &mut Ctx, p: XML_Parser, ctx: *const XML_Char, _b: *const XML_Char, sys: *const XML_Char, _pub: *const XML_Char) -> c_int {
    if LEV > 5 {
        assume(false);
    }
    let d = &*TXT[ext_index(if sys.is_null() { 0 } else { *sys as u8 })];
    let q = XML_ExternalEntityParserCreate(Some(&mut *p), ctx, std::ptr::null());
    if q.is_null() {
        return 0;
    }
    let keep = c.p;
    LEV += 1;
    PS[LEV] = q;
    c.p = q;
    let s = feed(q, d, 0, d.n, true);
    XML_ParserFree(q);
    LEV -= 1;
    c.p = keep;
    (s != XML_Status::ERROR) as c_int
}

/// Reset after a document with nested parsers, which was finished (p3 = 0), abandoned at any cut (1), stopped at one of the first
/// 20 events (2 suspended, 3 aborted; + 4: the nested parser is), then another one (p4). p7: free bytes of the second
#[no_mangle]
pub unsafe extern "C" fn h_nestreset() {
    let f = param(2);
    let how = param(3);
    let doc = &*texts();
    let (p, c) = root(f, mask_for(f));
    (*c).ext = Some(carefree);
    XML_SetBase(p, ename(b"base"));
    WHO = (how >= 4) as usize;
    if how & 3 >= 2 {
        (*c).b = 1 + choice(20) as u64;
        (*c).d = (how & 3 == 2) as u64;
        (*c).hook = Some(stop6);
    }
    if how == 1 {
        let k = choice(doc.n + 1);
        let _ = feed(p, doc, 0, k, false);
    } else {
        let _ = feed(p, doc, 0, doc.n, true);
    }
    check!(XML_ParserReset(p, std::ptr::null()), "resetting the parser failed");
    reach!("reset");
    check!(XML_GetBase(p).is_null(), "the base survives a reset");
    check!(XML_GetErrorCode(p) == 0, "the error code survives a reset");
    check!(status(p).0 == 0, "the state survives a reset");
    // the second document
    let x = &X[param(4) as usize];
    let mk = |t: &[u8]| -> *mut Doc {
        let d = zalloc(std::mem::size_of::<Doc>()) as *mut Doc;
        std::ptr::write(d, Doc::new(t.len() + 16));
        tpl::build(&mut *d, t, param(7) as usize);
        d
    };
    let d2 = &*mk(x.1);
    let mut i = 0;
    while i < 4 {
        TXT[i] = mk(x.2[i]);
        i += 1;
    }
    let c2 = Ctx::new();
    setup(p, c2, f & !F_TRIP, mask_for(f));
    (*c2).noctx = true;
    (*c2).ext = Some(nreader);
    (*c2).hook = Some(pos_hook);
    PS[0] = p;
    LEV = 0;
    NN = 0;
    let r2 = parse_all(p, d2);
    XML_ParserFree(p);
    let (a, n) = (NEST, NN);
    let (q, c3) = root(f, mask_for(f));
    (*c3).hook = Some(pos_hook);
    let r3 = parse_all(q, d2);
    XML_ParserFree(q);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c2).log).note();
    check!(r2 == r3, "verdict after a reset differs from a new parser's");
    check!((*(*c2).log).same(&*(*c3).log), "events after a reset differ from a new parser's");
    compare_nested(&a, n, true);
}
