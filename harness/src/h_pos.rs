//! Positions, input context, default handler.
use crate::ctx::*;
use crate::env::*;
use crate::rt::*;
use crate::tpl;
use libc::{c_int, c_void};

/// what the hook needs to know about the run
pub struct Run {
    /// the document as fed and its encoding
    pub b: *const u8,
    pub n: usize,
    k: u64,
    bom: usize,
    /// how much has been handed over so far
    pub fed: usize,
    /// entities are declared: events may come from a reference
    ents: bool,
    /// parameter entities are used
    pes: bool,
    ns: bool,
    /// last event
    pub idx: usize,
    pub cnt: usize,
    /// every byte so far belongs to an event
    tile: bool,
    pub gap: bool,
    /// end of log at the last event
    seen: usize,
    /// call XML_DefaultCurrent in every handler but the default handler
    pub cur: bool,
    /// what to check: 1 positions, 2 input context, 4 what was delivered
    pub what: u64,
    /// while in XML_DefaultCurrent: number of bytes received
    active: bool,
    got: usize,
    /// bytes that belong to an event some other handler received
    pub mark: *mut u8,
    pub out: *mut u8,
    pub outn: usize,
    /// incremental line and column
    at: usize,
    pub line: u64,
    pub col: u64,
    cr: bool,
}
pub static mut R: *mut Run = std::ptr::null_mut();

unsafe fn unit(r: &Run, i: usize) -> u32 {
    match r.k {
        K_16LE => *r.b.add(i) as u32 | (*r.b.add(i + 1) as u32) << 8,
        K_16BE => *r.b.add(i + 1) as u32 | (*r.b.add(i) as u32) << 8,
        _ => *r.b.add(i) as u32,
    }
}
fn width(k: u64) -> usize {
    if k == K_16LE || k == K_16BE {
        2
    } else {
        1
    }
}

impl Run {
    /// what the log holds up to now is nobody's event
    pub unsafe fn seen_now(&mut self, c: &Ctx) {
        self.seen = (*c.log).n;
    }
}

/// count lines and columns up to byte `to`
pub unsafe fn advance(r: &mut Run, to: usize) {
    let w = width(r.k);
    while r.at + w <= to {
        let c = unit(r, r.at);
        r.at += w;
        if c == 10 {
            if !r.cr {
                r.line += 1;
            }
            r.col = 0;
            r.cr = false;
        } else if c == 13 {
            r.line += 1;
            r.col = 0;
            r.cr = true;
        } else {
            r.cr = false;
            let cont = match r.k {
                K_16LE | K_16BE => c & 0xfc00 == 0xdc00,
                K_LATIN1 | K_ASCII => false,
                _ => c & 0xc0 == 0x80,
            };
            if !cont {
                r.col += 1;
            }
        }
    }
}

/// literal at unit offset `i` units after byte `at`
unsafe fn lit(r: &Run, at: usize, s: &[u8]) -> bool {
    let w = width(r.k);
    if at + w * s.len() > r.n {
        return false;
    }
    let mut i = 0;
    while i < s.len() {
        if unit(r, at + w * i) != s[i] as u32 {
            return false;
        }
        i += 1;
    }
    true
}
unsafe fn framed(r: &Run, i: usize, e: usize, a: &[u8], z: &[u8]) -> bool {
    let w = width(r.k);
    e >= i + w * (a.len() + z.len()) && lit(r, i, a) && lit(r, e - w * z.len(), z)
}

/// is [i, e) one reference?
unsafe fn reference(r: &Run, i: usize, e: usize) -> bool {
    let w = width(r.k);
    if !framed(r, i, e, b"&", b";") && !framed(r, i, e, b"%", b";") {
        return false;
    }
    let mut j = i + w;
    while j + w < e {
        let c = unit(r, j);
        if c == b';' as u32 || c == b'&' as u32 || c == b'<' as u32 {
            return false;
        }
        j += w;
    }
    true
}

/// is `i` inside a declaration that begins with `s`?
unsafe fn within(r: &Run, i: usize, s: &[u8]) -> bool {
    let w = width(r.k);
    let mut j = i;
    loop {
        if lit(r, j, s) {
            return true;
        }
        if lit(r, j, b"<!ENTITY") || lit(r, j, b"<!ATTLIST") || lit(r, j, b"<!ELEMENT") || lit(r, j, b"<!NOTATION") || lit(r, j, b"<!DOCTYPE") {
            return false;
        }
        if j < w {
            return false;
        }
        j -= w;
    }
}

unsafe fn context(r: &Run, p: XML_Parser, i: usize, n: usize) {
    let mut off: c_int = -1;
    let mut size: c_int = -1;
    let q = XML_GetInputContext(p, &mut off, &mut size);
    check!(!q.is_null(), "no input context inside a handler");
    check!(off >= 0 && size >= 0 && off as usize <= i && off as usize + n <= size as usize, "the input context does not contain the event");
    check!(off as usize == i || off >= 1024, "the input context does not reach back far enough");
    check!(i - off as usize + size as usize == r.fed, "the input context does not end with the data fed so far");
    check!(bytes_eq(q as *const u8, r.b.add(i - off as usize), size as usize), "the input context is not a piece of the document");
}

pub unsafe fn check_hook(c: &mut Ctx, t: u8) {
    let r = &mut *R;
    let l = &*c.log;
    if r.active {
        return;
    }
    let idx = XML_GetCurrentByteIndex(c.p);
    let cnt = XML_GetCurrentByteCount(c.p);
    if r.what & 1 == 0 && !(idx >= 0 && cnt >= 0 && idx as usize + cnt as usize <= r.fed) {
        // positions are the subject of another check
        return;
    }
    check!(idx >= 0 && cnt >= 0 && idx as usize + cnt as usize <= r.fed, "an event lies outside the data fed so far");
    let (i, n) = (idx as usize, cnt as usize);
    let e = i + n;
    // never backwards, never overlapping
    if r.what & 1 != 0 {
        check!(i >= r.idx, "an event lies before the previous one");
        check!(i == r.idx || i >= r.idx + r.cnt, "an event overlaps the previous one");
    }
    if i > r.idx + r.cnt {
        r.gap = true;
    }
    r.idx = i;
    r.cnt = n;
    // line and column
    advance(r, i);
    if r.what & 1 != 0 {
        check!(XML_GetCurrentColumnNumber(c.p) as u64 == r.col, "wrong column number");
        check!(XML_GetCurrentLineNumber(c.p) as u64 == r.line, "wrong line number");
    }
    // the input context
    if r.what & 2 != 0 {
        context(r, c.p, i, n);
    }
    // the construct
    let inref = r.ents && reference(r, i, e);
    let w = width(r.k);
    if !inref && r.what & 1 != 0 {
        let ok = match t {
            b'S' | b'N' => framed(r, i, e, b"<", b">"),
            b'E' | b'n' => framed(r, i, e, b"</", b">") || n == 0 && i >= 3 * w && lit(r, i - 2 * w, b"/>") || framed(r, i, e, b"<", b"/>"),
            b'P' => framed(r, i, e, b"<?", b"?>"),
            b'C' => framed(r, i, e, b"<!--", b"-->"),
            b'X' => framed(r, i, e, b"<?xml", b"?>"),
            b'[' => framed(r, i, e, b"<![CDATA[", b"") && n == 9 * w,
            b']' => framed(r, i, e, b"]]>", b"") && n == 3 * w,
            b'K' | b'R' => reference(r, i, e) || r.pes,
            b'T' | b'D' => n > 0,
            b'L' | b'U' => r.pes || within(r, i, b"<!ENTITY"),
            b'A' => r.pes || within(r, i, b"<!ATTLIST"),
            b'M' => r.pes || within(r, i, b"<!ELEMENT"),
            b'O' => r.pes || within(r, i, b"<!NOTATION"),
            b'd' => within(r, i, b"<!DOCTYPE"),
            b'Q' => r.pes || within(r, i, b"<!DOCTYPE"),
            b'e' => lit(r, i, b">"),
            _ => false,
        };
        check!(ok, "the event's position is not that of its construct");
    }
    // what was delivered
    let mut s = r.seen;
    r.seen = l.n;
    if s < l.n && *l.kind.add(s) == K_TAG {
        s += 1;
    }
    let m = l.n - s;
    if !inref && r.what & 4 != 0 && std::mem::size_of::<XML_Char>() == 1 && r.k == K_UTF8 {
        let p = l.buf.add(s);
        if t == b'D' {
            check!(m == n && bytes_eq(p, r.b.add(i), n), "the default handler received something other than the text of the construct");
        } else if t == b'T' {
            let f = *r.b.add(i);
            if f == b'\r' || f == b'\n' {
                check!(m == 1 && *p == b'\n' && (n == 1 || n == 2 && f == b'\r' && *r.b.add(i + 1) == b'\n'), "a line end was not reported as one");
            } else if f != b'&' {
                check!(m == n && bytes_eq(p, r.b.add(i), n), "the text handler received something other than the text");
            }
        } else if t == b'S' && !r.ns {
            let mut j = 0;
            while *l.kind.add(s + j) == K_DATA {
                check!(*p.add(j) == *r.b.add(i + 1 + j), "the name at the event's position is another one");
                j += 1;
            }
        } else if (t == b'E' && n != 0) && !r.ns {
            let k = if *r.b.add(i + 1) == b'/' { 2 } else { 1 };
            check!(bytes_eq(p, r.b.add(i + k), m - 1), "the name at the event's position is another one");
        }
    }
    // the handler that reads the external subset at the end of the declaration does not receive the '>'
    if t != b'D' && !(t == b'R' && lit(r, i, b">")) {
        libc::memset(r.mark.add(i) as *mut c_void, 1, n);
    }
    if r.cur && t != b'D' && n != 0 {
        r.active = true;
        r.got = r.outn;
        XML_DefaultCurrent(c.p);
        r.active = false;
        if !inref && r.k == K_UTF8 && std::mem::size_of::<XML_Char>() == 1 {
            check!(r.outn == r.got + n && bytes_eq(r.out.add(r.got), r.b.add(i), n), "passing an event on did not deliver its text");
        }
    }
}

unsafe extern "C" fn collect(_u: *mut c_void, s: *const XML_Char, n: c_int) {
    let r = &mut *R;
    let mut i = 0;
    while i < n as isize {
        let c = *s.offset(i) as u32;
        if std::mem::size_of::<XML_Char>() > 1 {
            *r.out.add(r.outn) = (c >> 8) as u8;
            r.outn += 1;
        }
        *r.out.add(r.outn) = c as u8;
        r.outn += 1;
        i += 1;
        if r.outn > CAP - 4 {
            fail!("harness: output overflow");
        }
    }
}
/// default handler that goes through the position checks, too
pub unsafe extern "C" fn collect_and_check(u: *mut c_void, s: *const XML_Char, n: c_int) {
    collect(u, s, n);
    let r = &mut *R;
    if r.active {
        return;
    }
    let c = &mut *(u as *mut Ctx);
    let l = &mut *c.log;
    l.clear();
    r.seen = 0;
    l.tag(b'D');
    l.strn(s, n);
    check_hook(c, b'D');
}

unsafe fn run(b: &Doc, k: u64, bom: usize, t: u64, ns: bool, what: u64) -> *mut Run {
    run_of(b, k, bom, has(t, b"<!ENTITY"), has(t, b"<!ENTITY %"), ns, what)
}
pub unsafe fn run_of(b: &Doc, k: u64, bom: usize, ents: bool, pes: bool, ns: bool, what: u64) -> *mut Run {
    let r = zalloc(std::mem::size_of::<Run>()) as *mut Run;
    (*r).b = b.b;
    (*r).n = b.n;
    (*r).k = if k == 0 { K_UTF8 } else { k };
    (*r).bom = bom;
    (*r).ents = ents;
    (*r).pes = pes;
    (*r).ns = ns;
    (*r).idx = bom;
    (*r).line = 1;
    (*r).what = what;
    if width((*r).k) == 1 && b.n >= 2 {
        // the encoding of such a document is taken from its first bytes
        let (x, y) = (b.at(0), b.at(1));
        assume(x != 0 && y != 0 && !(x == 0xfe && y == 0xff) && !(x == 0xff && y == 0xfe));
    }
    (*r).out = zalloc(CAP);
    (*r).mark = zalloc(b.n + 1);
    R = r;
    r
}

/// mode: 0 whole, 1 two chunks cut anywhere, 2 byte by byte, 3 two chunks through XML_GetBuffer
unsafe fn go(p: XML_Parser, d: &Doc, mode: u64) -> XML_Status {
    let r = &mut *R;
    let k = if mode == 1 || mode == 3 { choice(d.n) } else { 0 };
    let mut at = 0;
    loop {
        let to = match mode {
            2 => at + 1,
            0 => d.n,
            _ if at < k => k,
            _ => d.n,
        };
        r.fed = to;
        let s = if mode == 3 { feed_buffer(p, d, at, to, to == d.n) } else { feed(p, d, at, to, to == d.n) };
        at = to;
        if s != XML_Status::OK || at == d.n {
            return s;
        }
    }
}

unsafe fn has(t: u64, s: &[u8]) -> bool {
    tpl::T[t as usize].1.windows(s.len()).any(|w| w == s)
}

/// p0 template, p1 free units, p2 flags, p3 mask, p4 mode, p5 encoding (0 = UTF-8; others with byte order mark or declared from outside),
/// p6 what to check, p7 number of line ends before the document
#[no_mangle]
pub unsafe extern "C" fn h_pos() {
    let f = param(2);
    let k = param(5);
    let mask = mask_of(param(3));
    let bom = if k == K_16LE || k == K_16BE { 2 } else { 0 };
    let t = tpl::T[param(0) as usize].1;
    let fill = param(7) as usize;
    let kk = if k == 0 { K_UTF8 } else { k };
    let mut pr = Pair { enc: Doc::new(2 * t.len() + 128 + 2 * fill), u8: Doc::new(3 * t.len() + 128 + 2 * fill), bad: false };
    add(&mut pr, b"", 0, kk, bom != 0);
    let mut i = 0;
    while i < fill {
        add(&mut pr, if i % 7 == 3 { b"\r" } else { b"\n" }, 0, kk, false);
        i += 1;
    }
    add(&mut pr, t, param(1) as usize, kk, false);
    let d = pr.enc;
    if d.n == 0 {
        return;
    }
    let r = run(&d, k, bom, param(0), f & F_NS != 0, if param(6) == 0 { 7 } else { param(6) });
    let en = match k {
        K_LATIN1 => ename(b"ISO-8859-1"),
        K_ASCII => ename(b"US-ASCII"),
        _ => std::ptr::null(),
    };
    let (p, c) = parser_enc(f, mask, en);
    (*c).hook = Some(check_hook);
    let mut off: c_int = 0;
    let mut size: c_int = 0;
    check!(XML_GetInputContext(p, &mut off, &mut size).is_null(), "an input context before parsing");
    let s = go(p, &d, param(4));
    let v = res(p, s);
    if s == XML_Status::OK {
        reach!("accepted");
    } else {
        reach!("rejected");
        let q = XML_GetInputContext(p, &mut off, &mut size);
        if (*r).what & 2 != 0 {
            check!(q.is_null() || off >= 0 && off <= size && size as usize <= (*r).fed, "the input context after an error lies outside the data");
        }
        if (*r).what & 1 != 0 {
            error_place(&mut *r, &v, bom);
        }
    }
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c).log).note();
}
pub const E_MISMATCH: u32 = 7;

/// where an error is reported
pub unsafe fn error_place(r: &mut Run, v: &Res, bom: usize) {
    check!(v.idx >= r.idx as i64 && v.idx as usize <= r.fed, "the error position does not lie behind the last event in the document");
    if r.k == K_UTF8 && v.err == E_MISMATCH {
        // the name of the end tag
        check!(v.idx >= 2 && *r.b.add(v.idx as usize - 2) == b'<' && *r.b.add(v.idx as usize - 1) == b'/', "a mismatched end tag is reported elsewhere");
    }
    // where the parser stopped within a character there is no character to count
    if !(bom == 2 && (v.idx & 1 != 0)) {
        advance(r, v.idx as usize);
        check!(v.line == r.line && v.col == r.col, "line and column of the error do not belong to its index");
    }
}

pub unsafe fn set_default(p: XML_Parser, expand: bool, f: unsafe extern "C" fn(*mut c_void, *const XML_Char, c_int)) {
    if expand {
        XML_SetDefaultHandlerExpand(p, Some(f));
    } else {
        XML_SetDefaultHandler(p, Some(f));
    }
}

/// the text the default handler must have received in total: the document in the parser's output encoding
unsafe fn check_output(r: &Run, u: &Doc, skip: usize) {
    if std::mem::size_of::<XML_Char>() == 1 {
        check!(r.outn == u.n - skip && bytes_eq(r.out, u.b.add(skip), r.outn), "what the default handler received is not the document");
        return;
    }
    let mut i = skip;
    let mut o = 0;
    while i < u.n {
        let (c, n) = decode(u.b, i, u.n);
        i += n;
        if c >= 0x10000 {
            let x = c - 0x10000;
            let h = 0xd800 + (x >> 10);
            let g = 0xdc00 + (x & 0x3ff);
            check!(o + 4 <= r.outn && *r.out.add(o) == (h >> 8) as u8 && *r.out.add(o + 1) == h as u8 && *r.out.add(o + 2) == (g >> 8) as u8 && *r.out.add(o + 3) == g as u8, "what the default handler received is not the document");
            o += 4;
        } else {
            check!(o + 2 <= r.outn && *r.out.add(o) == (c >> 8) as u8 && *r.out.add(o + 1) == c as u8, "what the default handler received is not the document");
            o += 2;
        }
    }
    check!(o == r.outn, "the default handler received more than the document");
}

/// only the default handler (p3 = 0: XML_SetDefaultHandler, 1: ...Expand, 2: all content handlers pass their
/// events on): it receives the whole document.
/// p0 template, p1 free units, p2 flags, p4 mode, p5 encoding
#[no_mangle]
pub unsafe extern "C" fn h_def() {
    let f = param(2);
    let k = param(5);
    let how = param(3);
    let bom = k == K_16LE || k == K_16BE;
    let pr = pair(tpl::T[param(0) as usize].1, param(1) as usize, if k == 0 { K_UTF8 } else { k }, bom);
    if pr.enc.n == 0 || pr.bad {
        return;
    }
    let r = run(&pr.enc, k, if bom { 2 } else { 0 }, param(0), f & F_NS != 0, 4);
    let en = match k {
        K_LATIN1 => ename(b"ISO-8859-1"),
        K_ASCII => ename(b"US-ASCII"),
        _ => std::ptr::null(),
    };
    let m = if how == 2 { H_CONTENT } else { 0 };
    let (p, c) = parser_enc(f, m, en);
    (*r).cur = how == 2;
    (*c).hook = Some(check_hook);
    set_default(p, how == 1, collect_and_check);
    let s = go(p, &pr.enc, param(4));
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    if s == XML_Status::OK {
        reach!("accepted");
        check!(!(*r).gap, "something was reported to no handler");
        check!((*r).idx + (*r).cnt == pr.enc.n, "the end of the document was reported to no handler");
        let u = &pr.u8;
        let utf8bom = u.n >= 3 && u.at(0) == 0xef && u.at(1) == 0xbb && u.at(2) == 0xbf;
        if how != 1 || !(*r).ents {
            check_output(&*r, u, if utf8bom { 3 } else { 0 });
        }
    } else {
        reach!("rejected");
    }
    note((*r).outn as u64);
}

/// mark the declarations of the internal subset that begin with `kw`, or (empty `kw`) the document type
/// declaration without its internal subset
unsafe fn mark_decls(r: &Run, kw: &[u8]) {
    let mut i = r.bom;
    let mut subset = false;
    while i < r.n {
        let c = *r.b.add(i);
        let mut e = i + 1;
        if lit(r, i, b"<!--") {
            e = i + 4;
            while !lit(r, e, b"-->") {
                e += 1;
            }
            i = e + 3;
            continue;
        }
        if lit(r, i, b"<?") {
            while !lit(r, e, b"?>") {
                e += 1;
            }
            i = e + 2;
            continue;
        }
        if c == b']' && subset {
            while *r.b.add(e) != b'>' {
                e += 1;
            }
            e += 1;
            if kw.len() == 0 {
                libc::memset(r.mark.add(i) as *mut c_void, 1, e - i);
            }
            return;
        }
        if c == b'<' && *r.b.add(i + 1) == b'!' {
            let dt = lit(r, i, b"<!DOCTYPE");
            let mut q = 0;
            loop {
                let x = *r.b.add(e);
                e += 1;
                if q != 0 {
                    if x == q {
                        q = 0;
                    }
                } else if x == b'"' || x == b'\'' {
                    q = x;
                } else if x == b'>' || dt && x == b'[' {
                    break;
                }
            }
            if if kw.len() == 0 { dt } else { lit(r, i, kw) } {
                libc::memset(r.mark.add(i) as *mut c_void, 1, e - i);
            }
            if dt {
                if *r.b.add(e - 1) == b'>' {
                    return;
                }
                subset = true;
            }
        } else if c == b'<' {
            return;
        }
        i = e;
    }
}

/// some handlers and the default handler: it receives exactly what the others do not.
/// p0 template, p1 free bytes, p2 flags, p3: 0 any subset of the content handlers, 1 any one declaration handler
#[no_mangle]
pub unsafe extern "C" fn h_rest() {
    let f = param(2);
    let d = tpl::doc(param(0), param(1));
    if d.n == 0 {
        return;
    }
    let bom = if d.n >= 3 && d.at(0) == 0xef && d.at(1) == 0xbb && d.at(2) == 0xbf { 3 } else { 0 };
    let r = run(&d, 0, bom, param(0), f & F_NS != 0, 4);
    let sub = param(3);
    const DECL: [(u32, &[u8]); 6] = [(H_DOCTYPE, b""), (H_ENTITY, b"<!ENTITY"), (H_NOTATION, b"<!NOTATION"), (H_ELDECL, b"<!ELEMENT"), (H_ATTLIST, b"<!ATTLIST"), (H_XMLDECL, b"<?xml")];
    let x = choice(if sub == 0 { 32 } else { DECL.len() });
    let m = if sub == 0 { x as u32 } else { DECL[x].0 };
    let (p, c) = parser(f, m);
    if m & H_ELEM != 0 {
        let h = choice(3);
        if h == 1 {
            XML_SetStartElementHandler(p, None);
        } else if h == 2 {
            XML_SetEndElementHandler(p, None);
        }
    }
    (*c).hook = Some(check_hook);
    set_default(p, false, collect_and_check);
    let s = go(p, &d, 0);
    XML_ParserFree(p);
    if s == XML_Status::OK {
        reach!("accepted");
        if sub == 1 && m != H_XMLDECL {
            mark_decls(&*r, DECL[x].1);
        }
        let mut i = bom;
        let mut o = 0;
        while i < d.n {
            if *(*r).mark.add(i) == 0 {
                check!(o < (*r).outn && *(*r).out.add(o) == d.at(i), "the default handler did not receive exactly the constructs without a handler");
                o += 1;
            }
            i += 1;
        }
        check!(o == (*r).outn, "the default handler received more than the constructs without a handler");
    } else {
        reach!("rejected");
    }
    note((*r).outn as u64);
}
