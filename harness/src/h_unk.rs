//! Encodings supplied by the application.
use crate::ctx::*;
use crate::env::*;
use crate::h_enc::{lc_hook, no_elements};
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;
use libc::{c_char, c_int, c_void};

/// the single-byte unit and the first byte of the multi-byte unit
const SINGLE: usize = 0xa5;
const LEAD: usize = 0xf6;
/// what follows the first byte: looks like markup on its own
const TRAIL: &[u8] = b"<&]";

static mut IDX: [usize; 2] = [0; 2];
static mut VAL: [c_int; 2] = [0; 2];
static mut NIDX: usize = 0;
static mut CONV: bool = false;
static mut CONV_RET: c_int = 0;
static mut CONV_LEN: usize = 0;
static mut RET: c_int = 1;
static mut RELEASE: bool = true;
static mut RELEASED: usize = 0;
static mut ASKED: usize = 0;
static mut TOKEN: u8 = 0;

unsafe extern "C" fn release(d: *mut c_void) {
    check!(d == &mut TOKEN as *mut u8 as *mut c_void, "the release function gets other data");
    RELEASED += 1;
}

unsafe extern "C" fn convert(d: *mut c_void, s: *const c_char) -> c_int {
    check!(d == &mut TOKEN as *mut u8 as *mut c_void, "the converter gets other data");
    check!(RELEASED == 0, "the converter is used after it was released");
    let s = s as *const u8;
    check!(*s as usize == LEAD, "the converter is asked about a byte that starts no sequence");
    let mut i = 1;
    while i < CONV_LEN {
        check!(*s.add(i) == TRAIL[i - 1], "the converter is asked about another sequence than the document's");
        i += 1;
    }
    CONV_RET
}

unsafe fn handler(_c: &mut Ctx, n: *const XML_Char, info: *mut XML_Encoding) -> c_int {
    ASKED += 1;
    let want = b"x-map";
    let mut i = 0;
    while i < want.len() {
        check!(*n.add(i) == want[i] as XML_Char, "the encoding handler is asked for another name");
        i += 1;
    }
    check!(*n.add(i) == 0, "the encoding handler is asked for another name");
    let mut i = 0;
    while i < 256 {
        (*info).map[i] = if i < 0x80 { i as c_int } else { -1 };
        i += 1;
    }
    let mut i = 0;
    while i < NIDX {
        (*info).map[IDX[i]] = VAL[i];
        i += 1;
    }
    (*info).data = &mut TOKEN as *mut u8 as *mut c_void;
    (*info).convert = if CONV { Some(convert) } else { None };
    (*info).release = if RELEASE { Some(release) } else { None };
    RET
}

unsafe fn int32() -> c_int {
    (byte() as u32 | (byte() as u32) << 8 | (byte() as u32) << 16 | (byte() as u32) << 24) as c_int
}

/// the ASCII characters whose byte must stand for themselves
fn fixed(c: c_int) -> bool {
    let special = c == '$' as c_int || c == '@' as c_int || c == '\\' as c_int || c == '^' as c_int || c == '`' as c_int || c == '{' as c_int || c == '}' as c_int || c == '~' as c_int;
    (c == 9 || c == 10 || c == 13 || c >= 0x20 && c < 0x7f) && !special
}

fn legal(i: c_int, v: c_int, conv: bool) -> bool {
    if v < -4 || v > 0xffff || v <= -2 && !conv {
        return false;
    }
    if fixed(i) || fixed(v) {
        return v == i;
    }
    true
}

unsafe fn decl(how: u64) -> &'static [u8] {
    match how {
        1 | 2 => b"",
        3 => b"<?xml version='1.0' encoding='iso-8859-1'?>",
        _ => b"<?xml version='1.0' encoding='x-map'?>",
    }
}

/// how: 0 declaration, 1 parser creation, 2 XML_SetEncoding, 3 creation overrides a declaration
unsafe fn open(how: u64, f: u64, mask: u32) -> (XML_Parser, *mut Ctx) {
    let n = if how == 1 || how == 3 { ename(b"x-map") } else { std::ptr::null() };
    let (p, c) = parser_enc(f, mask | H_UNKENC, n);
    (*c).unk = Some(handler);
    if how == 2 {
        check!(XML_SetEncoding(p, ename(b"x-map")) == XML_Status::OK, "setting the encoding before parsing failed");
    }
    (p, c)
}

/// Which maps are accepted: one entry (any) has any value, with and without a converter and a release
/// function; the handler may decline. p0 how, p1: 0 entries 0..127, 1 entries 128..255; p2 flags; p3 1: reset before free
#[no_mangle]
pub unsafe extern "C" fn h_unkmap() {
    let how = param(0);
    NIDX = 1;
    IDX[0] = choice(128) + 128 * param(1) as usize;
    VAL[0] = int32();
    CONV = flip();
    RELEASE = flip();
    RET = choice(2) as c_int;
    let ok = legal(IDX[0] as c_int, VAL[0], CONV) && RET != 0;
    let mut d = Doc::new(128);
    d.lit(decl(how));
    d.lit(b"<a>x</a>");
    let (p, _) = open(how, param(2), H_CONTENT);
    let r = parse_all(p, &d);
    check!(ASKED == 1, "the encoding handler was not asked exactly once");
    if ok {
        reach!("accepted");
        check!(r.st == 1, "a legal map was rejected");
    } else {
        reach!("rejected");
        check!(r.st == 0 && r.err == 18, "an inconsistent map was accepted");
    }
    check!(RELEASED == if RELEASE && !ok { 1 } else { 0 }, "a rejected map was not released, or an accepted one too early");
    if param(3) == 1 {
        check!(XML_ParserReset(p, std::ptr::null()), "resetting the parser failed");
        check!(RELEASED == RELEASE as usize, "the release function was not called exactly once");
        let e = b"<b/>";
        check!(XML_Parse(p, e.as_ptr() as *const c_char, 4, 1) == XML_Status::OK, "a document was rejected after a reset");
    }
    XML_ParserFree(p);
    check!(RELEASED == RELEASE as usize, "the release function was not called exactly once");
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    note(r.st as u64);
}

/// Documents in such an encoding: p0 template, p1 bytes of the unit in each hole (1: map, 2..4: converter),
/// p2 flags, p3 how, p4 feeding (as in env::feed_mode; 9 whole), p5 units per hole, p6 1: a free byte follows the units,
/// p7 1: only representative pages of the character's code
#[no_mangle]
pub unsafe extern "C" fn h_unk() {
    let f = param(2);
    let n = param(1) as usize;
    let how = param(3);
    let t = tpl::T[param(0) as usize].1;
    NIDX = 2;
    IDX = [SINGLE, LEAD];
    VAL = [0xe9, if n > 1 { -(n as c_int) } else { -1 }];
    CONV = n > 1;
    CONV_LEN = n;
    let v;
    if param(7) == 1 {
        // one free byte within representative pages of the code space
        let hi = [0x00, 0x03, 0x21, 0x30, 0xd8, 0xff][choice(6)] << 8;
        v = hi | byte() as c_int;
        assume(!fixed(v) && v != 0xffff);
        if n == 1 {
            VAL[0] = v;
        } else {
            CONV_RET = v;
        }
    } else if n == 1 {
        // any value for which the map is accepted
        VAL[0] = (byte() as u32 | (byte() as u32) << 8) as c_int - 1;
        v = VAL[0];
        assume(v >= -1 && v < 0xffff && !fixed(v));
    } else {
        let x = int32();
        CONV_RET = x;
        // ASCII characters that occur in markup are single bytes
        assume(!fixed(x));
        v = if x >= 0 && x <= 0xffff { x } else { -1 };
    }
    // $ and @ in public identifiers must be at their ASCII place
    assume(v >= 0x80 || v == -1 || !t.windows(6).any(|w| w == b"PUBLIC"));
    let bad = v == -1 || v >= 0xd800 && v <= 0xdfff || v >= 0xfffe;
    let mut d = Doc::new(1024);
    let mut u = Doc::new(1024);
    d.lit(decl(how));
    u.lit(decl(how));
    let mut i = 0;
    let mut holes = 0;
    while i < t.len() {
        if t[i] == 1 {
            holes += 1;
            let mut j = 0;
            while j < param(5) {
                j += 1;
                if n == 1 {
                    d.push(SINGLE as u8);
                } else {
                    d.push(LEAD as u8);
                    d.lit(&TRAIL[..n - 1]);
                }
                if bad {
                    u.push(0xff);
                } else {
                    put8(&mut u, v as u32);
                }
            }
            if param(6) == 1 {
                let c = byte();
                assume(c < 0x80);
                d.push(c);
                u.push(c);
            }
        } else {
            d.push(t[i]);
            u.push(t[i]);
        }
        i += 1;
    }
    assume(holes > 0);
    let mask = H_ALL & !H_XMLDECL;
    let (p1, c1) = open(how, f, mask);
    (*c1).hook = Some(lc_hook);
    let r1 = if param(4) == 9 { parse_all(p1, &d) } else { feed_mode(p1, &d, param(4)) };
    check!(ASKED <= 1 && RELEASED == 0, "the encoding handler is asked more than once");
    XML_ParserFree(p1);
    check!(RELEASED == ASKED, "the release function was not called exactly once");
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c1).log).note();
    if bad {
        reach!("not a character");
        check!(r1.st == 0, "a sequence that is no character was accepted");
        return;
    }
    let (p2, c2) = parser_enc(f, mask, ename(b"UTF-8"));
    (*c2).hook = Some(lc_hook);
    if ASKED == 1 {
        // the request for the encoding is the first event
        (*(*c2).log).tag(b'V');
        (*(*c2).log).ascii(b"x-map");
        (*(*c2).log).end();
    }
    let r2 = parse_all(p2, &u);
    XML_ParserFree(p2);
    if r2.st == 1 {
        reach!("accepted");
        check!(ASKED == 1, "the encoding handler is not asked");
    } else {
        reach!("rejected");
    }
    check!(r1.st == r2.st, "verdict differs from the same characters in UTF-8");
    if r1.st == 0 && u.at(0) != b'<' {
        // what is reported depends on a guess from the first two bytes
        return;
    }
    let g = |x| x == E_SYNTAX || x == E_INVALID || x == 6;
    let loose = r1.st == 0 && no_elements(&*(*c2).log) && g(r1.err) && g(r2.err);
    check!(loose || same_code(r1.err, r2.err), "error code differs from the same characters in UTF-8");
    if r1.st == 1 {
        check!((*(*c1).log).same(&*(*c2).log), "events differ from the same characters in UTF-8");
        check!(r1.line == r2.line && r1.col == r2.col || param(4) != 9, "line or column differ from the same characters in UTF-8");
    } else {
        check!((*(*c1).log).same_upto_text(&*(*c2).log), "events before the error differ from the same characters in UTF-8");
        if !loose && r1.err == r2.err {
            check!(r1.line == r2.line && r1.col == r2.col, "line or column differ from the same characters in UTF-8");
        }
    }
}

unsafe fn put8(d: &mut Doc, v: u32) {
    if v < 0x80 {
        d.push(v as u8);
    } else if v < 0x800 {
        d.push(0xc0 | (v >> 6) as u8);
        d.push(0x80 | (v & 63) as u8);
    } else {
        d.push(0xe0 | (v >> 12) as u8);
        d.push(0x80 | (v >> 6 & 63) as u8);
        d.push(0x80 | (v & 63) as u8);
    }
}

/// an external entity in an application-supplied encoding: the nested parser asks for it with the same data
/// and releases it on its own. p0: 0 declared in the entity, 1 named when its parser is created
#[no_mangle]
pub unsafe extern "C" fn h_unkext() {
    NIDX = 1;
    IDX[0] = SINGLE;
    VAL[0] = (byte() as u32 | (byte() as u32) << 8) as c_int;
    let v = VAL[0];
    assume(v > 0x7f && v < 0xd800);
    let (p, c) = parser(0, H_ALL | H_EXTERN | H_UNKENC);
    (*c).unk = Some(handler);
    (*c).ext = Some(nested);
    let d = b"<!DOCTYPE r [<!ENTITY e SYSTEM 't'>]><r>&e;</r>";
    let s = XML_Parse(p, d.as_ptr() as *const c_char, d.len() as c_int, 1);
    check!(s == XML_Status::OK, "the document was rejected");
    check!(ASKED == 1 && RELEASED == 1, "the release function was not called exactly once");
    XML_ParserFree(p);
    check!(RELEASED == 1, "the release function was not called exactly once");
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    // the text is the mapped character
    let l = &*(*c).log;
    let mut want = Doc::new(8);
    if std::mem::size_of::<XML_Char>() == 2 {
        want.push(v as u8);
        want.push((v >> 8) as u8);
    } else {
        put8(&mut want, v as u32);
    }
    let mut i = 0;
    let mut found = false;
    while i + want.n < l.n {
        if *l.buf.add(i) == b'T' && *l.kind.add(i) == K_TAG {
            found = bytes_eq(l.buf.add(i + 1), want.b, want.n) && *l.kind.add(i + 1 + want.n) != K_DATA;
        }
        i += 1;
    }
    check!(found, "the entity's text is not the mapped character");
    reach!("nested");
    l.note();
}

unsafe fn nested(c: &mut Ctx, p: XML_Parser, x: *const XML_Char, _b: *const XML_Char, _s: *const XML_Char, _q: *const XML_Char) -> c_int {
    let ch = XML_ExternalEntityParserCreate(p.as_ref(), x, if param(0) == 1 { ename(b"x-map") } else { std::ptr::null() });
    if ch.is_null() {
        return 0;
    }
    let keep = c.p;
    c.p = ch;
    let mut d = Doc::new(64);
    if param(0) == 0 {
        d.lit(b"<?xml encoding='x-map'?>");
    }
    d.push(SINGLE as u8);
    let s = XML_Parse(ch, d.p(), d.n as c_int, 1);
    c.p = keep;
    XML_ParserFree(ch);
    (s == XML_Status::OK) as c_int
}

// ------------------------------------------------------------------ encoding names from outside
static mut NAME: [XML_Char; 16] = [0; 16];
static mut NLEN: usize = 0;

unsafe fn name_handler(_c: &mut Ctx, n: *const XML_Char, info: *mut XML_Encoding) -> c_int {
    ASKED += 1;
    let mut same = true;
    let mut i = 0;
    while i <= NLEN {
        same &= *n.add(i) == NAME[i];
        i += 1;
    }
    check!(same, "the encoding handler is asked for another name");
    let mut i = 0;
    while i < 256 {
        (*info).map[i] = if i == 0xb5 { 0xe9 } else { i as c_int };
        i += 1;
    }
    (*info).convert = None;
    (*info).release = None;
    (*info).data = std::ptr::null_mut();
    1
}

/// does the name match, ignoring the case of ASCII letters?
unsafe fn named(want: &[u8]) -> bool {
    let mut ok = NLEN == want.len();
    let mut i = 0;
    while i < want.len() {
        let c = NAME[i] as u32;
        let w = want[i] as u32;
        ok &= c == w || w >= 65 && w <= 90 && c == w + 32;
        i += 1;
    }
    ok
}

/// An encoding named by the application. p0: name (0..5 a supported one with one character replaced by any or
/// one added, 6 three free characters), p1 how: 0 creation, 1 XML_SetEncoding, 2 XML_ParserReset, 3 nested parser,
/// 4 XML_SetEncoding after another name, 5 the same but taken back (the declaration counts again);
/// p2: 0 no handler for unknown encodings, 1 one that supplies a map; p3: 1 with a declaration naming another encoding
#[no_mangle]
pub unsafe extern "C" fn h_encname() {
    let how = param(1);
    let base: &[u8] = match param(0) {
        0 => b"iso-8859-1",
        1 => b"US-ascii",
        2 => b"UTF-8",
        3 => b"utf-16",
        4 => b"UTF-16BE",
        5 => b"UTF-16le",
        _ => b"xyz",
    };
    NLEN = base.len();
    let mut i = 0;
    while i < NLEN {
        NAME[i] = base[i] as XML_Char;
        i += 1;
    }
    if param(0) > 5 {
        i = 0;
        while i < 3 {
            NAME[i] = byte() as XML_Char;
            assume(NAME[i] != 0);
            i += 1;
        }
    } else {
        let k = choice(NLEN + 2);
        if k < NLEN {
            let mut c = byte() as XML_Char;
            if std::mem::size_of::<XML_Char>() == 2 {
                c |= ((byte() as u32) << 8) as XML_Char;
            }
            assume(c != 0);
            NAME[k] = c;
        } else if k == NLEN {
            NAME[NLEN] = byte() as XML_Char;
            assume(NAME[NLEN] != 0);
            NLEN += 1;
        }
    }
    NAME[NLEN] = 0;
    let kind = if how == 5 {
        K_LATIN1
    } else if named(b"ISO-8859-1") {
        K_LATIN1
    } else if named(b"US-ASCII") {
        K_ASCII
    } else if named(b"UTF-8") {
        K_UTF8
    } else if named(b"UTF-16") || named(b"UTF-16BE") {
        K_16BE
    } else if named(b"UTF-16LE") {
        K_16LE
    } else {
        0
    };
    // <a>, e acute in that encoding, </a>
    let mut d = Doc::new(256);
    let dec: &[u8] = match (param(3), how) {
        (0, 5) => b"<?xml version='1.0' encoding='iso-8859-1'?><a>",
        (0, _) => b"<a>",
        _ if kind == K_UTF8 || kind == K_16BE || kind == K_16LE => b"<?xml version='1.0' encoding='iso-8859-1'?><a>",
        _ => b"<?xml version='1.0' encoding='utf-8'?><a>",
    };
    let wide = kind == K_16BE || kind == K_16LE;
    let put = |d: &mut Doc, t: &[u8]| {
        for &c in t {
            if wide {
                put16(d, c as u32, kind == K_16BE);
            } else {
                d.push(c);
            }
        }
    };
    put(&mut d, dec);
    match kind {
        K_UTF8 => d.lit(&[0xc3, 0xa9]),
        K_16BE | K_16LE => put16(&mut d, 0xe9, kind == K_16BE),
        0 => d.push(0xb5),
        _ => d.push(0xe9),
    }
    put(&mut d, b"</a>");
    let nm = NAME.as_ptr();
    let mask = H_ALL | H_EXTERN | if param(2) == 1 { H_UNKENC } else { 0 };
    let (p, c) = parser_enc(0, mask, if how == 0 { nm } else { std::ptr::null() });
    (*c).unk = Some(name_handler);
    (*c).ext = Some(named_part);
    match how {
        1 => check!(XML_SetEncoding(p, nm) == XML_Status::OK, "setting the encoding before parsing failed"),
        2 => {
            let x = b"<b/>";
            check!(XML_Parse(p, x.as_ptr() as *const c_char, 4, 1) == XML_Status::OK, "the document was rejected");
            check!(XML_ParserReset(p, nm), "resetting the parser failed");
            (*(*c).log).clear();
            set_handlers(p, c, mask);
        }
        4 | 5 => {
            check!(XML_SetEncoding(p, ename(if how == 4 { b"utf-8" } else { b"no-such" })) == XML_Status::OK, "setting the encoding before parsing failed");
            check!(XML_SetEncoding(p, if how == 4 { nm } else { std::ptr::null() }) == XML_Status::OK, "setting the encoding before parsing failed");
        }
        _ => {}
    }
    let r = if how == 3 {
        (*c).a = &mut d as *mut Doc as u64;
        let x = b"<!DOCTYPE r [<!ENTITY e SYSTEM 't'>]><r>&e;</r>";
        let s = XML_Parse(p, x.as_ptr() as *const c_char, x.len() as c_int, 1);
        let mut r = res(p, s);
        if (*c).b != 0 {
            check!(r.st == 0 && r.err == 21, "an error in a nested parser is not passed on");
            r.err = (*c).b as u32;
        }
        r
    } else {
        parse_all(p, &d)
    };
    XML_ParserFree(p);
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    (*(*c).log).note();
    note(r.st as u64);
    if kind == 0 && param(2) == 0 {
        reach!("unknown");
        check!(r.st == 0 && r.err == 18, "an encoding that is not supported was accepted");
        return;
    }
    check!(ASKED == (kind == 0) as usize, "the encoding handler is asked for a supported encoding, or not for another");
    if kind == K_ASCII {
        check!(r.st == 0 && r.err == E_INVALID, "a byte that is no US-ASCII character was accepted");
        reach!("not a character");
    } else {
        check!(r.st == 1, "the application's encoding was not used");
        reach!("accepted");
    }
    // what the declaration says is reported, and the text is as in the application's encoding
    let l = &*(*c).log;
    let mut has_x = false;
    let mut i = 0;
    while i < l.n {
        if *l.kind.add(i) == K_TAG {
            has_x |= *l.buf.add(i) == b'X';
            if *l.buf.add(i) == b'T' {
                let ok = if std::mem::size_of::<XML_Char>() == 2 { *l.buf.add(i + 1) == 0xe9 && *l.buf.add(i + 2) == 0 } else { *l.buf.add(i + 1) == 0xc3 && *l.buf.add(i + 2) == 0xa9 };
                check!(ok, "the application's encoding was not used");
            }
        }
        i += 1;
    }
    check!(has_x == (dec.len() > 3), "the declaration is not reported");
}

unsafe fn named_part(c: &mut Ctx, p: XML_Parser, x: *const XML_Char, _b: *const XML_Char, _s: *const XML_Char, _q: *const XML_Char) -> c_int {
    let ch = XML_ExternalEntityParserCreate(p.as_ref(), x, NAME.as_ptr());
    if ch.is_null() {
        return 0;
    }
    let keep = c.p;
    c.p = ch;
    let d = &*(c.a as *const Doc);
    let s = XML_Parse(ch, d.p(), d.n as c_int, 1);
    c.b = XML_GetErrorCode(ch) as u64;
    c.p = keep;
    XML_ParserFree(ch);
    (s == XML_Status::OK) as c_int
}
