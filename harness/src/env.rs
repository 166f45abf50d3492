//! Shared by the harnesses: job parameters, encodings, ways of feeding a document.
use crate::ctx::*;
use crate::oracle::*;
use crate::rt::*;
use libc::{c_int, c_void};

pub const F_NS: u64 = 1;
pub const F_TRIP: u64 = 2;
pub const F_PE: u64 = 12; // parameter entity parsing mode << 2
pub const F_SEP0: u64 = 16; // namespace separator is NUL
pub const F_PEREF: u64 = 64; // the external entity handler supplies text

pub unsafe fn mask_of(v: u64) -> u32 {
    if v == 0 {
        H_ALL
    } else {
        v as u32
    }
}

pub fn sep_of(f: u64) -> u8 {
    if f & F_SEP0 != 0 {
        0
    } else {
        b'|'
    }
}

pub unsafe fn parser(f: u64, mask: u32) -> (XML_Parser, *mut Ctx) {
    parser_enc(f, mask, std::ptr::null())
}

pub unsafe fn parser_enc(f: u64, mask: u32, enc: *const XML_Char) -> (XML_Parser, *mut Ctx) {
    let c = Ctx::new();
    let p = if f & F_NS != 0 {
        XML_ParserCreateNS(enc, sep_of(f) as XML_Char)
    } else {
        XML_ParserCreate(enc)
    };
    if p.is_null() {
        fail!("parser creation failed");
    }
    setup(p, c, f, mask);
    (p, c)
}

pub unsafe fn setup(p: XML_Parser, c: *mut Ctx, f: u64, mask: u32) {
    set_handlers(p, c, mask);
    if f & F_TRIP != 0 {
        XML_SetReturnNSTriplet(p, true);
    }
    let pe = (f >> 2 & 3) as u32;
    if pe != 0 {
        XML_SetParamEntityParsing(p, pe_mode(pe));
    }
}

pub unsafe fn oracle(f: u64, mask: u32) -> Orc {
    let mut o = Orc::new(Log::new(), mask);
    o.ns = f & F_NS != 0;
    o.sep = sep_of(f);
    o.triplets = f & F_TRIP != 0;
    o.pe = (f >> 2 & 3) as u8;
    o
}

/// event positions go into the log after every event that is not character data
pub unsafe fn pos_hook(c: &mut Ctx, t: u8) {
    if t == b'T' || t == b'D' {
        return;
    }
    let p = c.p;
    let l = &mut *c.log;
    l.int(XML_GetCurrentLineNumber(p) as u64);
    l.int(XML_GetCurrentColumnNumber(p) as u64);
    l.int(XML_GetCurrentByteIndex(p) as u64);
    l.int(XML_GetCurrentByteCount(p) as u64);
}

pub unsafe fn feed(p: XML_Parser, d: &Doc, from: usize, to: usize, fin: bool) -> XML_Status {
    let b = d.exact(from, to);
    let s = XML_Parse(p, b, (to - from) as c_int, fin as c_int);
    // the parser may be suspended inside this chunk, but never refers to it after returning
    libc::memset(b as *mut c_void, 0x20, to - from);
    libc::free(b as *mut c_void);
    s
}

pub const M_SPLIT: u64 = 0;
pub const M_BUF: u64 = 1;
pub const M_BYTES: u64 = 2;
pub const M_BUFBYTES: u64 = 3;
pub const M_THREE: u64 = 4;
pub const M_EMPTYFIN: u64 = 5;
pub const M_OVERASK: u64 = 6;
pub const M_MIX: u64 = 7;
pub const M_EMPTIES: u64 = 8;
pub const M_MOVE: u64 = 9;

/// feed the document to the parser in the given manner
pub unsafe fn feed_mode(p: XML_Parser, d: &Doc, mode: u64) -> Res {
    let n = d.n;
    let mut s = XML_Status::OK;
    match mode {
        M_SPLIT => {
            let k = choice(n + 1);
            s = feed(p, d, 0, k, false);
            if s == XML_Status::OK {
                s = feed(p, d, k, n, true);
            }
        }
        M_BUF => {
            let k = choice(n + 1);
            s = feed_buffer(p, d, 0, k, false);
            if s == XML_Status::OK {
                s = feed_buffer(p, d, k, n, true);
            }
        }
        M_BYTES | M_BUFBYTES => {
            let mut i = 0;
            while i < n && s == XML_Status::OK {
                let fin = i + 1 == n;
                s = if mode == M_BYTES { feed(p, d, i, i + 1, fin) } else { feed_buffer(p, d, i, i + 1, fin) };
                i += 1;
            }
        }
        M_THREE => {
            let k = choice(n);
            let m = k + 1 + choice(n - k);
            s = feed(p, d, 0, k, false);
            if s == XML_Status::OK {
                s = feed(p, d, k, m, false);
            }
            if s == XML_Status::OK {
                s = feed(p, d, m, n, true);
            }
        }
        M_EMPTYFIN => {
            s = feed(p, d, 0, n, false);
            if s == XML_Status::OK {
                s = XML_Parse(p, std::ptr::null(), 0, 1);
            }
        }
        M_OVERASK => {
            let k = choice(n + 1);
            let q = XML_GetBuffer(p, 4 * n as c_int);
            if q.is_null() {
                fail!("no buffer");
            }
            libc::memcpy(q, d.b as *const c_void, k);
            s = XML_ParseBuffer(p, k as c_int, 0);
            if s == XML_Status::OK {
                s = feed_buffer(p, d, k, n, true);
            }
        }
        M_MIX => {
            let k = choice(n + 1);
            s = feed_buffer(p, d, 0, k, false);
            if s == XML_Status::OK {
                s = feed(p, d, k, n, true);
            }
        }
        M_MOVE => {
            ASKED = 0;
            let k = choice(n + 1);
            s = feed_move(p, d, 0, k, false);
            if s == XML_Status::OK {
                s = feed_move(p, d, k, n, true);
            }
        }
        _ => {
            let k = choice(n + 1);
            s = feed(p, d, 0, k, false);
            if s == XML_Status::OK {
                s = XML_Parse(p, std::ptr::null(), 0, 0);
            }
            if s == XML_Status::OK {
                s = feed_buffer(p, d, k, n, false);
            }
            if s == XML_Status::OK {
                s = feed_buffer(p, d, n, n, true);
            }
        }
    }
    res(p, s)
}

/// the codes reported for junk where only markup may follow: which of them depends on how much of
/// the junk the tokenizer has seen
pub fn same_code(a: u32, b: u32) -> bool {
    let g = |x| x == E_INVALID || x == E_UNCLOSED || x == 6;
    a == b || a == E_JUNK && g(b) || b == E_JUNK && g(a)
}

/// decode one UTF-8 character (any XML or non-XML code point below the surrogates' exclusions)
pub unsafe fn decode(b: *const u8, i: usize, n: usize) -> (u32, usize) {
    let c = *b.add(i);
    if c < 0x80 {
        return (c as u32, 1);
    }
    let k = if c >= 0xc2 && c <= 0xdf {
        2
    } else if c >= 0xe0 && c <= 0xef {
        3
    } else if c >= 0xf0 && c <= 0xf4 {
        4
    } else {
        assume(false);
        1
    };
    assume(i + k <= n);
    let mut v = (c as u32) & (0xff >> (k + 1));
    let mut j = 1;
    while j < k {
        let x = *b.add(i + j);
        assume(x & 0xc0 == 0x80);
        v = v << 6 | (x as u32 & 63);
        j += 1;
    }
    (v, k)
}

pub const LE: u8 = 0;
pub const BE: u8 = 1;
pub unsafe fn put16(d: &mut Doc, v: u32, be: bool) {
    if be {
        d.push((v >> 8) as u8);
        d.push(v as u8);
    } else {
        d.push(v as u8);
        d.push((v >> 8) as u8);
    }
}

/// Document in another encoding together with its UTF-8 form.
pub struct Pair {
    pub enc: Doc,
    pub u8: Doc,
    /// a unit that stands for no character is present
    pub bad: bool,
}

pub const K_LATIN1: u64 = 1;
pub const K_ASCII: u64 = 2;
pub const K_16LE: u64 = 3;
pub const K_16BE: u64 = 4;
pub const K_UTF8: u64 = 5;

/// `t` with `n` free code units per hole, in encoding `k`
pub unsafe fn pair(t: &[u8], n: usize, k: u64, bom: bool) -> Pair {
    let mut r = Pair { enc: Doc::new(2 * t.len() + 8 * n + 16), u8: Doc::new(t.len() + 12 * n + 16), bad: false };
    add(&mut r, t, n, k, bom);
    r
}
pub unsafe fn add(r: &mut Pair, t: &[u8], n: usize, k: u64, bom: bool) {
    let be = k == K_16BE;
    let wide = be || k == K_16LE;
    if bom {
        if wide {
            put16(&mut r.enc, 0xfeff, be);
        } else {
            r.enc.lit(&[0xef, 0xbb, 0xbf]);
        }
    }
    let mut lead = 0u32;
    let mut i = 0;
    while i < t.len() {
        if t[i] != 1 {
            assume(lead == 0);
            if wide {
                put16(&mut r.enc, t[i] as u32, be);
            } else {
                r.enc.push(t[i]);
            }
            r.u8.push(t[i]);
            i += 1;
            continue;
        }
        i += 1;
        let mut j = 0;
        while j < n {
            j += 1;
            if k == K_UTF8 {
                let c = byte();
                r.enc.push(c);
                r.u8.push(c);
                continue;
            }
            if !wide {
                let c = byte();
                r.enc.push(c);
                if c < 0x80 {
                    r.u8.push(c);
                } else if k == K_LATIN1 {
                    r.u8.push(0xc0 | c >> 6);
                    r.u8.push(0x80 | c & 63);
                } else {
                    r.bad = true;
                    r.u8.push(0xff);
                }
                continue;
            }
            let hi = byte();
            let lo = byte();
            let v = (hi as u32) << 8 | lo as u32;
            put16(&mut r.enc, v, be);
            let u = &mut r.u8;
            if lead != 0 {
                // well-formed: a low surrogate follows
                assume(hi & 0xfc == 0xdc);
                let cp = 0x10000 + ((lead & 0x3ff) << 10 | v & 0x3ff);
                u.push(0xf0 | (cp >> 18) as u8);
                u.push(0x80 | (cp >> 12 & 63) as u8);
                u.push(0x80 | (cp >> 6 & 63) as u8);
                u.push(0x80 | (cp & 63) as u8);
                lead = 0;
            } else if hi & 0xfc == 0xd8 {
                lead = v;
            } else if hi & 0xfc == 0xdc || hi == 0xff && lo >= 0xfe {
                r.bad = true;
                u.push(0xff);
            } else if hi == 0 && lo < 0x80 {
                u.push(lo);
            } else if hi < 8 {
                u.push(0xc0 | (v >> 6) as u8);
                u.push(0x80 | (v & 63) as u8);
            } else {
                u.push(0xe0 | (v >> 12) as u8);
                u.push(0x80 | (v >> 6 & 63) as u8);
                u.push(0x80 | (v & 63) as u8);
            }
        }
    }
    assume(lead == 0);
}
