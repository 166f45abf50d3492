//! Long strings: one construct of any kind grows across the sizes at which the parser's buffers end.
use crate::ctx::*;
use crate::env::*;
use crate::oracle::*;
use crate::rt::*;

/// \x01 = the long string, \x02 = the same string again
pub static L: &[(&str, &[u8])] = &[
    ("text", b"<a>\x01</a>"),
    ("cdata", b"<a><![CDATA[\x01]]></a>"),
    ("comment", b"<!--\x01--><a/>"),
    ("pi", b"<a><?p \x01?></a>"),
    ("pitarget", b"<?\x01 d?><a/>"),
    ("name", b"<\x01></\x02>"),
    ("name2", b"<a><\x01 b='c'><d>e</d></\x02></a>"),
    ("attval", b"<a b='\x01' c='d'/>"),
    ("attname", b"<a \x01='b' c='d'/>"),
    ("atttok", b"<!DOCTYPE a[<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='\x01' c='d'/>"),
    ("attdval", b"<!DOCTYPE a[<!ATTLIST a b CDATA '\x01' c CDATA 'd'>]><a/>"),
    ("entval", b"<!DOCTYPE a[<!ENTITY e '\x01'><!ENTITY f 'g'>]><a>&e;&f;</a>"),
    ("entvala", b"<!DOCTYPE a[<!ENTITY e '\x01'>]><a b='&e;&e;'/>"),
    ("entname", b"<!DOCTYPE a[<!ENTITY \x01 'v'>]><a b='&\x02;'>&\x02;</a>"),
    ("entsys", b"<!DOCTYPE a[<!ENTITY e SYSTEM '\x01'>]><a>&e;</a>"),
    ("dtname", b"<!DOCTYPE \x01 SYSTEM 's'><a/>"),
    ("dtsys", b"<!DOCTYPE a SYSTEM '\x01' []><a/>"),
    ("dtpub", b"<!DOCTYPE a PUBLIC '\x01' 's'><a/>"),
    ("notname", b"<!DOCTYPE a[<!NOTATION \x01 PUBLIC 'p'>]><a/>"),
    ("notpub", b"<!DOCTYPE a[<!NOTATION n PUBLIC '\x01'>]><a/>"),
    ("elname", b"<!DOCTYPE a[<!ELEMENT \x01 (b,c)>]><a/>"),
    ("elgrp", b"<!DOCTYPE a[<!ELEMENT a (b,\x01*,(c|\x02)?)>]><a/>"),
    ("attenum", b"<!DOCTYPE a[<!ATTLIST a b (c|\x01|d) 'c'>]><a/>"),
    ("attdname", b"<!DOCTYPE a[<!ATTLIST a \x01 CDATA 'v'>]><a><b/></a>"),
    ("attel", b"<!DOCTYPE a[<!ATTLIST \x01 b CDATA 'v'>]><a><\x02/></a>"),
    ("peval", b"<!DOCTYPE a[<!ENTITY % p '<!--\x01-->'>%p;]><a/>"),
    ("pename", b"<!DOCTYPE a[<!ENTITY % \x01 '<?b c?>'>%\x02;]><a/>"),
    ("ref", b"<a>\x01&lt;\x02</a>"),
    ("two", b"<a>\x01<b/>\x02</a>"),
    ("epilog", b"<a/>\x01"),
    ("prolog", b"<?b?>\x01<a/>"),
    ("intag", b"<a\x01b='c'\x02/>"),
    ("nsuri", b"<p:a xmlns:p='\x01' p:b='c'><p:d/></p:a>"),
    ("nsprefix", b"<\x01:a xmlns:\x02='u'><b/></\x02:a>"),
    ("nslocal", b"<p:\x01 xmlns:p='u' p:\x02='c'></p:\x02>"),
    ("nsdef", b"<a xmlns='\x01'><b/></a>"),
    ("nstwo", b"<p:a xmlns:p='\x01' xmlns:q='\x02'><q:b/><c/></p:a>"),
    ("nameagain", b"<a><b></b><\x01 c='d'></\x02><e></e><\x02/></a>"),
    ("default", b"<?b \x01?><!DOCTYPE a [<!ELEMENT \x02 ANY>]><a>\x02</a>"),
];

/// the unit the string is made of: code points, width in UTF-8
static FILL: &[&[u32]] = &[
    &[0x78],       // x
    &[0xe9],       // two bytes
    &[0x3042],     // three bytes
    &[0x10400],    // four bytes, a surrogate pair
    &[10],
    &[13, 10],
    &[0x26, 0x61, 0x6d, 0x70, 0x3b], // &amp;
    &[0x20],
    &[0x5d],
    &[0x78, 0xe9],
    &[0x26, 0x23, 0x78, 0x33, 0x30, 0x34, 0x32, 0x3b], // &#x3042;
    &[0x78, 0x20],
];

fn width(c: u32) -> usize {
    if c < 0x80 {
        1
    } else if c < 0x800 {
        2
    } else if c < 0x10000 {
        3
    } else {
        4
    }
}

unsafe fn put(r: &mut Pair, c: u32, k: u64) {
    match k {
        K_LATIN1 => r.enc.push(c as u8),
        K_16LE | K_16BE => {
            if c < 0x10000 {
                put16(&mut r.enc, c, k == K_16BE);
            } else {
                put16(&mut r.enc, 0xd800 + (c - 0x10000 >> 10), k == K_16BE);
                put16(&mut r.enc, 0xdc00 + (c & 0x3ff), k == K_16BE);
            }
        }
        _ => {}
    }
    let mut b = Buf { p: r.u8.b, n: r.u8.n, cap: r.u8.cap };
    utf8_put(&mut b, c);
    r.u8.n = b.n;
    if k == K_UTF8 {
        let mut i = r.u8.n - width(c);
        while i < r.u8.n {
            r.enc.push(r.u8.at(i));
            i += 1;
        }
    }
}

/// no delivery of character data begins or ends inside a character
unsafe fn whole_chars(c: &mut Ctx, t: u8) {
    let l = &*c.log;
    if t == b'T' || t == b'D' {
        let mut s = c.c as usize;
        if *l.kind.add(s) == K_TAG {
            s += 1;
        }
        let n = l.n;
        check!(n > s, "an empty piece of character data was delivered");
        if std::mem::size_of::<XML_Char>() > 1 {
            check!(*l.buf.add(s + 1) & 0xfc != 0xdc, "a delivery begins inside a character");
            check!(*l.buf.add(n - 1) & 0xfc != 0xd8, "a delivery ends inside a character");
        } else {
            check!(*l.buf.add(s) & 0xc0 != 0x80, "a delivery begins inside a character");
            let mut i = n - 1;
            while i > s && n - i < 4 && *l.buf.add(i) & 0xc0 == 0x80 {
                i -= 1;
            }
            let b = *l.buf.add(i);
            let w = if b < 0x80 {
                1
            } else if b < 0xe0 {
                2
            } else if b < 0xf0 {
                3
            } else {
                4
            };
            check!(n - i == w, "a delivery ends inside a character");
        }
    }
    c.c = l.n as u64;
}

/// p0 construct, p1 size around which the length varies, p2 flags, p3 encoding, p4 feeding, p5 unit, p6 what is free:
/// 0 nothing, 1 one byte (code unit), 2 the last byte of a three-byte character, 3 of a four-byte character,
/// 4 two bytes; p8 number of lengths (0 = about 8 bytes' worth), p9 handlers
#[no_mangle]
pub unsafe extern "C" fn h_long() {
    CAP = 8 * param(1) as usize + 1024;
    let f = param(2);
    let k = param(3);
    let fill = FILL[param(5) as usize];
    let mask = mask_of(param(9));
    let t = L[param(0) as usize].1;
    let be = k == K_16BE;
    let wide = be || k == K_16LE;
    let base = param(1) as usize;
    // length of a unit in the parser's strings
    let mut w = 0;
    for &c in fill {
        w += width(c);
    }
    if fill[0] == 0x26 && t[1] == b'a' {
        w = if fill.len() > 5 { 3 } else { 1 };
    }
    let range = if param(8) == 0 { (8 + w - 1) / w + 1 } else { param(8) as usize };
    let top = (base + 2) / w + 1;
    let cnt = if top > range { top - range } else { 0 } + choice(range);
    let pre = if w > 1 { choice(w) } else { 0 };
    let room = 3 * (fill.len() * 4 * (cnt + 1)) + 256;
    let mut r = Pair { enc: Doc::new(room), u8: Doc::new(room), bad: false };
    if wide {
        put16(&mut r.enc, 0xfeff, be);
    }
    // the free units
    let mut fr = Pair { enc: Doc::new(32), u8: Doc::new(32), bad: false };
    match param(6) {
        1 => add(&mut fr, b"\x01", 1, k, false),
        4 => add(&mut fr, b"\x01", 2, k, false),
        2 | 3 => {
            let x = byte();
            assume(x & 0xc0 == 0x80);
            let cp = if param(6) == 2 { 0x3000 } else { 0x10400 } | (x & 63) as u32;
            if wide {
                if cp < 0x10000 {
                    put16(&mut fr.enc, cp, be);
                } else {
                    put16(&mut fr.enc, 0xd801, be);
                    put16(&mut fr.enc, 0xdc00 | (x & 63) as u32, be);
                }
            } else {
                fr.enc.lit(if param(6) == 2 { b"\xe3\x80" } else { b"\xf0\x90\x90" });
                fr.enc.push(x);
            }
            fr.u8.lit(if param(6) == 2 { b"\xe3\x80" } else { b"\xf0\x90\x90" });
            fr.u8.push(x);
        }
        _ => {}
    }
    let mut near = 0;
    let mut i = 0;
    while i < t.len() {
        if t[i] > 2 {
            put(&mut r, t[i] as u32, k);
        } else {
            let mut j = 0;
            while j < pre {
                put(&mut r, fill[0] & 0x7f | 0x60, k);
                j += 1;
            }
            j = 0;
            while j < cnt {
                for &c in fill {
                    put(&mut r, c, k);
                }
                j += 1;
            }
            if near == 0 {
                near = r.enc.n;
            }
            j = 0;
            while j < fr.enc.n {
                r.enc.push(fr.enc.at(j));
                j += 1;
            }
            j = 0;
            while j < fr.u8.n {
                r.u8.push(fr.u8.at(j));
                j += 1;
            }
            if fill[0] > 0x20 {
                put(&mut r, 0x7a, k);
            }
        }
        i += 1;
    }
    let en = if k == K_LATIN1 { ename(b"iso-8859-1") } else { std::ptr::null() };
    let (p, c) = parser_enc(f, mask, en);
    (*c).hook = Some(whole_chars);
    let d = &r.enc;
    let rr = match param(4) {
        0 => parse_all(p, d),
        1 | 2 => {
            let lo = if near > 5 { near - 5 } else { 0 };
            let cut = lo + choice(if d.n - lo < 10 { d.n - lo } else { 10 });
            let mut s = if param(4) == 1 { feed(p, d, 0, cut, false) } else { feed_buffer(p, d, 0, cut, false) };
            if s == XML_Status::OK {
                s = if param(4) == 1 { feed(p, d, cut, d.n, true) } else { feed_buffer(p, d, cut, d.n, true) };
            }
            res(p, s)
        }
        m => {
            let step = if m == 3 { 100 } else { 37 };
            let mut s = XML_Status::OK;
            let mut i = 0;
            while i < d.n && s == XML_Status::OK {
                let e = if i + step < d.n { i + step } else { d.n };
                s = if m == 3 { feed(p, d, i, e, e == d.n) } else { feed_buffer(p, d, i, e, e == d.n) };
                i = e;
            }
            res(p, s)
        }
    };
    XML_ParserFree(p);
    (*(*c).log).note();
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    if r.bad || fr.bad {
        reach!("not a character");
        check!(rr.st == 0, "a code unit that is no character was accepted");
        return;
    }
    if mask & H_DEFAULT != 0 {
        if rr.st == 1 {
            let l = &*(*c).log;
            let mut o = oracle(f, mask);
            o.l().tag(b'D');
            o.out(Sl { p: r.u8.b, n: r.u8.n });
            check!(l.same(&*o.log), "the default handler's data is not the document");
            reach!("accepted");
        }
        return;
    }
    let mut o = oracle(f, mask);
    o.protocol = k == K_LATIN1;
    let e = o.document(Sl { p: r.u8.b, n: r.u8.n });
    if e != 0 && k != K_UTF8 {
        reach!("rejected");
        check!(rr.st == 0, "verdict differs from the reference (accept/reject)");
        check!((*(*c).log).same_upto_event(&*o.log), "events before the error differ from the reference");
        return;
    }
    compare(&mut o, e, &rr, &*(*c).log);
}
