//! External and parameter entities: the application's handler reads texts of its own.
use crate::ctx::*;
use crate::dtd::ext_index;
use crate::env::*;
use crate::h_mut::mutate;
use crate::oracle::*;
use crate::rt::*;
use crate::tpl;
use libc::{c_int, c_void};

/// document, text of entities whose system identifier starts with s / t / u, text of the application's own DTD
type X = (&'static str, &'static [u8], [&'static [u8]; 4]);
const N: &[u8] = b"";
pub static X: &[X] = &[
    // general entities in content
    ("gtext", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>x&e;y</a>", [b"\x01", N, N, N]),
    ("gmark", b"<!DOCTYPE a[<!ENTITY e PUBLIC 'p' 's'>]><a>x&e;<c/></a>", [b"<b>\x01</b>", N, N, N]),
    ("gtail", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;&e;</a>", [b"<b/>\x01", N, N, N]),
    ("gopen", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a><b>&e;</b></a>", [b"x</b>\x01<b>", N, N, N]),
    ("gdecl", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"<?xml \x01?>x", N, N, N]),
    ("gver", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"<?xml version='1.0'\x01?>x", N, N, N]),
    ("genc", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"<?xml encoding='\x01'?>x", N, N, N]),
    ("gencv", b"<?xml version='1.0' encoding='iso-8859-1'?><!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"<?xml version='1.0' encoding='us-ascii'\x01?><?y?>x", N, N, N]),
    ("gcr", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"\r\x01\n<![CDATA[\r\n]]><b c='\r\n'/>\r", N, N, N]),
    ("gref", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ENTITY f 'z<b/>'><!ENTITY g SYSTEM 't'>]><a>&e;</a>", [b"x&\x01;y", b"w&f;", N, N]),
    ("gafter", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ENTITY f 'z<b/>'>]><a>&e;</a>", [b"x&f;<bcd e='\x01'>&f;</bcd>\x01", N, N, N]),
    ("grec", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ENTITY f SYSTEM 't'>]><a>&e;</a>", [b"&f;", b"x&\x01;", N, N]),
    ("grec2", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ENTITY f '&e;\x01'>]><a>&f;</a>", [b"x<b/>&\x01;", N, N, N]),
    ("ginner", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ENTITY f 'p&e;q'>]><a>&f;</a>", [b"x\x01<b/>", N, N, N]),
    ("gatt", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ATTLIST b c CDATA 'd' x NMTOKEN #IMPLIED>]><a><b x=' 1 '/>&e;</a>", [b"<b\x01/>", N, N, N]),
    ("gattref", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'><!ENTITY f 'v'>]><a>&e;<b c='&f;'/></a>", [b"<b c='&\x01;'/>", N, N, N]),
    ("gns", b"<!DOCTYPE p:a[<!ENTITY e SYSTEM 's'>]><p:a xmlns:p='u' xmlns='v'>&e;<q:b xmlns:q='w' xmlns=''>&e;</q:b></p:a>", [b"<p:c\x01 p:d='1'/>", N, N, N]),
    ("gns2", b"<!DOCTYPE p:a[<!ENTITY e SYSTEM 's'>]><p:a xmlns:p='u' xmlns:q='v'><q:b xmlns:p='w'>&e;</q:b></p:a>", [b"<\x01:c xmlns:r='p'><r:x/></\x01:c>", N, N, N]),
    ("gdir", b"<!DOCTYPE a[<!ENTITY e SYSTEM '\x01'>]><a>&e;</a>", [b"x", b"y", b"z", N]),
    ("gundef", b"<!DOCTYPE a SYSTEM 't' [<!ENTITY e SYSTEM 's'>]><a>&e;&\x01;</a>", [b"&\x01;", b"", N, N]),
    ("gbom", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"\xef\xbb\xbf\x01y", N, N, N]),
    ("gu", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"\xe2\x82\x01", N, N, N]),
    ("gpi", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'>]><a>&e;</a>", [b"<?p\x01?><!--c\r\nd-->]]", N, N, N]),
    // external subset
    ("stext", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"\x01", N, N, N]),
    ("sent", b"<!DOCTYPE a SYSTEM 's'><a b='&e;'>&e;</a>", [b"<!ENTITY e '\x01'>", N, N, N]),
    ("sboth", b"<!DOCTYPE a SYSTEM 's' [<!ENTITY e '1'><!ATTLIST a b CDATA '2'>]><a>&e;&f;</a>", [b"<!ENTITY e '3'><!ENTITY f '4\x01'><!ATTLIST a b CDATA '5' c NMTOKENS ' 6 '>", N, N, N]),
    ("sel", b"<!DOCTYPE a PUBLIC 'p' 's'><a/>", [b"<!ELEMENT a (b,c)>\x01<!NOTATION n SYSTEM 'x'><!--c--><?d e?>", N, N, N]),
    ("sdecl", b"<!DOCTYPE a SYSTEM 's'><a/>", [b"<?xml \x01?><!ELEMENT a ANY>", N, N, N]),
    ("senc", b"<!DOCTYPE a SYSTEM 's'><a/>", [b"<?xml version='1.0' encoding='utf-\x01'?><!ELEMENT a ANY>", N, N, N]),
    ("spe", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % p '<!ENTITY e \"v\">'>%\x01;", N, N, N]),
    ("speext", b"<!DOCTYPE a SYSTEM 's'><a>&e;&f;</a>", [b"<!ENTITY % p SYSTEM 't'>%p;<!ENTITY f 'w'>\x01", b"<!ENTITY e '\x01'>", N, N]),
    ("sinner", b"<!DOCTYPE a SYSTEM 's'><a b='1'/>", [b"<!ENTITY % p '(b|c)'><!ENTITY % q '*'><!ELEMENT a %p;\x01><!ENTITY % r 'a b CDATA'><!ATTLIST %r; '2'>", N, N, N]),
    ("sinner2", b"<!DOCTYPE a SYSTEM 's'><a/>", [b"<!ENTITY % p '\x01'><!ELEMENT a (b%p;c)>", N, N, N]),
    ("sinner3", b"<!DOCTYPE a SYSTEM 's'><a/>", [b"<!ENTITY % p 'n'><!ENTITY % q 'SYSTEM \"%p;\"'><!NOTATION %p;\x01%q;>", N, N, N]),
    ("sinent", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % p 'x&#38;y\x01'><!ENTITY e '1%p;2'>", N, N, N]),
    ("sinc", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<![INCLUDE[<!ENTITY e 'v'>\x01]]><!ENTITY e 'w'>", N, N, N]),
    ("sign", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<![IGNORE[<!ENTITY e 'v'>\x01]]><!ENTITY e 'w'>", N, N, N]),
    ("scond", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<![\x01[<!ENTITY e 'v'>]]><!ENTITY e 'w'>", N, N, N]),
    ("scondk", b"<!DOCTYPE a SYSTEM 's' [<!ENTITY % k 'INCLUDE'><!ENTITY % j ' IGNORE '>]><a>&e;</a>", [b"<![%\x01;[<!ENTITY e 'v'>]]><!ENTITY e 'w'>", N, N, N]),
    ("scondn", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<![INCLUDE[<![IGNORE[<![x[y]]>\x01]]><!ENTITY e 'v'><![INCLUDE[<!--]]>-->]]>]]><!ENTITY f 'w'>", N, N, N]),
    ("scondp", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % p '<!ENTITY e \"v\">'><![INCLUDE[%p;\x01]]>", N, N, N]),
    ("scondq", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % p '<![INCLUDE[<!ENTITY e \"v\">\x01'>%p;]]>", N, N, N]),
    ("scondx", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % p SYSTEM 't'><![INCLUDE[%p;]]>", b"<!ENTITY e '\x01'>", N, N]),
    ("satt", b"<!DOCTYPE a SYSTEM 's'><a/>", [b"<!ENTITY e 'x\r\ny'><!ATTLIST a b CDATA '\r\n&\x01;'>", N, N, N]),
    ("ssaY", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a SYSTEM 's' [<!ENTITY f 'w'>]><a>&\x01;</a>", [b"<!ENTITY e 'v'>", N, N, N]),
    ("ssaN", b"<?xml version='1.0' standalone='no'?><!DOCTYPE a SYSTEM 's' [<!ENTITY f 'w'>]><a b='&\x01;'>&\x01;</a>", [b"<!ENTITY e 'v'>", N, N, N]),
    ("scr", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY e '\r\x01\n'><!--\r\n-->\r<?x \r\n?>", N, N, N]),
    ("snd", b"<!DOCTYPE a SYSTEM 's'><a>&\x01;</a>", [b"<!NOTATION n SYSTEM 'x'><!ENTITY e SYSTEM 'y' NDATA n><!ENTITY f SYSTEM 't'>", b"<b/>", N, N]),
    // parameter entities in the internal subset
    ("ptext", b"<!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;]><a>&e;</a>", [b"\x01", N, N, N]),
    ("pent", b"<!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;<!ENTITY f 'w'>]><a>&\x01;</a>", [b"<!ENTITY e 'v'>", N, N, N]),
    ("pin", b"<!DOCTYPE a[<!ENTITY % q SYSTEM 's'><!ENTITY % p '&#37;q;<!ENTITY f \"w\">'>%p;]><a>&e;&f;</a>", [b"<!ENTITY e '\x01'>", N, N, N]),
    ("prec", b"<!DOCTYPE a[<!ENTITY % p SYSTEM 's'><!ENTITY % q SYSTEM 't'>%p;]><a/>", [b"%q;", b"%\x01;", N, N]),
    ("ptwice", b"<!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;%p;<!ENTITY f '\x01'>]><a>&e;&f;</a>", [b"<!ENTITY e 'v\x01'>", N, N, N]),
    ("pdtd", b"<!DOCTYPE a SYSTEM 't' [<!ENTITY % p SYSTEM 's'>%p;<!ATTLIST a b CDATA 'x'>]><a>&e;</a>", [b"<!ENTITY e 'v'>\x01", b"<!ATTLIST a b CDATA 'y' c CDATA 'z'>%p;", N, N]),
    ("pundef", b"<!DOCTYPE a[%p;<!ENTITY % q SYSTEM 's'>%q;]><a>&\x01;</a>", [b"<!ENTITY e 'v'>%r;<!ENTITY f 'w'>", N, N, N]),
    ("psaY", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;<!ENTITY f 'w'>%\x01;]><a>&\x01;</a>", [b"<!ENTITY e 'v'><!ENTITY % r ''>", N, N, N]),
    ("psaAtt", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;<!ATTLIST a b CDATA '&\x01;'>]><a/>", [b"<!ENTITY e 'v'><!ATTLIST a c CDATA '&f;'>", N, N, N]),
    ("psaIn", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a[<!ENTITY % p '<!ATTLIST a c CDATA \"&#38;\x01;\">'>%p;]><a/>", [N, N, N, N]),
    ("pcond", b"<!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;]><a>&e;</a>", [b"<![INCLUDE[<!ENTITY e 'v\x01'>]]>", N, N, N]),
    // external parameter entities in entity values
    ("vtext", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY e 'x%q;y'>", b"\x01", N, N]),
    ("vdecl", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY e 'x%q;y'>", b"<?xml version='1.0' encoding='utf-8'?>z\x01", N, N]),
    ("vlit", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY e \"x%q;y\">", b" '\x01\r\n' ", N, N]),
    ("vref", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY % r 'w'><!ENTITY e 'x%q;y'>", b"z %\x01; w", N, N]),
    ("vnest", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY % r SYSTEM 'u'><!ENTITY e 'x%q;y%r;'>", b"1%r;2", b"3\x01", N]),
    ("vbom", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY e 'x%q;y'>", b"\xef\xbb\xbfz\x01", N, N]),
    ("vpe", b"<!DOCTYPE a SYSTEM 's'><a>&e;</a>", [b"<!ENTITY % q SYSTEM 't'><!ENTITY % r '<!ENTITY e \"x&#37;q;y\">'>%r;", b"z\x01", N, N]),
    // the application's own DTD
    ("fnone", b"\x01<a>&e;</a>", [N, N, N, b"<!ENTITY e 'v'>"]),
    ("ftext", b"<a b='&e;'/>", [N, N, N, b"<!ENTITY e '\x01'><!ATTLIST a c CDATA 'd'>"]),
    ("fdoc", b"<!DOCTYPE a \x01[<!ENTITY e 'v'>]><a>&e;&f;</a>", [b"<!ENTITY f 's'>", N, N, b"<!ENTITY e 'w'><!ENTITY f 'x'>"]),
    ("fsys", b"<!DOCTYPE a SYSTEM 's'><a>&\x01;</a>", [b"<!ENTITY e 'v'>", N, N, b"<!ENTITY f 'w'>"]),
    ("fundef", b"<!DOCTYPE a><a>&\x01;</a>", [N, N, N, b"<!ENTITY e 'v'>"]),
    ("fsa", b"<?xml version='1.0' standalone='yes'?><a>&\x01;</a>", [N, N, N, b"<!ENTITY e 'v'>"]),
];

pub static mut TXT: [*mut Doc; 4] = [std::ptr::null_mut(); 4];

/// p2: the flags of env.rs and
pub const F_MODE: u64 = 256; // what the handler does, two bits: 0 there is none, 1 nothing, 2 reads, 3 fails
pub const F_QUIT: u64 = 1024; // the not-standalone handler returns 0
pub const F_FOREIGN: u64 = 2048;
pub const F_BASE: u64 = 4096; // bases are set
pub const F_NOSTAND: u64 = 8192; // no not-standalone handler

unsafe fn reader(c: &mut Ctx, p: XML_Parser, ctx: *const XML_Char, _b: *const XML_Char, sys: *const XML_Char, _pub: *const XML_Char) -> c_int {
    match c.a {
        1 => return 1,
        2 => {}
        _ => return 0,
    }
    let q = XML_ExternalEntityParserCreate(Some(&mut *p), ctx, std::ptr::null());
    if q.is_null() {
        fail!("no parser for an external entity");
        return 0;
    }
    if c.c != 0 {
        XML_SetBase(q, ename(b"n"));
    }
    let d = &*TXT[ext_index(if sys.is_null() { 0 } else { *sys as u8 })];
    let s = match c.b {
        0 => {
            let s = feed(q, d, 0, d.n, true);
            s
        }
        1 => {
            let k = choice(d.n + 1);
            let mut s = feed(q, d, 0, k, false);
            if s == XML_Status::OK {
                s = feed(q, d, k, d.n, true);
            }
            s
        }
        2 => {
            let mut i = 0;
            let mut s = XML_Status::OK;
            while i < d.n && s == XML_Status::OK {
                s = feed(q, d, i, i + 1, false);
                i += 1;
            }
            if s == XML_Status::OK {
                s = XML_Parse(q, std::ptr::null(), 0, 1);
            }
            s
        }
        _ => feed_buffer(q, d, 0, d.n, true),
    };
    let e = XML_GetErrorCode(q);
    XML_ParserFree(q);
    if s == XML_Status::OK {
        check!(e == 0, "error code set on an accepted external entity");
        return 1;
    }
    if c.nnested < 8 {
        c.nested[c.nnested] = e;
        c.nnested += 1;
    }
    0
}

/// p0 texts, p1 free bytes per hole, p2 flags, p3 how the entities are fed (0 whole, 1 cut anywhere, 2 by bytes, 3 XML_GetBuffer),
/// p4 how the document is fed (0 whole, 1 + mode of feed_mode), p5 0 or 1 + op of h_mut, p6 which text it changes (0-3, 4 = the document),
/// p7 1 = with one kind of handler only or missing
#[no_mangle]
pub unsafe extern "C" fn h_ext() {
    CAP = 4096;
    let x = &X[param(0) as usize];
    let n = param(1) as usize;
    let f = param(2);
    let op = param(5);
    let make = |t: &[u8], k: u64| -> *mut Doc {
        let d = zalloc(std::mem::size_of::<Doc>()) as *mut Doc;
        if op != 0 && param(6) == k {
            std::ptr::write(d, mutate(t, op - 1));
        } else {
            std::ptr::write(d, Doc::new(t.len() + 4 * n + 8));
            tpl::build(&mut *d, t, n);
        }
        d
    };
    let doc = make(x.1, 4);
    let mut i = 0;
    while i < 4 {
        TXT[i] = make(x.2[i], i as u64);
        i += 1;
    }
    let mode = f / F_MODE & 3;
    let mut mask = H_ALL | H_UNPARSED | H_NS;
    if mode != 0 {
        mask |= H_EXTERN;
    }
    if f & F_NOSTAND == 0 {
        mask |= H_NOTSTAND;
    }
    if param(7) == 1 {
        // any one kind of handler alone, or all but one
        let k = choice(15);
        let b = if k < 13 { crate::h_doc::BITS[k] } else if k == 13 { H_NS } else { H_NOTSTAND };
        mask = if flip() { mask & (b | H_EXTERN) } else { mask & !b };
    }
    let live = LIVE;
    let (p, c) = parser(f, mask);
    (*c).noctx = true;
    (*c).ext = Some(reader);
    (*c).a = mode;
    (*c).b = param(3);
    (*c).c = f & F_BASE;
    (*c).notstand_ret = (f & F_QUIT == 0) as c_int;
    if f & F_BASE != 0 {
        XML_SetBase(p, ename(b"b"));
    }
    if f & F_FOREIGN != 0 {
        check!(XML_UseForeignDTD(p, true) == XML_Error::NONE, "XML_UseForeignDTD refused before parsing");
    }
    let r = if param(4) == 0 { parse_all(p, &*doc) } else { feed_mode(p, &*doc, param(4) - 1) };
    XML_ParserFree(p);
    (*(*c).log).note();
    check!(LIVE == live, "memory still allocated after the parsers were freed");
    let mut o = oracle(f, mask);
    o.ext_mode = mode as u8;
    let mut i = 0;
    while i < 4 {
        o.ext_txt[i] = Sl { p: (*TXT[i]).b, n: (*TXT[i]).n };
        i += 1;
    }
    o.notstand_ret = f & F_QUIT == 0;
    o.foreign = f & F_FOREIGN != 0;
    if f & F_BASE != 0 {
        o.base = Sl::of(b"b");
        o.nbase = Sl::of(b"n");
    }
    let e = o.document(Sl { p: (*doc).b, n: (*doc).n });
    compare(&mut o, e, &r, &*(*c).log);
    if e == crate::dtd::E_SKIP {
        return;
    }
    check!(o.nnested == (*c).nnested, "nested parsers fail where the reference accepts, or the reverse");
    let mut i = 0;
    while i < o.nnested {
        let (a, b) = (o.nested[i], (*c).nested[i]);
        check!(b != 0 && (a == E_ANY || a == b), "error code of a nested parser differs from the reference");
        i += 1;
    }
    let _ = 0 as *mut c_void;
}
