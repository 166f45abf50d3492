//! Many of everything: documents whose counts cross the parser's initial capacities.
use crate::ctx::*;
use crate::env::*;
use crate::oracle::*;
use crate::rt::*;

unsafe fn num(d: &mut Doc, i: usize) {
    d.push(b'0' + (i / 10) as u8);
    d.push(b'0' + (i % 10) as u8);
}
unsafe fn word(d: &mut Doc, c: u8, n: usize) {
    let mut i = 0;
    while i < n {
        d.push(c);
        i += 1;
    }
}

/// kinds of documents; n = how many, fb = free bytes in each hole
unsafe fn make(d: &mut Doc, kind: u64, n: usize, fb: usize) {
    // the free bytes, the same ones wherever they occur
    let mut v = Doc::new(8);
    let mut i = 0;
    while i < fb {
        v.sym();
        i += 1;
    }
    macro_rules! l {
        ($($x:expr),*) => { $( Put::put(&$x, d, &v); )* };
    }
    macro_rules! each {
        ($i:ident, $k:expr, $($x:expr),*) => { { let mut $i = 0; while $i < $k { l!($($x),*); $i += 1; } } };
    }
    match kind {
        // attributes; the last one's name is free
        0 => {
            l!("<r><a");
            each!(i, n, " a", N(i), "='", N(i), "'");
            l!(" a0", F, "='z'/><b c='d'/><a");
            each!(i, n, " b", N(i), "='x", F, "'");
            l!("/><a a00='&amp;'/></r>");
        }
        // the same, prefixed, with two prefixes for one name
        1 => {
            l!("<r xmlns:p='u' xmlns:q='u'><a");
            each!(i, n, " p:a", N(i), "='", N(i), "'");
            l!(" q:a0", F, "='z'/><b p:c='d' c='e' q:f='g'/><a");
            each!(i, n, " b", N(i), "='x'");
            l!("/></r>");
        }
        // open elements
        2 => {
            each!(i, n, "<e", N(i), ">");
            l!("x");
            each!(i, n, "</e", N(n - 1 - i), if n - 1 - i == 0 { F1 } else { F0 }, ">");
        }
        // siblings with names of changing length, nested in a long one
        3 => {
            l!("<", W(b'r', 30 + n), "><a>");
            each!(i, n, "<e", W(b'x', 3 * i % 40), "></e", W(b'x', 3 * i % 40), "><f", W(b'y', 60 - i % 50), " b='c'/>");
            l!("</a", F, "></", W(b'r', 30 + n), ">");
        }
        // namespace declarations on one element
        4 => {
            l!("<a");
            each!(i, n, " xmlns:p", N(i), "='u", N(i), "'");
            l!("><p0", F, ":b p", N(n - 1), ":c='d' p0", F, ":c='e'/><b xmlns:p00='v'><p00:c/></b><p00:d/></a>");
        }
        // growing URIs while elements named by shorter ones are open, then used again
        5 => {
            each!(i, n, "<p:e xmlns:p='", W(b'u', 1 + 7 * i), "'><p:f/>");
            l!("<p:g", F, " p:h='i'/>");
            each!(i, n, "<p:j/></p:e>");
            l!("");
        }
        // siblings whose namespace URIs grow and shrink (recycled bindings and tags)
        6 => {
            l!("<a>");
            each!(i, n, "<p:b xmlns:p='", W(b'u', 5 * i), F, "v'><p:", W(b'n', 3 * i), "/><q:c xmlns:q='w'/></p:b>");
            l!("</a>");
        }
        // default attributes
        7 => {
            l!("<!DOCTYPE a[<!ATTLIST a");
            each!(i, n, " a", N(i), " CDATA '", N(i), "'");
            l!(">]><r><a/><a a0", F, "='z'/><b/><a a00='q'/></r>");
        }
        // attribute declarations for as many elements
        8 => {
            l!("<!DOCTYPE a[");
            each!(i, n, "<!ATTLIST e", N(i), " b", N(i), " CDATA '", N(i), "' i ID #IMPLIED>");
            l!("]><r><e0", F, "/><e00/><e", N(n - 1), " i=' x '/></r>");
        }
        // a sequence of children
        9 => {
            l!("<!DOCTYPE a[<!ELEMENT a (b00");
            each!(i, n, ",b", N(i), "?");
            l!(F, ")*><!ELEMENT c (#PCDATA");
            each!(i, n, "|b", N(i));
            l!(")*>]><a/>");
        }
        // nested groups
        10 => {
            l!("<!DOCTYPE a[<!ELEMENT a ");
            each!(i, n, "(b", N(i), if i % 2 == 0 { "," } else { "|" });
            l!("c", F, "d");
            each!(i, n, ")", if i % 3 == 0 { "*" } else { "" });
            l!("><!ELEMENT e ((f,g)|(h,i))>]><a/>");
        }
        // nested groups opened at once
        11 => {
            l!("<!DOCTYPE a[<!ELEMENT a ");
            each!(i, n, "(");
            l!("b");
            each!(i, n, if i == n / 2 { F1 } else { F0 }, ")");
            l!(">]><a/>");
        }
        // entities
        12 => {
            l!("<!DOCTYPE a[");
            each!(i, n, "<!ENTITY e", N(i), " 'v", N(i), "'>");
            l!("]><a b='&e00;&e", N(n - 1), ";'>&e0", F, ";&e", N(n - 1), ";</a>");
        }
        // entities within entities
        13 => {
            l!("<!DOCTYPE a[<!ENTITY e00 'x<b/>", F, "'>");
            each!(i, n, "<!ENTITY e", N(i + 1), " '(&e", N(i), ";)'>");
            l!("]><a>&e", N(n), ";-&e", N(n), ";</a>");
        }
        // the same in attributes
        14 => {
            l!("<!DOCTYPE a[<!ENTITY e00 'x ", F, "'>");
            each!(i, n, "<!ENTITY e", N(i + 1), " '(&e", N(i), ";)'>");
            l!("<!ATTLIST a c NMTOKENS '&e", N(n), ";'>]><a b='&e", N(n), ";&e", N(n), ";'/>");
        }
        // enumerations
        15 => {
            l!("<!DOCTYPE a[<!ATTLIST a b (v", F);
            each!(i, n, "|v", N(i));
            l!(") 'v00' c NOTATION (x");
            each!(i, n, "|n", N(i));
            l!(") #IMPLIED>]><a/>");
        }
        // prefixes declared one per open element
        16 => {
            each!(i, n, "<e xmlns:p", N(i), "='u", N(i), "'>");
            l!("<p0", F, ":a p", N(n - 1), ":b='c' p00:b='d'/>");
            each!(i, n, "<p", N(n - 1 - i), ":f/></e>");
        }
        // many long attribute values
        17 => {
            l!("<!DOCTYPE a[<!ENTITY e 'long entity text'>]><a");
            each!(i, n, " a", N(i), "='&e;", W(b'x', 40), "&#9;&e;", if i + 1 == n { F1 } else { F0 }, "'");
            l!("/>");
        }
        // parameter entities within parameter entities
        18 => {
            l!("<!DOCTYPE a[<!ENTITY % e00 '<?b c?>", F, "'>");
            each!(i, n, "<!ENTITY % e", N(i + 1), " '&#37;e", N(i), ";<!--x-->'>");
            l!("%e", N(n), ";<!ENTITY f 'g'>]><a>&f;</a>");
        }
        // notations, unparsed and external entities
        19 => {
            l!("<!DOCTYPE a[");
            each!(i, n, "<!NOTATION n", N(i), " SYSTEM 's", N(i), "'><!ENTITY u", N(i), " PUBLIC 'p  q' 's' NDATA n", N(i), "><!ENTITY x", N(i), " SYSTEM 'y'>");
            l!("]><a>&x0", F, ";</a>");
        }
        // empty elements, text and references
        20 => {
            l!("<a>");
            each!(i, n, "<b/>x&lt;<![CDATA[y]]><?z?><!--w-->");
            l!(F, "</a>");
        }
        // attributes that default together with namespace declarations
        21 => {
            l!("<!DOCTYPE a[<!ATTLIST a xmlns:p CDATA 'u'");
            each!(i, n, " p:a", N(i), " CDATA '", N(i), "'");
            l!(">]><a q:a0", F, "='z' xmlns:q='u'/>");
        }
        // a binding that several open elements use, while longer and longer names make it grow
        22 => {
            l!("<p:a xmlns:p='u' p:x='1'><p:b><p:", W(b'c', n % 7), "c><p:d/><p:b", F, "></p:b>");
            each!(i, n, "<p:", W(b'n', 1 + 3 * i), ">");
            each!(i, n, "</p:", W(b'n', 1 + 3 * (n - 1 - i)), ">");
            l!("</p:", W(b'c', n % 7), "c></p:b><p:e p:", W(b'm', 2 * n + 60), "='2'/></p:a>");
        }
        // the same with the default namespace and with an element of no namespace between
        23 => {
            l!("<a xmlns='", W(b'u', n), "'><b><c xmlns=''><d xmlns='v'/><e/></c><b", F, "></b>");
            each!(i, n, "<", W(b'n', 5 * i), "f/>");
            l!("<g h='i'><j xmlns:q='w'><q:k", W(b'l', 2 * n), "/></j></g></b></a>");
        }
        _ => fail!("harness: no such document"),
    }
}

/// pieces of a document
struct N(usize);
struct W(u8, usize);
enum Free {
    F0,
    F1,
}
use Free::*;
#[allow(non_upper_case_globals)]
const F: Free = F1;
trait Put {
    unsafe fn put(&self, d: &mut Doc, v: &Doc);
}
impl Put for N {
    unsafe fn put(&self, d: &mut Doc, _: &Doc) {
        num(d, self.0)
    }
}
impl Put for W {
    unsafe fn put(&self, d: &mut Doc, _: &Doc) {
        word(d, self.0, self.1)
    }
}
impl Put for &str {
    unsafe fn put(&self, d: &mut Doc, _: &Doc) {
        d.lit(self.as_bytes())
    }
}
impl Put for Free {
    unsafe fn put(&self, d: &mut Doc, v: &Doc) {
        if let F1 = self {
            let mut i = 0;
            while i < v.n {
                d.push(v.at(i));
                i += 1;
            }
        }
    }
}

/// p0 kind of document, p1 smallest count, p2 number of counts, p3 flags, p4 free bytes, p5 feeding: 0 whole, else pieces of that size,
/// p6 1: UTF-16, p8 1: the parser has parsed such a document before and was reset
#[no_mangle]
pub unsafe extern "C" fn h_count() {
    CAP = 40960 * std::mem::size_of::<XML_Char>();
    let n = param(1) as usize + choice(param(2) as usize);
    let f = param(3);
    let fb = param(4) as usize;
    let mut d = Doc::new(32768);
    make(&mut d, param(0), n, fb);
    let (p, c) = parser(f, H_ALL);
    if param(8) == 1 {
        let mut e = Doc::new(32768);
        make(&mut e, param(0), param(1) as usize + param(2) as usize, 0);
        parse_all(p, &e);
        check!(XML_ParserReset(p, std::ptr::null()), "reset refused");
        (*(*c).log).clear();
        setup(p, c, f, H_ALL);
    }
    let w = if param(6) == 1 {
        let mut w = Doc::new(2 * d.n + 2);
        put16(&mut w, 0xfeff, false);
        let mut i = 0;
        while i < d.n {
            assume(d.at(i) < 0x80);
            put16(&mut w, d.at(i) as u32, false);
            i += 1;
        }
        w
    } else {
        Doc { b: d.b, n: d.n, cap: d.cap }
    };
    let r = if param(5) == 0 {
        parse_all(p, &w)
    } else {
        let step = param(5) as usize;
        let mut s = XML_Status::OK;
        let mut i = 0;
        while i < w.n && s == XML_Status::OK {
            let e = if i + step < w.n { i + step } else { w.n };
            s = feed(p, &w, i, e, e == w.n);
            i = e;
        }
        res(p, s)
    };
    XML_ParserFree(p);
    (*(*c).log).note();
    check!(LIVE == 0, "memory still allocated after the parser was freed");
    let mut o = oracle(f, H_ALL);
    let e = o.document(Sl { p: d.b, n: d.n });
    compare(&mut o, e, &r, &*(*c).log);
}
