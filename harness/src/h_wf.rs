//! xmlwf, run on files in memory: its exit status, what it prints and the file it writes, against
//! the library asked directly and an output written down from the events it reports.
use crate::ctx::*;
use crate::env::*;
use crate::h_ext::X;
use crate::h_mut::change;
use crate::rt::*;
use crate::tpl;
use crate::vfs;
use libc::{c_char, c_int, c_void};
use rexpat::expat_h::XML_FeatureEnum;

/// p2: the arguments; \x01 = a free byte
pub static ARGS: &[(&str, &[&[u8]])] = &[
    ("map", &[b"d/f"]),
    ("read", &[b"-r", b"d/f"]),
    ("stdin", &[]),
    ("canon", &[b"-d", b"o", b"d/f"]),
    ("canonns", &[b"-n", b"-do", b"d/f"]),
    ("canonread", &[b"-rd", b"o", b"d/f"]),
    ("notation", &[b"-Nd", b"o", b"d/f"]),
    ("copy", &[b"-c", b"-d", b"o", b"d/f"]),
    ("meta", &[b"-m", b"-d", b"o", b"d/f"]),
    ("metans", &[b"-nmd", b"o", b"d/f"]),
    ("metaread", &[b"-mrd", b"o", b"d/f"]),
    ("timing", &[b"-t", b"-d", b"o", b"d/f"]),
    ("ext", &[b"-x", b"-d", b"o", b"d/f"]),
    ("extread", &[b"-xr", b"-d", b"o", b"d/f"]),
    ("pe", &[b"-p", b"-d", b"o", b"d/f"]),
    ("peread", &[b"-pr", b"-d", b"o", b"d/f"]),
    ("standalone", &[b"-s", b"d/f"]),
    ("metaext", &[b"-pmd", b"o", b"d/f"]),
    ("copyext", &[b"-xcd", b"o", b"d/f"]),
    ("stdinext", &[b"-xd", b"o"]),
    ("latin", &[b"-e", b"iso-8859-1", b"-d", b"o", b"d/f"]),
    ("encname", &[b"-eutf-\x01", b"d/f"]),
    ("windows", &[b"-w", b"d/f"]),
    ("two", &[b"d/g", b"d/f"]),
    ("two2", &[b"-d", b"o", b"d/f", b"d/g"]),
    ("two3", &[b"-rmd", b"o", b"d/g", b"d/f", b"d/g"]),
    ("opt", &[b"-\x01", b"-d", b"o", b"d/f"]),
    ("opt2", &[b"-d", b"o", b"-\x01\x01", b"d/f"]),
    ("optlast", &[b"-\x01"]),
    ("optend", &[b"-d", b"o", b"--", b"d/\x01"]),
    ("dir", &[b"-d", b"\x01", b"d/f"]),
    ("dir2", &[b"-d\x01", b"d/f"]),
    ("optfile", &[b"\x01\x01", b"d/g"]),
    ("copyns", &[b"-ncd", b"o", b"d/f"]),
    ("copyns2", &[b"-cnd", b"o", b"d/f"]),
    ("notations", &[b"-Nsrd", b"o", b"d/f"]),
];

struct Opt {
    read: bool,
    standalone: bool,
    ns: bool,
    pe: bool,
    ext: bool,
    notations: bool,
    kind: u8,
    dir: *const u8,
    enc: *const u8,
}

static mut WANT_RC: c_int = 0;
static mut WANT_OUT: *mut Doc = std::ptr::null_mut(); // standard output
static mut NWANT: usize = 0;
static mut WANT: [*mut vfs::Out; 4] = [std::ptr::null_mut(); 4];
static mut O: *mut Doc = std::ptr::null_mut(); // where the expected output goes
static mut CP: XML_Parser = std::ptr::null_mut();
static mut BASE: *const u8 = std::ptr::null();
static mut OPT: *mut Opt = std::ptr::null_mut();
static mut DT: *const u8 = std::ptr::null();
static mut NOTS: [[*const u8; 3]; 16] = [[std::ptr::null(); 3]; 16];
static mut NNOTS: usize = 0;
static mut DEPTH: usize = 0;

unsafe fn o<'a>() -> &'a mut Doc {
    &mut *O
}
unsafe fn len(s: *const u8) -> usize {
    let mut n = 0;
    while *s.add(n) != 0 {
        n += 1;
    }
    n
}
unsafe fn puts(d: &mut Doc, s: *const u8) {
    let mut i = 0;
    while *s.add(i) != 0 {
        d.push(*s.add(i));
        i += 1;
    }
}
unsafe fn dup(s: *const c_char) -> *const u8 {
    if s.is_null() {
        return std::ptr::null();
    }
    let s = s as *const u8;
    let n = len(s) + 1;
    let r = libc::malloc(n) as *mut u8;
    let mut i = 0;
    while i < n {
        *r.add(i) = *s.add(i);
        i += 1;
    }
    r
}
unsafe fn esc(s: *const u8, n: usize) {
    let mut i = 0;
    while i < n {
        match *s.add(i) {
            b'&' => o().lit(b"&amp;"),
            b'<' => o().lit(b"&lt;"),
            b'>' => o().lit(b"&gt;"),
            b'"' => o().lit(b"&quot;"),
            9 => o().lit(b"&#9;"),
            10 => o().lit(b"&#10;"),
            13 => o().lit(b"&#13;"),
            c => o().push(c),
        }
        i += 1;
    }
}
unsafe fn esc0(s: *const c_char) {
    esc(s as *const u8, len(s as *const u8))
}
/// position of the separator in a name, if it has one
unsafe fn sep(s: *const u8) -> Option<usize> {
    let mut i = len(s);
    while i > 0 {
        i -= 1;
        if *s.add(i) == 1 {
            return Some(i);
        }
    }
    None
}
unsafe fn less(a: *const u8, b: *const u8) -> bool {
    let mut i = 0;
    while *a.add(i) == *b.add(i) && *a.add(i) != 0 {
        i += 1;
    }
    *a.add(i) < *b.add(i)
}
unsafe fn value(v: *const u8, n: usize) {
    o().lit(b"=\"");
    esc(v, n);
    o().lit(b"\"");
}

// ------------------------------------------------------------------ canonical form
unsafe extern "C" fn c_start(_u: *mut c_void, n: *const c_char, a: *mut *const c_char) {
    let ns = (*OPT).ns;
    let n = n as *const u8;
    let mut next = 1;
    o().push(b'<');
    match if ns { sep(n) } else { None } {
        Some(k) => {
            o().lit(b"n1:");
            puts(o(), n.add(k + 1));
            o().lit(b" xmlns:n1");
            value(n, k);
            next = 2;
        }
        None => puts(o(), n),
    }
    let mut m = 0;
    while !(*a.add(2 * m)).is_null() {
        m += 1;
    }
    // smallest name first
    let mut used = [false; 40];
    let mut done = 0;
    while done < m {
        let mut best = m;
        let mut i = 0;
        while i < m {
            if !used[i] && (best == m || less(*a.add(2 * i) as *const u8, *a.add(2 * best) as *const u8)) {
                best = i;
            }
            i += 1;
        }
        used[best] = true;
        done += 1;
        let n = *a.add(2 * best) as *const u8;
        let v = *a.add(2 * best + 1) as *const u8;
        o().push(b' ');
        match if ns { sep(n) } else { None } {
            Some(k) => {
                o().push(b'n');
                vfs::decimal(o(), next);
                o().push(b':');
                puts(o(), n.add(k + 1));
                value(v, len(v));
                o().lit(b" xmlns:n");
                vfs::decimal(o(), next);
                value(n, k);
                next += 1;
            }
            None => {
                puts(o(), n);
                value(v, len(v));
            }
        }
    }
    o().push(b'>');
}
unsafe extern "C" fn c_end(_u: *mut c_void, n: *const c_char) {
    let n = n as *const u8;
    o().lit(b"</");
    match if (*OPT).ns { sep(n) } else { None } {
        Some(k) => {
            o().lit(b"n1:");
            puts(o(), n.add(k + 1));
        }
        None => puts(o(), n),
    }
    o().push(b'>');
}
unsafe extern "C" fn c_text(_u: *mut c_void, s: *const c_char, n: c_int) {
    esc(s as *const u8, n as usize)
}
unsafe extern "C" fn c_pi(_u: *mut c_void, t: *const c_char, d: *const c_char) {
    o().lit(b"<?");
    puts(o(), t as *const u8);
    o().push(b' ');
    puts(o(), d as *const u8);
    o().lit(b"?>");
}
unsafe extern "C" fn c_doctype(_u: *mut c_void, n: *const c_char, _s: *const c_char, _p: *const c_char, _h: c_int) {
    DT = dup(n);
    NNOTS = 0;
}
unsafe extern "C" fn c_notation(_u: *mut c_void, n: *const c_char, _b: *const c_char, s: *const c_char, p: *const c_char) {
    if NNOTS < 16 {
        NOTS[NNOTS] = [dup(n), dup(s), dup(p)];
        NNOTS += 1;
    }
}
unsafe extern "C" fn c_enddoctype(_u: *mut c_void) {
    if NNOTS == 0 {
        return;
    }
    o().lit(b"<!DOCTYPE ");
    puts(o(), DT);
    o().lit(b" [\n");
    let mut left = NNOTS;
    while left > 0 {
        // smallest name first, the latest declaration first among equal ones
        let mut best = 16;
        let mut i = NNOTS;
        while i > 0 {
            i -= 1;
            if !NOTS[i][0].is_null() && (best == 16 || less_signed(NOTS[i][0], NOTS[best][0])) {
                best = i;
            }
        }
        let [n, s, p] = NOTS[best];
        NOTS[best][0] = std::ptr::null();
        left -= 1;
        o().lit(b"<!NOTATION ");
        puts(o(), n);
        if !p.is_null() {
            o().lit(b" PUBLIC '");
            puts(o(), p);
            o().push(b'\'');
        } else if !s.is_null() {
            o().lit(b" SYSTEM");
        }
        if !s.is_null() {
            o().lit(b" '");
            puts(o(), s);
            o().push(b'\'');
        }
        o().lit(b">\n");
    }
    o().lit(b"]>\n");
    NNOTS = 0;
}
unsafe fn less_signed(a: *const u8, b: *const u8) -> bool {
    let mut i = 0;
    while *a.add(i) == *b.add(i) && *a.add(i) != 0 {
        i += 1;
    }
    (*a.add(i) as c_char) < (*b.add(i) as c_char)
}

// ------------------------------------------------------------------ -m
unsafe fn attr(name: &[u8], s: *const c_char) {
    if !s.is_null() {
        o().push(b' ');
        o().lit(name);
        o().lit(b"=\"");
        puts(o(), s as *const u8);
        o().push(b'"');
    }
}
unsafe fn place() {
    attr(b"uri", BASE as *const c_char);
    o().lit(b" byte=\"");
    let i = XML_GetCurrentByteIndex(CP);
    if i < 0 {
        o().push(b'-');
    }
    vfs::decimal(o(), i.abs() as u64);
    o().lit(b"\" nbytes=\"");
    vfs::decimal(o(), XML_GetCurrentByteCount(CP) as u64);
    o().lit(b"\" line=\"");
    vfs::decimal(o(), XML_GetCurrentLineNumber(CP) as u64);
    o().lit(b"\" col=\"");
    vfs::decimal(o(), XML_GetCurrentColumnNumber(CP) as u64);
    o().push(b'"');
}
unsafe fn place_end() {
    place();
    o().lit(b"/>\n");
}
unsafe extern "C" fn m_start(_u: *mut c_void, n: *const c_char, a: *mut *const c_char) {
    o().lit(b"<starttag name=\"");
    puts(o(), n as *const u8);
    o().push(b'"');
    place();
    if (*a).is_null() {
        o().lit(b"/>\n");
        return;
    }
    o().lit(b">\n");
    let given = XML_GetSpecifiedAttributeCount(CP) as usize;
    let id = XML_GetIdAttributeIndex(CP);
    let mut i = 0;
    while !(*a.add(i)).is_null() {
        o().lit(b"<attribute name=\"");
        puts(o(), *a.add(i) as *const u8);
        o().lit(b"\" value=\"");
        esc0(*a.add(i + 1));
        o().push(b'"');
        if i >= given {
            o().lit(b" defaulted=\"yes\"");
        } else if i as c_int == id {
            o().lit(b" id=\"yes\"");
        }
        o().lit(b"/>\n");
        i += 2;
    }
    o().lit(b"</starttag>\n");
}
unsafe extern "C" fn m_end(_u: *mut c_void, n: *const c_char) {
    o().lit(b"<endtag");
    attr(b"name", n);
    place_end();
}
unsafe extern "C" fn m_pi(_u: *mut c_void, t: *const c_char, d: *const c_char) {
    o().lit(b"<pi");
    attr(b"target", t);
    o().lit(b" data=\"");
    esc0(d);
    o().push(b'"');
    place_end();
}
unsafe extern "C" fn m_comment(_u: *mut c_void, d: *const c_char) {
    o().lit(b"<comment data=\"");
    esc0(d);
    o().push(b'"');
    place_end();
}
unsafe extern "C" fn m_cd0(_u: *mut c_void) {
    o().lit(b"<startcdata");
    place_end();
}
unsafe extern "C" fn m_cd1(_u: *mut c_void) {
    o().lit(b"<endcdata");
    place_end();
}
unsafe extern "C" fn m_text(_u: *mut c_void, s: *const c_char, n: c_int) {
    o().lit(b"<chars str=\"");
    esc(s as *const u8, n as usize);
    o().push(b'"');
    place_end();
}
unsafe extern "C" fn m_doctype(_u: *mut c_void, n: *const c_char, _s: *const c_char, _p: *const c_char, _h: c_int) {
    o().lit(b"<startdoctype");
    attr(b"name", n);
    place_end();
}
unsafe extern "C" fn m_enddoctype(_u: *mut c_void) {
    o().lit(b"<enddoctype");
    place_end();
}
unsafe extern "C" fn m_notation(_u: *mut c_void, n: *const c_char, _b: *const c_char, s: *const c_char, p: *const c_char) {
    o().lit(b"<notation");
    attr(b"name", n);
    attr(b"public", p);
    if !s.is_null() {
        o().lit(b" system=\"");
        esc0(s);
        o().push(b'"');
    }
    place_end();
}
unsafe extern "C" fn m_entity(_u: *mut c_void, n: *const c_char, _pe: c_int, v: *const c_char, vl: c_int, _b: *const c_char, s: *const c_char, p: *const c_char, nn: *const c_char) {
    o().lit(b"<entity");
    attr(b"name", n);
    if !v.is_null() {
        place();
        o().push(b'>');
        esc(v as *const u8, vl as usize);
        o().lit(b"</entity/>\n");
        return;
    }
    attr(b"public", p);
    o().lit(b" system=\"");
    esc0(s);
    o().push(b'"');
    attr(b"notation", nn);
    place_end();
}
unsafe extern "C" fn m_ns(_u: *mut c_void, p: *const c_char, uri: *const c_char) {
    o().lit(b"<startns");
    attr(b"prefix", p);
    if !uri.is_null() {
        o().lit(b" ns=\"");
        esc0(uri);
        o().push(b'"');
    }
    o().lit(b"/>\n");
}
unsafe extern "C" fn m_endns(_u: *mut c_void, p: *const c_char) {
    o().lit(b"<endns");
    attr(b"prefix", p);
    o().lit(b"/>\n");
}

// ------------------------------------------------------------------ -c
unsafe extern "C" fn k_start(_u: *mut c_void, _n: *const c_char, _a: *mut *const c_char) {
    XML_DefaultCurrent(CP)
}
unsafe extern "C" fn k_end(_u: *mut c_void, _n: *const c_char) {
    XML_DefaultCurrent(CP)
}
unsafe extern "C" fn k_text(_u: *mut c_void, _s: *const c_char, _n: c_int) {
    XML_DefaultCurrent(CP)
}
unsafe extern "C" fn k_pi(_u: *mut c_void, _t: *const c_char, _d: *const c_char) {
    XML_DefaultCurrent(CP)
}
unsafe extern "C" fn k_default(_u: *mut c_void, s: *const c_char, n: c_int) {
    let mut i = 0;
    while i < n as usize {
        o().push(*s.add(i) as u8);
        i += 1;
    }
}
unsafe extern "C" fn t_start(_u: *mut c_void, _n: *const c_char, _a: *mut *const c_char) {}
unsafe extern "C" fn t_end(_u: *mut c_void, _n: *const c_char) {}
unsafe extern "C" fn t_text(_u: *mut c_void, _s: *const c_char, _n: c_int) {}
unsafe extern "C" fn t_pi(_u: *mut c_void, _t: *const c_char, _d: *const c_char) {}

unsafe extern "C" fn refuse(_u: *mut c_void) -> c_int {
    0
}

/// parse one file; true if the library accepts it. What is wrong with it goes to standard output.
unsafe fn parse(p: XML_Parser, path: *const u8, mapped: bool) -> bool {
    let k = if path.is_null() { 4 } else { vfs::file_of(path) };
    if k < 0 {
        return false;
    }
    let st = vfs::STATE[k as usize];
    let mut mapped = mapped;
    match st {
        vfs::S_READ if mapped && (*vfs::TEXT[k as usize]).n == 0 => {} // nothing to read
        vfs::S_MISSING | vfs::S_DIR | vfs::S_READ => return false,
        vfs::S_STAT | vfs::S_SHORT if mapped => return false,
        vfs::S_BIG => mapped = false,
        _ => {}
    }
    let d = &*vfs::TEXT[k as usize];
    let s = if mapped {
        feed(p, d, 0, d.n, true)
    } else {
        let c = if vfs::CUT != 0 && vfs::CUT < d.n { vfs::CUT } else { d.n };
        let mut s = XML_Status::OK;
        if c > 0 {
            s = feed(p, d, 0, c, false);
        }
        if s == XML_Status::OK && c < d.n {
            s = feed(p, d, c, d.n, false);
        }
        if s == XML_Status::OK {
            s = XML_Parse(p, std::ptr::null(), 0, 1);
        }
        s
    };
    if s == XML_Status::OK {
        return true;
    }
    let w = &mut *WANT_OUT;
    if path.is_null() {
        w.lit(b"STDIN");
    } else {
        puts(w, path);
    }
    w.push(b':');
    vfs::decimal(w, XML_GetCurrentLineNumber(p) as u64);
    w.push(b':');
    vfs::decimal(w, XML_GetCurrentColumnNumber(p) as u64);
    w.lit(b": ");
    puts(w, XML_ErrorString(std::mem::transmute(XML_GetErrorCode(p))) as *const u8);
    w.push(b'\n');
    false
}

unsafe extern "C" fn external(p: XML_Parser, ctx: *const c_char, at: *const c_char, sys: *const c_char, _pub: *const c_char) -> c_int {
    if DEPTH > 3 {
        assume(false);
    }
    let q = XML_ExternalEntityParserCreate(Some(&mut *p), ctx, std::ptr::null());
    if q.is_null() {
        fail!("no parser for an external entity");
    }
    let (cp, base) = (CP, BASE);
    let s = sys as *const u8;
    let mut path = Doc::new(200);
    // relative to where the entity was declared
    let at = at as *const u8;
    if *s != b'/' && !at.is_null() {
        let mut n = len(at);
        while n > 0 && *at.add(n - 1) != b'/' {
            n -= 1;
        }
        let mut i = 0;
        while i < n {
            path.push(*at.add(i));
            i += 1;
        }
    }
    puts(&mut path, s);
    path.push(0);
    XML_SetBase(q, path.b as *const c_char);
    CP = q;
    BASE = path.b;
    DEPTH += 1;
    let r = parse(q, path.b, !(*OPT).read);
    DEPTH -= 1;
    XML_ParserFree(q);
    CP = cp;
    BASE = base;
    r as c_int
}

/// what the options mean; or the exit status they lead to at once
unsafe fn options(a: &[*const u8], n: usize) -> Result<(Opt, usize), c_int> {
    let z = std::ptr::null();
    let mut r = Opt { read: false, standalone: false, ns: false, pe: false, ext: false, notations: false, kind: 0, dir: z, enc: z };
    let mut i = 1;
    while i < n && *a[i] == b'-' {
        let s = a[i].add(1);
        i += 1;
        if *s == b'-' && *s.add(1) == 0 {
            break;
        }
        if *s == 0 {
            return Err(2);
        }
        let mut j = 0;
        while *s.add(j) != 0 {
            let c = *s.add(j);
            j += 1;
            match c {
                b'r' => r.read = true,
                b's' => r.standalone = true,
                b'n' => r.ns = true,
                b'p' => {
                    r.pe = true;
                    r.ext = true;
                }
                b'x' => r.ext = true,
                b'w' => {}
                b'm' | b't' => r.kind = c,
                b'c' => {
                    r.kind = c;
                    r.ns = false;
                }
                b'N' => r.notations = true,
                b'd' | b'e' => {
                    let mut v = s.add(j);
                    if *v == 0 {
                        if i == n {
                            return Err(2);
                        }
                        v = a[i];
                        i += 1;
                    }
                    if c == b'd' {
                        r.dir = v;
                    } else {
                        r.enc = v;
                    }
                    break;
                }
                b'h' => return Err(0),
                b'v' => {
                    version(a[0]);
                    return Err(0);
                }
                _ => return Err(2),
            }
        }
    }
    Ok((r, i))
}

unsafe fn version(prog: *const u8) {
    let w = &mut *WANT_OUT;
    let mut n = len(prog);
    while n > 0 && *prog.add(n - 1) != b'/' {
        n -= 1;
    }
    puts(w, prog.add(n));
    w.lit(b" using ");
    puts(w, XML_ExpatVersion() as *const u8);
    w.push(b'\n');
    let f = XML_GetFeatureList();
    let mut i = 0;
    while (*f.add(i)).feature != XML_FeatureEnum::END {
        if i > 0 {
            w.lit(b", ");
        }
        puts(w, (*f.add(i)).name as *const u8);
        if (*f.add(i)).value != 0 {
            w.push(b'=');
            vfs::decimal(w, (*f.add(i)).value as u64);
        }
        i += 1;
    }
    w.push(b'\n');
}

/// everything that must come of it
unsafe fn expect(a: &[*const u8], n: usize) -> c_int {
    let (op, first) = match options(a, n) {
        Ok(x) => x,
        Err(rc) => return rc,
    };
    let op = libc::memcpy(zalloc(std::mem::size_of::<Opt>()) as *mut c_void, &op as *const Opt as *const c_void, std::mem::size_of::<Opt>()) as *mut Opt;
    OPT = op;
    let stdin = first == n;
    vfs::STDIN = stdin;
    if stdin {
        (*op).read = true;
    }
    let mut i = first;
    loop {
        let path = if stdin { std::ptr::null() } else { a[i] };
        let e = (*op).enc as *const c_char;
        let p = if (*op).ns { XML_ParserCreateNS(e, 1) } else { XML_ParserCreate(e) };
        CP = p;
        BASE = path;
        if (*op).standalone {
            XML_SetNotStandaloneHandler(p, Some(refuse));
        }
        if (*op).pe {
            XML_SetParamEntityParsing(p, XML_ParamEntityParsing::ALWAYS);
        }
        let mut file: *mut vfs::Out = std::ptr::null_mut();
        if (*op).kind == b't' {
            XML_SetElementHandler(p, Some(t_start), Some(t_end));
            XML_SetCharacterDataHandler(p, Some(t_text));
            XML_SetProcessingInstructionHandler(p, Some(t_pi));
        } else if !(*op).dir.is_null() {
            let mut nm = Doc::new(64);
            puts(&mut nm, (*op).dir);
            nm.push(b'/');
            if stdin {
                nm.lit(b"STDIN");
            } else {
                let mut k = len(path);
                while k > 0 && *path.add(k - 1) != b'/' {
                    k -= 1;
                }
                puts(&mut nm, path.add(k));
            }
            nm.push(0);
            if !vfs::writable(nm.b) {
                return 1;
            }
            file = vfs::new_out(nm.b, 4096);
            WANT[NWANT] = file;
            NWANT += 1;
            O = &mut (*file).d;
            match (*op).kind {
                b'm' => {
                    XML_SetElementHandler(p, Some(m_start), Some(m_end));
                    XML_SetProcessingInstructionHandler(p, Some(m_pi));
                    XML_SetCommentHandler(p, Some(m_comment));
                    XML_SetCdataSectionHandler(p, Some(m_cd0), Some(m_cd1));
                    XML_SetCharacterDataHandler(p, Some(m_text));
                    XML_SetDoctypeDeclHandler(p, Some(m_doctype), Some(m_enddoctype));
                    XML_SetEntityDeclHandler(p, Some(m_entity));
                    XML_SetNotationDeclHandler(p, Some(m_notation));
                    XML_SetNamespaceDeclHandler(p, Some(m_ns), Some(m_endns));
                    o().lit(b"<document>\n");
                }
                b'c' => {
                    XML_SetElementHandler(p, Some(k_start), Some(k_end));
                    XML_SetCharacterDataHandler(p, Some(k_text));
                    XML_SetProcessingInstructionHandler(p, Some(k_pi));
                    XML_SetDefaultHandler(p, Some(k_default));
                }
                _ => {
                    XML_SetElementHandler(p, Some(c_start), Some(c_end));
                    XML_SetCharacterDataHandler(p, Some(c_text));
                    XML_SetProcessingInstructionHandler(p, Some(c_pi));
                    if (*op).notations {
                        XML_SetDoctypeDeclHandler(p, Some(c_doctype), Some(c_enddoctype));
                        XML_SetNotationDeclHandler(p, Some(c_notation));
                    }
                }
            }
        }
        XML_SetBase(p, path as *const c_char);
        if (*op).ext {
            XML_SetExternalEntityRefHandler(p, Some(external));
        }
        let r = parse(p, path, !(*op).read);
        XML_ParserFree(p);
        if !file.is_null() {
            if (*op).kind == b'm' {
                o().lit(b"</document>\n");
            }
            (*file).removed = !r;
        }
        if !r {
            reach!("rejected");
            return 2;
        }
        reach!("accepted");
        i += 1;
        if stdin || i >= n {
            return 0;
        }
    }
}

unsafe fn same(a: &Doc, b: &Doc) -> bool {
    a.n == b.n && bytes_eq(a.b, b.b, a.n)
}

unsafe fn judge(rc: c_int) {
    note(rc as u64);
    check!(rc == WANT_RC, "exit status");
    let so = &*(vfs::stdout as *mut vfs::Out);
    check!(same(&so.d, &*WANT_OUT), "standard output");
    check!(vfs::NOUTS == NWANT, "number of output files");
    let mut i = 0;
    while i < NWANT {
        let (w, g) = (&*WANT[i], &*vfs::OUTS[i]);
        check!(vfs::strcmp(w.name as *const c_char, g.name as *const c_char) == 0, "name of the output file");
        check!(!g.open, "output file left open");
        check!(w.removed == g.removed, "output file kept for a rejected document, or removed for an accepted one");
        if !w.removed {
            note(g.d.n as u64);
            check!(same(&w.d, &g.d), "contents of the output file");
        }
        i += 1;
    }
    check!(vfs::OPENFDS == 0, "input file left open");
}

/// p0 template, or 1000 + index of the texts in h_ext.rs; p1 free bytes per hole; p2 arguments; p3 state of a file + 8 * which
/// (0-2 entities, 4 document); p4 0 or 1 + op of h_mut on the document; p5 1: files are read in two pieces, cut anywhere;
/// p6 1: the copy is the document itself
#[no_mangle]
pub unsafe extern "C" fn h_wf() {
    let n = param(1) as usize;
    let op = param(4);
    let mk = |t: &[u8], op: u64| {
        let mut d = Doc::new(t.len() + 4 * n + 8);
        for &c in t {
            if c != 1 {
                d.push(c);
            } else if op == 0 {
                let mut i = 0;
                while i < n {
                    d.sym();
                    i += 1;
                }
            }
        }
        let r = zalloc(std::mem::size_of::<Doc>()) as *mut Doc;
        std::ptr::write(r, if op == 0 { d } else { change(d, op - 1) });
        r
    };
    if param(0) < 1000 {
        vfs::TEXT[4] = mk(tpl::T[param(0) as usize].1, op);
        let e = mk(b"x", 0);
        vfs::TEXT[0] = e;
        vfs::TEXT[1] = e;
        vfs::TEXT[2] = e;
    } else {
        let x = &X[param(0) as usize - 1000];
        vfs::TEXT[4] = mk(x.1, op);
        vfs::TEXT[0] = mk(x.2[0], 0);
        vfs::TEXT[1] = mk(x.2[1], 0);
        vfs::TEXT[2] = mk(x.2[2], 0);
    }
    vfs::TEXT[5] = mk(b"<b c='&#38;&#10;' a='1'>&#60;\t\"</b>", 0);
    vfs::TEXT[3] = vfs::TEXT[5];
    vfs::STATE[(param(3) >> 3) as usize] = (param(3) & 7) as u8;
    if param(5) != 0 {
        vfs::CUT = 1 + choice((*vfs::TEXT[4]).n);
    }
    // the arguments
    let mut argv: [*mut c_char; 8] = [std::ptr::null_mut(); 8];
    argv[0] = b"/bin/xmlwf\0".as_ptr() as *mut c_char;
    let mut argc = 1;
    let mut free = 0;
    for s in ARGS[param(2) as usize].1 {
        let mut d = Doc::new(s.len() + 1);
        for &c in *s {
            if c == 1 {
                free += 1;
                d.sym();
            } else {
                d.push(c);
            }
        }
        d.push(0);
        argv[argc] = d.b as *mut c_char;
        argc += 1;
    }
    WANT_OUT = zalloc(std::mem::size_of::<Doc>()) as *mut Doc;
    std::ptr::write(WANT_OUT, Doc::new(4096));
    let mut a: [*const u8; 8] = [std::ptr::null(); 8];
    let mut i = 0;
    while i < argc {
        a[i] = dup(argv[i]);
        i += 1;
    }
    vfs::init();
    WANT_RC = expect(&a, argc);
    if param(6) == 1 && WANT_RC == 0 && free == 0 {
        check!(same(&(*WANT[0]).d, &*vfs::TEXT[4]), "the copy of a document differs from it");
    }
    vfs::AT_EXIT = Some(judge);
    let live = LIVE;
    let rc = crate::xmlwf::main_0(argc as c_int, argv.as_mut_ptr());
    judge(rc);
    check!(LIVE == live && vfs::BLOCKS == 0, "memory still allocated");
    vfs::done();
}
