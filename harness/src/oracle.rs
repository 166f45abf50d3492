//! Reference parser: a direct reading of XML 1.0 / Namespaces 1.0 plus the documented behaviour of
//! expat (handler events, error codes), written independently of the code under test.
//! Works on a whole UTF-8 document; produces the same event log as the real handlers.
use crate::ctx::*;
use crate::names::*;
use crate::rt::*;

pub const E_SYNTAX: u32 = 2;
pub const E_NOELEM: u32 = 3;
pub const E_INVALID: u32 = 4;
pub const E_UNCLOSED: u32 = 5;
pub const E_PARTIAL: u32 = 6;
pub const E_TAG: u32 = 7;
pub const E_DUP: u32 = 8;
pub const E_JUNK: u32 = 9;
pub const E_UNDEF: u32 = 11;
pub const E_RECUR: u32 = 12;
pub const E_ASYNC: u32 = 13;
pub const E_BADREF: u32 = 14;
pub const E_BINARY: u32 = 15;
pub const E_ATTEXT: u32 = 16;
pub const E_XMLPI: u32 = 17;
pub const E_CDATA: u32 = 20;
pub const E_UNBOUND: u32 = 27;
pub const E_UNDECL: u32 = 28;
pub const E_RES_XML: u32 = 38;
pub const E_RES_XMLNS: u32 = 39;
pub const E_RES_URI: u32 = 40;
/// an error whose code the oracle does not predict
pub const E_ANY: u32 = 999;

pub type R = Result<(), u32>;

// character classes
pub const INV: u8 = 0;
pub const WS: u8 = 1;
pub const CR: u8 = 2;
pub const LF: u8 = 3;
pub const NST: u8 = 4; // letter or underscore
pub const DIG: u8 = 5;
pub const NMC: u8 = 6; // '-' and '.'
pub const COL: u8 = 7;
pub const OTH: u8 = 8;
pub const L2: u8 = 9;
pub const L3: u8 = 10;
pub const L4: u8 = 11;
pub const LT: u8 = 12;
pub const AMP: u8 = 13;
pub const RSQ: u8 = 14;
pub const GT: u8 = 15;
pub const QUO: u8 = 16;
pub const APO: u8 = 17;
pub const SOL: u8 = 18;
pub const QST: u8 = 19;
pub const EQL: u8 = 20;
pub const HASH: u8 = 21;
pub const SEMI: u8 = 22;
pub const EXC: u8 = 23;

pub fn cls(c: u8) -> u8 {
    match c {
        b' ' | b'\t' => WS,
        b'\r' => CR,
        b'\n' => LF,
        b'a'..=b'z' | b'A'..=b'Z' | b'_' => NST,
        b'0'..=b'9' => DIG,
        b'-' | b'.' => NMC,
        b':' => COL,
        b'<' => LT,
        b'&' => AMP,
        b']' => RSQ,
        b'>' => GT,
        b'"' => QUO,
        b'\'' => APO,
        b'/' => SOL,
        b'?' => QST,
        b'=' => EQL,
        b'#' => HASH,
        b';' => SEMI,
        b'!' => EXC,
        0..=0x1f => INV,
        0x20..=0x7f => OTH,
        0x80..=0xbf => INV,
        0xc0..=0xdf => L2,
        0xe0..=0xef => L3,
        0xf0..=0xf4 => L4,
        _ => INV,
    }
}

pub fn is_ws(k: u8) -> bool {
    k == WS || k == CR || k == LF
}

#[derive(Clone, Copy)]
pub struct Sl {
    pub p: *const u8,
    pub n: usize,
}

impl Sl {
    pub const NIL: Sl = Sl { p: std::ptr::null(), n: 0 };
    #[inline(always)]
    pub unsafe fn at(&self, i: usize) -> u8 {
        *self.p.add(i)
    }
    pub unsafe fn sub(&self, a: usize, b: usize) -> Sl {
        Sl { p: self.p.add(a), n: b - a }
    }
    pub unsafe fn eq(&self, o: &Sl) -> bool {
        self.n == o.n && bytes_eq(self.p, o.p, self.n)
    }
    pub unsafe fn is(&self, s: &[u8]) -> bool {
        self.n == s.len() && bytes_eq(self.p, s.as_ptr(), self.n)
    }
    pub fn of(s: &'static [u8]) -> Sl {
        Sl { p: s.as_ptr(), n: s.len() }
    }
    pub unsafe fn has(&self, i: usize, s: &[u8]) -> bool {
        i + s.len() <= self.n && bytes_eq(self.p.add(i), s.as_ptr(), s.len())
    }
}

/// growable byte buffer without reallocation
pub struct Buf {
    pub p: *mut u8,
    pub n: usize,
    pub cap: usize,
}
impl Buf {
    pub unsafe fn new(cap: usize) -> Buf {
        Buf { p: libc::malloc(cap) as *mut u8, n: 0, cap }
    }
    pub unsafe fn put(&mut self, c: u8) {
        if self.n >= self.cap {
            fail!("harness: oracle buffer overflow");
            return;
        }
        *self.p.add(self.n) = c;
        self.n += 1;
    }
    pub unsafe fn puts(&mut self, s: Sl) {
        let mut i = 0;
        while i < s.n {
            self.put(s.at(i));
            i += 1;
        }
    }
    pub unsafe fn sl(&self) -> Sl {
        Sl { p: self.p, n: self.n }
    }
    pub unsafe fn from(&self, a: usize) -> Sl {
        Sl { p: self.p.add(a), n: self.n - a }
    }
}

#[derive(Clone, Copy)]
pub struct Ent {
    pub name: Sl,
    pub val: Sl,
    pub internal: bool,
    pub unparsed: bool,
    pub open: bool,
    /// declared inside a parameter entity or outside of the document entity
    pub inpe: bool,
    pub base: Sl,
    pub sys: Sl,
    pub pb: Sl,
}

/// a table in zeroed memory
pub struct Tab<T> {
    p: *mut T,
    n: usize,
}

impl<T> Tab<T> {
    pub unsafe fn new(n: usize) -> Tab<T> {
        Tab { p: zalloc(n * std::mem::size_of::<T>()) as *mut T, n }
    }
}

impl<T> std::ops::Index<usize> for Tab<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        assert!(i < self.n);
        unsafe { &*self.p.add(i) }
    }
}

impl<T> std::ops::IndexMut<usize> for Tab<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.n);
        unsafe { &mut *self.p.add(i) }
    }
}

pub const MAXN: usize = 300;
pub const MAXS: usize = 120;
pub const MAXA: usize = 120;
#[derive(Clone, Copy)]
pub struct Node {
    pub ty: u64,
    pub q: u64,
    pub name: Sl,
    pub nchild: u64,
    pub first: usize,
    pub next: usize,
}

#[derive(Clone, Copy)]
pub struct AttDef {
    pub el: Sl,
    pub name: Sl,
    pub cdata: bool,
    /// null = no default
    pub dflt: Sl,
}

#[derive(Clone, Copy)]
pub struct Att {
    pub name: Sl,
    pub val: Sl,
    pub done: bool,
}

#[derive(Clone, Copy)]
pub struct Bind {
    pub prefix: Sl,
    /// null = undeclared
    pub uri: Sl,
    pub level: usize,
}

pub const MAXE: usize = 240;

pub struct Orc {
    pub log: *mut Log,
    pub mask: u32,
    /// namespace processing with this separator
    pub ns: bool,
    pub sep: u8,
    pub triplets: bool,
    pub ents: Tab<Ent>,
    pub nents: usize,
    pub defs: Tab<AttDef>,
    pub ndefs: usize,
    pub stack: Tab<Sl>,
    pub depth: usize,
    pub binds: Tab<Bind>,
    pub nbinds: usize,
    /// references to undeclared entities are skipped (unread parameter entities, not standalone)
    pub lenient: bool,
    pub pool: Buf,
    /// where (offset in the document) the error was detected; unused when usize::MAX
    pub specified: usize,
    pub epi_any: bool,
    // document type declaration
    pub pents: Tab<Ent>,
    pub npents: usize,
    pub nodes: Tab<Node>,
    pub nnodes: usize,
    pub base: Sl,
    /// parameter entity parsing mode (XML_SetParamEntityParsing)
    pub pe: u8,
    pub haspe: bool,
    pub standalone: bool,
    pub keep: bool,
    pub inpe_depth: usize,
    /// inside the replacement text of an internal entity: line ends are those of the text
    pub raw: bool,
    /// parameter entities and subsets outside of the document being read
    pub ext: usize,
    /// open INCLUDE sections
    pub incl: usize,
    /// what the external entity handler does: 1 nothing, 2 reads the text, 3 fails
    pub ext_mode: u8,
    /// the texts it reads, see ext_index
    pub ext_txt: [Sl; 4],
    /// base URI it sets for the nested parser
    pub nbase: Sl,
    /// error codes of nested parsers
    pub nested: [u32; 8],
    pub nnested: usize,
    pub notstand_ret: bool,
    /// XML_UseForeignDTD
    pub foreign: bool,
    /// an encoding was given from outside
    pub protocol: bool,
    /// inside the document type declaration
    pub sloppy: bool,
}

pub const XML_URI: &[u8] = b"http://www.w3.org/XML/1998/namespace";
pub const XMLNS_URI: &[u8] = b"http://www.w3.org/2000/xmlns/";

pub unsafe fn utf8_put(b: &mut Buf, c: u32) {
    if c < 0x80 {
        b.put(c as u8);
    } else if c < 0x800 {
        b.put(0xc0 | (c >> 6) as u8);
        b.put(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        b.put(0xe0 | (c >> 12) as u8);
        b.put(0x80 | (c >> 6 & 63) as u8);
        b.put(0x80 | (c & 63) as u8);
    } else {
        b.put(0xf0 | (c >> 18) as u8);
        b.put(0x80 | (c >> 12 & 63) as u8);
        b.put(0x80 | (c >> 6 & 63) as u8);
        b.put(0x80 | (c & 63) as u8);
    }
}

impl Orc {
    pub unsafe fn new(log: *mut Log, mask: u32) -> Orc {
        Orc {
            log,
            mask,
            ns: false,
            sep: 0,
            triplets: false,
            ents: Tab::new(MAXE),
            nents: 0,
            defs: Tab::new(MAXE),
            ndefs: 0,
            stack: Tab::new(MAXS),
            depth: 0,
            binds: Tab::new(MAXS),
            nbinds: 0,
            lenient: false,
            pool: Buf::new(CAP),
            specified: 0,
            epi_any: false,
            pents: Tab::new(MAXE),
            npents: 0,
            nodes: Tab::new(MAXN),
            nnodes: 0,
            base: Sl::NIL,
            pe: 0,
            haspe: false,
            standalone: false,
            keep: true,
            inpe_depth: 0,
            raw: false,
            ext: 0,
            incl: 0,
            ext_mode: 0,
            ext_txt: [Sl::NIL; 4],
            nbase: Sl::NIL,
            nested: [0; 8],
            nnested: 0,
            notstand_ret: true,
            foreign: false,
            protocol: false,
            sloppy: false,
        }
    }
    pub unsafe fn l(&mut self) -> &mut Log {
        &mut *self.log
    }
    pub fn on(&self, m: u32) -> bool {
        self.mask & m != 0
    }
    /// log bytes in the parser's output encoding
    pub unsafe fn out(&mut self, s: Sl) {
        if std::mem::size_of::<XML_Char>() == 1 {
            let mut i = 0;
            while i < s.n {
                (*self.log).put(s.at(i), K_DATA);
                i += 1;
            }
            return;
        }
        let mut i = 0;
        while i < s.n {
            let c = s.at(i);
            let k = cls(c);
            let (cp, n) = match k {
                L2 => ((c as u32 & 0x1f) << 6 | s.at(i + 1) as u32 & 63, 2),
                L3 => ((c as u32 & 15) << 12 | (s.at(i + 1) as u32 & 63) << 6 | s.at(i + 2) as u32 & 63, 3),
                L4 => ((c as u32 & 7) << 18 | (s.at(i + 1) as u32 & 63) << 12 | (s.at(i + 2) as u32 & 63) << 6 | s.at(i + 3) as u32 & 63, 4),
                _ => (c as u32, 1),
            };
            let mut u = |x: u32| {
                (*self.log).put(x as u8, K_DATA);
                (*self.log).put((x >> 8) as u8, K_DATA);
            };
            if cp >= 0x10000 {
                u(0xd800 + ((cp - 0x10000) >> 10));
                u(0xdc00 + (cp - 0x10000 & 0x3ff));
            } else {
                u(cp);
            }
            i += n;
        }
    }
    pub unsafe fn str(&mut self, s: Sl) {
        if s.p.is_null() {
            self.l().put(0, K_NULL);
            return;
        }
        self.out(s);
        self.l().end();
    }
    pub unsafe fn text(&mut self, s: Sl) {
        if self.on(H_TEXT) {
            if self.l().last != b'T' {
                self.l().tag(b'T');
            }
            self.out(s);
        }
    }

    /// length of the character at i, which is known to be inside s
    pub unsafe fn ch(&self, s: Sl, i: usize) -> Result<usize, u32> {
        let c = s.at(i);
        let n = match cls(c) {
            INV => return Err(E_INVALID),
            L2 => 2,
            L3 => 3,
            L4 => 4,
            _ => return Ok(1),
        };
        if i + n > s.n {
            return Err(E_PARTIAL);
        }
        let c1 = s.at(i + 1);
        let cont = |x: u8| x & 0xc0 == 0x80;
        let ok = if n == 2 {
            c >= 0xc2 && cont(c1)
        } else if n == 3 {
            let c2 = s.at(i + 2);
            cont(c1)
                && cont(c2)
                && (c != 0xe0 || c1 >= 0xa0)
                && (c != 0xed || c1 < 0xa0)
                && !(c == 0xef && c1 == 0xbf && c2 >= 0xbe)
        } else {
            cont(c1) && cont(s.at(i + 2)) && cont(s.at(i + 3)) && (c != 0xf0 || c1 >= 0x90) && (c != 0xf4 || c1 < 0x90)
        };
        if ok {
            Ok(n)
        } else {
            Err(E_INVALID)
        }
    }
    /// 0 = not a name character, 1 = name character, 2 = name start character; with its length
    pub unsafe fn namech(&self, s: Sl, i: usize) -> Result<(u8, usize), u32> {
        let c = s.at(i);
        match cls(c) {
            NST => Ok((2, 1)),
            COL => Ok((if self.ns { 3 } else { 2 }, 1)),
            DIG | NMC => Ok((1, 1)),
            L2 | L3 => {
                let n = self.ch(s, i)?;
                let cp = if n == 2 {
                    (c as u32 & 0x1f) << 6 | s.at(i + 1) as u32 & 63
                } else {
                    (c as u32 & 15) << 12 | (s.at(i + 1) as u32 & 63) << 6 | s.at(i + 2) as u32 & 63
                };
                let w = (cp >> 5) as usize;
                let b = 1u32 << (cp & 31);
                if NMSTRT[w] & b != 0 {
                    Ok((2, n))
                } else if NMCHAR[w] & b != 0 {
                    Ok((1, n))
                } else {
                    Ok((0, n))
                }
            }
            L4 => {
                let n = self.ch(s, i)?;
                Ok((0, n))
            }
            INV => Err(E_INVALID),
            _ => Ok((0, 1)),
        }
    }
    /// a name (no colon handling beyond `colon`): index after it. Err when there is no name start.
    /// `colon`: 0 colon ends the name / is an error for the caller, 1 at most one colon between
    /// two non-empty parts (qualified name), 2 colons anywhere after the first character
    pub unsafe fn name(&self, s: Sl, i: usize, colon: u8) -> Result<usize, u32> {
        if i >= s.n {
            return Err(E_UNCLOSED);
        }
        let (k, n) = self.namech(s, i)?;
        if k != 2 {
            return Err(E_INVALID);
        }
        let mut j = i + n;
        let mut had = false;
        while j < s.n {
            let (k, n) = self.namech(s, j)?;
            if k == 0 {
                return Ok(j);
            }
            if k == 3 {
                if colon == 0 {
                    return Ok(j);
                }
                if colon == 1 {
                    if had {
                        return Err(E_INVALID);
                    }
                    had = true;
                    if j + 1 >= s.n {
                        return Err(E_UNCLOSED);
                    }
                    let (k2, n2) = self.namech(s, j + 1)?;
                    if k2 != 2 {
                        return Err(E_INVALID);
                    }
                    j += 1 + n2;
                    continue;
                }
            }
            j += n;
        }
        Ok(j)
    }
    pub unsafe fn skip_ws(&self, s: Sl, mut i: usize) -> usize {
        while i < s.n && is_ws(cls(s.at(i))) {
            i += 1;
        }
        i
    }
    /// "--" comment starting at i = index of "<!-"'s last char + 1 ... i.e. just after "<!-"; returns index after "-->"
    pub unsafe fn comment(&mut self, s: Sl, i: usize) -> Result<usize, u32> {
        if i >= s.n {
            return Err(E_UNCLOSED);
        }
        if s.at(i) != b'-' {
            return Err(E_INVALID);
        }
        let st = i + 1;
        let mut j = st;
        loop {
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            if s.at(j) == b'-' {
                if j + 1 >= s.n {
                    return Err(E_UNCLOSED);
                }
                if s.at(j + 1) == b'-' {
                    if j + 2 >= s.n {
                        return Err(E_UNCLOSED);
                    }
                    if s.at(j + 2) != b'>' {
                        return Err(E_INVALID);
                    }
                    break;
                }
                j += 1;
                continue;
            }
            j += self.ch(s, j)?;
        }
        if self.on(H_COMMENT) {
            self.l().tag(b'C');
            let v = self.nl(s, st, j);
            self.str(v);
        }
        Ok(j + 3)
    }
    /// line ends normalised copy
    unsafe fn nl(&mut self, s: Sl, a: usize, b: usize) -> Sl {
        let o = self.pool.n;
        let mut i = a;
        while i < b {
            let c = s.at(i);
            if c == b'\r' {
                self.pool.put(b'\n');
                if i + 1 < b && s.at(i + 1) == b'\n' {
                    i += 1;
                }
            } else {
                self.pool.put(c);
            }
            i += 1;
        }
        self.pool.from(o)
    }
    /// processing instruction, i just after "<?"; decl: an XML declaration is allowed here
    pub unsafe fn pi(&mut self, s: Sl, i: usize) -> Result<usize, u32> {
        let e = self.name(s, i, 0)?;
        if e >= s.n {
            return Err(E_UNCLOSED);
        }
        // "xml" in any case is reserved: the exact form is an XML declaration in the wrong place
        let mut xml = false;
        if e - i == 3 {
            let low = |k: usize| s.at(i + k) | 0x20;
            if low(0) == b'x' && low(1) == b'm' && low(2) == b'l' {
                if s.has(i, b"xml") {
                    xml = true;
                } else {
                    return Err(E_INVALID);
                }
            }
        }
        let mut j = e;
        let c = s.at(j);
        if c == b'?' {
            if j + 1 >= s.n {
                return Err(E_UNCLOSED);
            }
            if s.at(j + 1) != b'>' {
                return Err(E_INVALID);
            }
        } else if is_ws(cls(c)) {
            j = self.skip_ws(s, j);
        } else {
            return Err(E_INVALID);
        }
        let st = j;
        loop {
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            if s.at(j) == b'?' {
                if j + 1 >= s.n {
                    return Err(E_UNCLOSED);
                }
                if s.at(j + 1) == b'>' {
                    break;
                }
                j += 1;
                continue;
            }
            j += self.ch(s, j)?;
        }
        if xml {
            return Err(E_XMLPI);
        }
        if self.on(H_PI) {
            self.l().tag(b'P');
            self.str(s.sub(i, e));
            let v = self.nl(s, st, j);
            self.str(v);
        }
        Ok(j + 2)
    }
    /// reference, i just after '&': Ok((end, Some(char)) | (end, None) for an entity name
    pub unsafe fn refer(&self, s: Sl, i: usize) -> Result<(usize, Option<u32>), u32> {
        if i >= s.n {
            return Err(E_UNCLOSED);
        }
        if s.at(i) != b'#' {
            let e = self.name(s, i, 0)?;
            if e >= s.n {
                return Err(E_UNCLOSED);
            }
            if s.at(e) != b';' {
                return Err(E_INVALID);
            }
            return Ok((e + 1, None));
        }
        let mut j = i + 1;
        if j >= s.n {
            return Err(E_UNCLOSED);
        }
        let hex = s.at(j) == b'x';
        if hex {
            j += 1;
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
        }
        let st = j;
        let mut v: u32 = 0;
        loop {
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            let c = s.at(j);
            let dgt = match c {
                b'0'..=b'9' => (c - b'0') as u32,
                b'a'..=b'f' if hex => (c - b'a') as u32 + 10,
                b'A'..=b'F' if hex => (c - b'A') as u32 + 10,
                b';' if j > st => break,
                _ => {
                    return Err(E_INVALID);
                }
            };
            if v < 0x110000 {
                v = v * (if hex { 16 } else { 10 }) + dgt;
            }
            j += 1;
        }
        Ok((j + 1, Some(v)))
    }
    /// is the code point an XML Char?
    pub fn xmlchar(v: u32) -> bool {
        v == 9 || v == 10 || v == 13 || (v >= 0x20 && v < 0xd800) || (v >= 0xe000 && v < 0xfffe) || (v >= 0x10000 && v < 0x110000)
    }
    pub unsafe fn predefined(n: Sl) -> Option<u8> {
        if n.n < 2 || n.n > 4 {
            return None;
        }
        if n.is(b"lt") {
            Some(b'<')
        } else if n.is(b"gt") {
            Some(b'>')
        } else if n.is(b"amp") {
            Some(b'&')
        } else if n.is(b"quot") {
            Some(b'"')
        } else if n.is(b"apos") {
            Some(b'\'')
        } else {
            None
        }
    }
    pub unsafe fn ent(&self, n: Sl) -> Option<usize> {
        let mut i = 0;
        while i < self.nents {
            if self.ents[i].name.eq(&n) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    /// attribute value text -> normalised (before tokenisation) value appended to the pool
    /// raw: replacement text of an internal entity; chk: references must be to declared entities
    pub unsafe fn attval(&mut self, s: Sl, raw: bool, chk: bool) -> R {
        let mut i = 0;
        while i < s.n {
            let c = s.at(i);
            match cls(c) {
                AMP => {
                    let (e, v) = self.refer(s, i + 1).map_err(|_| E_INVALID)?;
                    match v {
                        Some(v) => {
                            if !Self::xmlchar(v) {
                                return Err(E_BADREF);
                            }
                            let p: *mut Buf = &mut self.pool;
                            utf8_put(&mut *p, v);
                        }
                        None => {
                            let n = s.sub(i + 1, e - 1);
                            if let Some(b) = Self::predefined(n) {
                                self.pool.put(b);
                            } else {
                                match self.ent(n) {
                                    None => {
                                        if chk {
                                            return Err(E_UNDEF);
                                        }
                                    }
                                    Some(k) => {
                                        if self.ents[k].inpe && chk {
                                            return Err(24);
                                        }
                                        if self.ents[k].open {
                                            return Err(E_RECUR);
                                        }
                                        if self.ents[k].unparsed {
                                            return Err(E_BINARY);
                                        }
                                        if !self.ents[k].internal {
                                            return Err(E_ATTEXT);
                                        }
                                        self.ents[k].open = true;
                                        let v = self.ents[k].val;
                                        self.attval(v, true, chk)?;
                                        self.ents[k].open = false;
                                    }
                                }
                            }
                        }
                    }
                    i = e;
                }
                WS | LF => {
                    self.pool.put(b' ');
                    i += 1;
                }
                CR => {
                    self.pool.put(b' ');
                    i += 1;
                    if !raw && i < s.n && s.at(i) == b'\n' {
                        i += 1;
                    }
                }
                LT => return Err(E_INVALID),
                _ => {
                    let n = self.ch(s, i).map_err(|_| E_INVALID)?;
                    let mut k = 0;
                    while k < n {
                        self.pool.put(s.at(i + k));
                        k += 1;
                    }
                    i += n;
                }
            }
        }
        Ok(())
    }
    /// tokenised-type normalisation: strip and collapse spaces (not character-reference tabs/newlines)
    pub unsafe fn collapse(&mut self, v: Sl) -> Sl {
        let o = self.pool.n;
        let mut i = 0;
        let mut pend = false;
        while i < v.n {
            let c = v.at(i);
            if c == b' ' {
                pend = self.pool.n > o;
            } else {
                if pend {
                    self.pool.put(b' ');
                }
                pend = false;
                self.pool.put(c);
            }
            i += 1;
        }
        self.pool.from(o)
    }
    /// scan the attributes of a start tag; i at the first character after the name.
    /// Ok((index after '>', empty-element, attributes stored in atts))
    unsafe fn scan_atts(&self, s: Sl, i: usize, atts: &mut Tab<Att>, na: &mut usize) -> Result<(usize, bool), u32> {
        let mut j = i;
        loop {
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            let c = s.at(j);
            let k = cls(c);
            if k == GT {
                return Ok((j + 1, false));
            }
            if k == SOL {
                if j + 1 >= s.n {
                    return Err(E_UNCLOSED);
                }
                if s.at(j + 1) != b'>' {
                    return Err(E_INVALID);
                }
                return Ok((j + 2, true));
            }
            if !is_ws(k) {
                return Err(E_INVALID);
            }
            j = self.skip_ws(s, j);
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            let k = cls(s.at(j));
            if k == GT || k == SOL {
                continue;
            }
            let ne = self.name(s, j, 1)?;
            let nm = s.sub(j, ne);
            j = self.skip_ws(s, ne);
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            if s.at(j) != b'=' {
                return Err(E_INVALID);
            }
            j = self.skip_ws(s, j + 1);
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            let q = s.at(j);
            if q != b'"' && q != b'\'' {
                return Err(E_INVALID);
            }
            j += 1;
            let vs = j;
            loop {
                if j >= s.n {
                    return Err(E_UNCLOSED);
                }
                let c = s.at(j);
                if c == q {
                    break;
                }
                match cls(c) {
                    LT => return Err(E_INVALID),
                    AMP => {
                        let (e, _) = self.refer(s, j + 1)?;
                        j = e;
                    }
                    _ => j += self.ch(s, j)?,
                }
            }
            if *na >= MAXA {
                fail!("harness: too many attributes for the oracle");
                return Err(E_ANY);
            }
            atts[*na] = Att { name: nm, val: s.sub(vs, j), done: false };
            *na += 1;
            j += 1;
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            let k = cls(s.at(j));
            if !(is_ws(k) || k == GT || k == SOL) {
                return Err(E_INVALID);
            }
        }
    }
    unsafe fn def(&self, el: Sl, at: Sl) -> Option<usize> {
        let mut i = 0;
        while i < self.ndefs {
            if self.defs[i].el.eq(&el) && self.defs[i].name.eq(&at) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    unsafe fn prefix_of(n: Sl) -> (Sl, Sl) {
        let mut i = 0;
        while i < n.n {
            if n.at(i) == b':' {
                return (n.sub(0, i), n.sub(i + 1, n.n));
            }
            i += 1;
        }
        (Sl::NIL, n)
    }
    unsafe fn lookup(&self, p: Sl) -> Sl {
        let mut i = self.nbinds;
        while i > 0 {
            i -= 1;
            if self.binds[i].prefix.n == p.n && self.binds[i].prefix.eq(&p) {
                return self.binds[i].uri;
            }
        }
        if p.is(b"xml") {
            return Sl::of(XML_URI);
        }
        Sl::NIL
    }
    /// expanded name for the event log, appended to the pool
    unsafe fn expand(&mut self, uri: Sl, local: Sl, prefix: Sl) -> Sl {
        let o = self.pool.n;
        if !uri.p.is_null() {
            self.pool.puts(uri);
            if self.sep != 0 {
                self.pool.put(self.sep);
            }
        }
        self.pool.puts(local);
        if self.triplets && !uri.p.is_null() && prefix.n > 0 {
            if self.sep != 0 {
                self.pool.put(self.sep);
            }
            self.pool.puts(prefix);
        }
        self.pool.from(o)
    }
    unsafe fn bind(&mut self, prefix: Sl, uri: Sl) -> R {
        // prefix empty = default namespace
        if prefix.n > 0 {
            if uri.n == 0 {
                return Err(E_UNDECL);
            }
            if prefix.is(b"xmlns") {
                return Err(E_RES_XMLNS);
            }
        }
        let isxml = uri.is(XML_URI);
        if prefix.n > 0 && prefix.is(b"xml") {
            if !isxml {
                return Err(E_RES_XML);
            }
        } else if isxml || uri.is(XMLNS_URI) {
            return Err(E_RES_URI);
        }
        if self.nbinds >= MAXS {
            fail!("harness: too many bindings for the oracle");
            return Err(E_ANY);
        }
        self.binds[self.nbinds] = Bind { prefix, uri: if uri.n == 0 { Sl::NIL } else { uri }, level: self.depth };
        self.nbinds += 1;
        if self.on(H_NS) {
            self.l().tag(b'N');
            self.str(if prefix.n == 0 { Sl::NIL } else { prefix });
            self.str(if uri.n == 0 { Sl::NIL } else { uri });
        }
        Ok(())
    }
    /// start tag; i just after '<' with a name start there. Returns (end, empty)
    unsafe fn start_tag(&mut self, s: Sl, i: usize) -> Result<(usize, bool), u32> {
        let ne = self.name(s, i, 1)?;
        if ne >= s.n {
            return Err(E_UNCLOSED);
        }
        let el = s.sub(i, ne);
        let mut atts: Tab<Att> = Tab::new(MAXA);
        let mut na = 0;
        let (e, empty) = self.scan_atts(s, ne, &mut atts, &mut na)?;
        self.depth += 1;
        match self.start_atts(el, &mut atts, na, empty) {
            Ok(()) => Ok((e, empty)),
            Err(r) => {
                // the declarations of a rejected empty-element tag end here
                if empty {
                    self.unbind();
                }
                Err(r)
            }
        }
    }
    unsafe fn start_atts(&mut self, el: Sl, atts: &mut Tab<Att>, na: usize, empty: bool) -> R {
        let mut na = na;
        // values
        let mut a = 0;
        while a < na {
            let mut b = 0;
            while b < a {
                if atts[a].name.eq(&atts[b].name) {
                    return Err(E_DUP);
                }
                b += 1;
            }
            let o = self.pool.n;
            let (raw, chk) = (self.raw, !self.lenient);
            self.attval(atts[a].val, raw, chk)?;
            let mut v = self.pool.from(o);
            if let Some(d) = self.def(el, atts[a].name) {
                if !self.defs[d].cdata {
                    v = self.collapse(v);
                }
            }
            atts[a].val = v;
            if self.ns {
                let (p, loc) = Self::prefix_of(atts[a].name);
                if p.p.is_null() && loc.is(b"xmlns") {
                    self.bind(Sl::of(b""), v)?;
                    atts[a].done = true;
                } else if !p.p.is_null() && p.is(b"xmlns") {
                    self.bind(loc, v)?;
                    atts[a].done = true;
                }
            }
            a += 1;
        }
        let given = na;
        // defaults
        let mut d = 0;
        while d < self.ndefs {
            let df = self.defs[d];
            if df.el.eq(&el) && !df.dflt.p.is_null() {
                let mut have = false;
                let mut b = 0;
                while b < given {
                    have |= atts[b].name.eq(&df.name);
                    b += 1;
                }
                if !have {
                    if na >= MAXA {
                        fail!("harness: too many attributes for the oracle");
                        return Err(E_ANY);
                    }
                    atts[na] = Att { name: df.name, val: df.dflt, done: false };
                    if self.ns {
                        let (p, loc) = Self::prefix_of(df.name);
                        if p.p.is_null() && loc.is(b"xmlns") {
                            self.bind(Sl::of(b""), df.dflt)?;
                            atts[na].done = true;
                        } else if !p.p.is_null() && p.is(b"xmlns") {
                            self.bind(loc, df.dflt)?;
                            atts[na].done = true;
                        }
                    }
                    na += 1;
                }
            }
            d += 1;
        }
        // expanded names
        let mut full = el;
        if self.ns {
            let mut a = 0;
            while a < na {
                if !atts[a].done {
                    let (p, loc) = Self::prefix_of(atts[a].name);
                    if !p.p.is_null() {
                        let u = self.lookup(p);
                        if u.p.is_null() {
                            return Err(E_UNBOUND);
                        }
                        let mut b = 0;
                        while b < a {
                            if !atts[b].done {
                                let (p2, loc2) = Self::prefix_of(atts[b].name);
                                if !p2.p.is_null() && loc2.eq(&loc) && self.lookup(p2).eq(&u) {
                                    return Err(E_DUP);
                                }
                            }
                            b += 1;
                        }
                    }
                }
                a += 1;
            }
            let (p, loc) = Self::prefix_of(el);
            let u = if p.p.is_null() { self.lookup(Sl::of(b"")) } else { self.lookup(p) };
            if !p.p.is_null() && u.p.is_null() {
                return Err(E_UNBOUND);
            }
            full = self.expand(u, loc, p);
        }
        if self.on(H_ELEM) {
            self.l().tag(b'S');
            self.str(full);
            let mut a = 0;
            while a < na {
                if !atts[a].done {
                    let nm = if self.ns {
                        let (p, loc) = Self::prefix_of(atts[a].name);
                        if p.p.is_null() {
                            loc
                        } else {
                            let u = self.lookup(p);
                            self.expand(u, loc, p)
                        }
                    } else {
                        atts[a].name
                    };
                    self.str(nm);
                    self.str(atts[a].val);
                }
                a += 1;
            }
        }
        if self.depth >= MAXS {
            fail!("harness: too deep for the oracle");
            return Err(E_ANY);
        }
        self.stack[self.depth] = el;
        if empty {
            self.close(full);
        }
        Ok(())
    }
    unsafe fn close(&mut self, full: Sl) {
        if self.on(H_ELEM) {
            self.l().tag(b'E');
            self.str(full);
        }
        self.unbind();
        self.depth -= 1;
    }
    unsafe fn unbind(&mut self) {
        while self.nbinds > 0 && self.binds[self.nbinds - 1].level == self.depth {
            self.nbinds -= 1;
            let p = self.binds[self.nbinds].prefix;
            if self.on(H_NS) {
                self.l().tag(b'n');
                self.str(if p.n == 0 { Sl::NIL } else { p });
            }
        }
    }
    unsafe fn end_tag(&mut self, s: Sl, i: usize, base: usize) -> Result<usize, u32> {
        let ne = self.name(s, i, 2)?;
        let j = self.skip_ws(s, ne);
        if j >= s.n {
            return Err(E_UNCLOSED);
        }
        if s.at(j) != b'>' {
            return Err(E_INVALID);
        }
        if self.depth == base {
            return Err(E_ASYNC);
        }
        let nm = s.sub(i, ne);
        if !nm.eq(&self.stack[self.depth]) {
            return Err(E_TAG);
        }
        let full = if self.ns {
            let (p, loc) = Self::prefix_of(nm);
            let u = if p.p.is_null() { self.lookup(Sl::of(b"")) } else { self.lookup(p) };
            self.expand(u, loc, p)
        } else {
            nm
        };
        self.close(full);
        Ok(j + 1)
    }
    unsafe fn cdata(&mut self, s: Sl, i: usize) -> Result<usize, u32> {
        // just after "<!["
        let w = b"CDATA[";
        let mut k = 0;
        if i + 6 > s.n {
            return Err(E_UNCLOSED);
        }
        while k < 6 {
            if s.at(i + k) != w[k] {
                return Err(E_INVALID);
            }
            k += 1;
        }
        if self.on(H_CDATA) {
            self.l().tag(b'[');
        }
        let mut j = i + 6;
        loop {
            if j >= s.n {
                return Err(E_CDATA);
            }
            let c = s.at(j);
            match cls(c) {
                RSQ => {
                    if j + 1 >= s.n {
                        return Err(E_CDATA);
                    }
                    if s.at(j + 1) == b']' {
                        if j + 2 >= s.n {
                            return Err(E_CDATA);
                        }
                        if s.at(j + 2) == b'>' {
                            if self.on(H_CDATA) {
                                self.l().tag(b']');
                            }
                            return Ok(j + 3);
                        }
                    }
                    self.text(s.sub(j, j + 1));
                    j += 1;
                }
                CR if !self.raw => {
                    if j + 1 >= s.n {
                        return Err(E_CDATA);
                    }
                    j += 1;
                    if s.at(j) == b'\n' {
                        j += 1;
                    }
                    self.text(Sl::of(b"\n"));
                }
                _ => {
                    let n = self.ch(s, j)?;
                    self.text(s.sub(j, j + n));
                    j += n;
                }
            }
        }
    }
    /// element content from i; `base`: element depth at which this text started; `top`: document level
    /// (returns after the root element). Returns the index where it stopped.
    pub unsafe fn content(&mut self, s: Sl, i: usize, top: bool) -> Result<usize, u32> {
        let base = if top { 0 } else { self.depth };
        let mut i = i;
        loop {
            if i >= s.n {
                if top {
                    return Err(E_NOELEM);
                }
                if self.depth != base {
                    return Err(E_ASYNC);
                }
                return Ok(i);
            }
            let c = s.at(i);
            match cls(c) {
                LT => {
                    if i + 1 >= s.n {
                        return Err(E_UNCLOSED);
                    }
                    match cls(s.at(i + 1)) {
                        EXC => {
                            if i + 2 >= s.n {
                                return Err(E_UNCLOSED);
                            }
                            match s.at(i + 2) {
                                b'-' => i = self.comment(s, i + 3)?,
                                b'[' => i = self.cdata(s, i + 3)?,
                                _ => return Err(E_INVALID),
                            }
                        }
                        QST => i = self.pi(s, i + 2)?,
                        SOL => {
                            if i + 2 >= s.n {
                                return Err(E_UNCLOSED);
                            }
                            i = self.end_tag(s, i + 2, base)?;
                            if top && self.depth == 0 {
                                return Ok(i);
                            }
                        }
                        _ => {
                            let (e, _) = self.start_tag(s, i + 1)?;
                            i = e;
                            if top && self.depth == 0 {
                                return Ok(i);
                            }
                        }
                    }
                }
                AMP => {
                    let (e, v) = self.refer(s, i + 1)?;
                    match v {
                        Some(v) => {
                            if !Self::xmlchar(v) {
                                return Err(E_BADREF);
                            }
                            let o = self.pool.n;
                            let p: *mut Buf = &mut self.pool;
                            utf8_put(&mut *p, v);
                            let t = self.pool.from(o);
                            self.text(t);
                        }
                        None => {
                            let n = s.sub(i + 1, e - 1);
                            if let Some(b) = Self::predefined(n) {
                                let o = self.pool.n;
                                self.pool.put(b);
                                let t = self.pool.from(o);
                                self.text(t);
                            } else {
                                match self.ent(n) {
                                    None => {
                                        if !self.lenient {
                                            return Err(E_UNDEF);
                                        }
                                        if self.on(H_SKIPPED) {
                                            self.l().tag(b'K');
                                            self.str(n);
                                            self.l().int(0);
                                        }
                                    }
                                    Some(k) => {
                                        if self.ents[k].inpe && !self.lenient {
                                            return Err(24);
                                        }
                                        if self.ents[k].open {
                                            return Err(E_RECUR);
                                        }
                                        if self.ents[k].unparsed {
                                            return Err(E_BINARY);
                                        }
                                        if self.ents[k].internal {
                                            self.ents[k].open = true;
                                            let v = self.ents[k].val;
                                            let raw = self.raw;
                                            self.raw = true;
                                            self.content(v, 0, false)?;
                                            self.raw = raw;
                                            self.ents[k].open = false;
                                        } else if self.on(H_EXTERN) {
                                            self.ents[k].open = true;
                                            let e = self.ents[k];
                                            self.external(crate::dtd::GENERAL, e.base, e.sys, e.pb)?;
                                            self.ents[k].open = false;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    i = e;
                }
                RSQ => {
                    if s.has(i, b"]]>") {
                        return Err(E_INVALID);
                    }
                    self.text(s.sub(i, i + 1));
                    i += 1;
                }
                CR if !self.raw => {
                    self.text(Sl::of(b"\n"));
                    i += 1;
                    if i < s.n && s.at(i) == b'\n' {
                        i += 1;
                    }
                }
                _ => {
                    let n = self.ch(s, i)?;
                    self.text(s.sub(i, i + n));
                    i += n;
                }
            }
        }
    }
    /// after the document element
    pub unsafe fn epilog(&mut self, s: Sl, i: usize) -> R {
        let mut i = i;
        loop {
            i = self.skip_ws(s, i);
            if i >= s.n {
                return Ok(());
            }
            // which generic syntax code is reported for junk is not predicted
            if s.at(i) != b'<' {
                return Err(E_ANY);
            }
            if i + 1 >= s.n {
                return Err(E_UNCLOSED);
            }
            match s.at(i + 1) {
                b'?' => i = self.pi(s, i + 2).map_err(|e| if e == E_XMLPI { E_JUNK } else { e })?,
                b'!' => {
                    if i + 2 >= s.n {
                        return Err(E_UNCLOSED);
                    }
                    if s.at(i + 2) != b'-' {
                        return Err(E_ANY);
                    }
                    i = self.comment(s, i + 3)?;
                }
                _ => return Err(E_ANY),
            }
        }
    }
    /// whole document without XML declaration and DOCTYPE
    pub unsafe fn simple_doc(&mut self, s: Sl) -> u32 {
        let i = if s.has(0, &[0xef, 0xbb, 0xbf]) { 3 } else { 0 };
        match self.misc(s, i) {
            Ok(i) => self.root(s, i),
            Err(e) => e,
        }
    }
    pub unsafe fn root(&mut self, s: Sl, i: usize) -> u32 {
        match self.content(s, i, true) {
            Ok(i) => match self.epilog(s, i) {
                Ok(()) => 0,
                Err(e) => e,
            },
            Err(e) => e,
        }
    }
    /// comments, PIs and white space before the document element; returns the index of its '<'
    pub unsafe fn misc(&mut self, s: Sl, i: usize) -> Result<usize, u32> {
        let mut i = i;
        loop {
            i = self.skip_ws(s, i);
            if i >= s.n {
                return Err(E_ANY);
            }
            if s.at(i) != b'<' {
                return Err(E_ANY);
            }
            if i + 1 >= s.n {
                return Err(E_ANY);
            }
            match cls(s.at(i + 1)) {
                QST => i = self.pi(s, i + 2).map_err(|_| E_ANY)?,
                EXC => {
                    if i + 2 >= s.n || s.at(i + 2) != b'-' {
                        return Err(E_ANY);
                    }
                    i = self.comment(s, i + 3).map_err(|_| E_ANY)?;
                }
                _ => {
                    // must be a start tag
                    let (k, _) = self.namech(s, i + 1).map_err(|_| E_ANY)?;
                    if k != 2 {
                        return Err(E_ANY);
                    }
                    return Ok(i);
                }
            }
        }
    }
}

/// compare the real parser with the oracle on a document
pub unsafe fn compare(o: &mut Orc, err: u32, r: &Res, log: &Log) {
    note(r.err as u64);
    note(err as u64);
    if param(7) == 1 {
        (*o.log).note();
    }
    if err == crate::dtd::E_SKIP {
        reach!("not predicted");
        return;
    }
    if err == 0 {
        reach!("accepted");
    } else {
        reach!("rejected");
    }
    check!((r.st == 1) == (err == 0), "verdict differs from the reference (accept/reject)");
    if err == 0 {
        check!(r.err == 0, "error code set on an accepted document");
        check!(log.same(&*o.log), "events differ from the reference");
    } else {
        if err != E_ANY {
            check!(r.err == err, "error code differs from the reference");
        } else {
            check!(r.err != 0, "no error code on a rejected document");
        }
        if o.sloppy {
            check!(log.same_upto_event(&*o.log), "events before the error differ from the reference");
        } else {
            check!(log.same_upto_text(&*o.log), "events before the error differ from the reference");
        }
    }
}
