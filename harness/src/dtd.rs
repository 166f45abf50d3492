//! Reference parser, part two: XML declaration, document type declaration, whole documents.
use crate::ctx::*;
use crate::oracle::*;
use crate::rt::*;

pub const E_XMLDECL: u32 = 30;
pub const E_PUBLICID: u32 = 32;
pub const E_UNKENC: u32 = 18;
pub const E_INCENC: u32 = 19;
pub const E_PEREF: u32 = 10;
pub const E_DECLPE: u32 = 24;
/// the reference declines to predict this document
pub const E_SKIP: u32 = 998;

const NAME: u8 = 1;
const NMTOK: u8 = 2;
const PREF: u8 = 3;

/// what an entity outside of the document is read for
pub const GENERAL: u8 = 0;
pub const SUBSET: u8 = 1;
pub const VALUE: u8 = 2;

/// which of the texts belongs to a system identifier that starts with c
pub fn ext_index(c: u8) -> usize {
    match c {
        0 => 3,
        b't' => 1,
        b'u' => 2,
        _ => 0,
    }
}

pub type RI = Result<usize, u32>;

fn any<T>(r: Result<T, u32>) -> Result<T, u32> {
    match r {
        Ok(v) => Ok(v),
        Err(E_SKIP) => Err(E_SKIP),
        Err(_) => Err(E_ANY),
    }
}

impl Orc {
    unsafe fn c(&self, s: Sl, i: usize) -> u8 {
        if i < s.n {
            s.at(i)
        } else {
            0
        }
    }
    unsafe fn ws1(&self, s: Sl, i: usize) -> RI {
        let j = self.skip_ws(s, i);
        if j == i {
            Err(E_ANY)
        } else {
            Ok(j)
        }
    }
    unsafe fn kw(&self, s: Sl, i: usize, w: &[u8]) -> bool {
        s.has(i, w)
    }
    /// a name-like token in a declaration
    unsafe fn tok(&self, s: Sl, i: usize) -> Result<(u8, usize), u32> {
        if i >= s.n {
            return Err(E_ANY);
        }
        let (k, n) = any(self.namech(s, i))?;
        let mut t = match k {
            2 => NAME,
            1 | 3 => NMTOK,
            _ => return Err(E_ANY),
        };
        let mut j = i + n;
        loop {
            if j >= s.n {
                return Err(E_ANY);
            }
            let (k, n) = any(self.namech(s, j))?;
            match k {
                0 => break,
                3 => {
                    j += 1;
                    if t == NAME {
                        if j >= s.n {
                            return Err(E_ANY);
                        }
                        let (k2, n2) = any(self.namech(s, j))?;
                        if k2 == 1 || k2 == 2 {
                            t = PREF;
                            j += n2;
                        } else {
                            t = NMTOK;
                        }
                    } else if t == PREF {
                        t = NMTOK;
                    }
                }
                _ => j += n,
            }
        }
        Ok((t, j))
    }
    /// what may follow a name token in a declaration
    unsafe fn after_name(&self, s: Sl, i: usize) -> R {
        match self.c(s, i) {
            b'>' | b')' | b',' | b'|' | b'[' | b'%' | b' ' | b'\t' | b'\r' | b'\n' => Ok(()),
            _ => Err(E_ANY),
        }
    }
    unsafe fn dname(&self, s: Sl, i: usize, pref: bool) -> RI {
        let (t, e) = self.tok(s, i)?;
        if !(t == NAME || pref && t == PREF) {
            return Err(E_ANY);
        }
        self.after_name(s, e)?;
        Ok(e)
    }
    /// quoted literal at i; returns (content, index after the closing quote)
    unsafe fn lit(&self, s: Sl, i: usize) -> Result<(Sl, usize), u32> {
        let q = self.c(s, i);
        if i >= s.n || (q != b'"' && q != b'\'') {
            return Err(E_ANY);
        }
        let mut j = i + 1;
        loop {
            if j >= s.n {
                return Err(E_ANY);
            }
            if s.at(j) == q {
                break;
            }
            j += any(self.ch(s, j))?;
        }
        match self.c(s, j + 1) {
            _ if j + 1 == s.n => Ok((s.sub(i + 1, j), s.n)), // the error is found behind it
            b' ' | b'\t' | b'\r' | b'\n' | b'>' | b'%' | b'[' => Ok((s.sub(i + 1, j), j + 1)),
            _ => Err(E_ANY),
        }
    }
    unsafe fn pubid(&mut self, v: Sl) -> Result<Sl, u32> {
        let mut i = 0;
        while i < v.n {
            match v.at(i) {
                b' ' | b'\r' | b'\n' | b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => {}
                b'-' | b'\'' | b'(' | b')' | b'+' | b',' | b'.' | b'/' | b':' | b'=' | b'?' | b';' | b'!' | b'*' | b'#' | b'@' | b'$' | b'_'
                | b'%' => {}
                _ => return Err(E_PUBLICID),
            }
            i += 1;
        }
        let o = self.pool.n;
        let mut pend = false;
        i = 0;
        while i < v.n {
            let c = v.at(i);
            if c == b' ' || c == b'\r' || c == b'\n' {
                pend = self.pool.n > o;
            } else {
                if pend {
                    self.pool.put(b' ');
                }
                pend = false;
                self.pool.put(c);
            }
            i += 1;
        }
        Ok(self.pool.from(o))
    }
    /// SYSTEM lit | PUBLIC lit lit; sysopt: the system literal may be missing after PUBLIC
    unsafe fn extid(&mut self, s: Sl, i: usize, sysopt: bool) -> Result<(Sl, Sl, usize), u32> {
        if self.kw(s, i, b"SYSTEM") {
            let j = self.ws1(s, i + 6)?;
            let (v, e) = self.lit(s, j)?;
            return Ok((v, Sl::NIL, e));
        }
        if self.kw(s, i, b"PUBLIC") {
            let j = self.ws1(s, i + 6)?;
            let (p, e) = self.lit(s, j)?;
            let p = self.pubid(p)?;
            let k = self.skip_ws(s, e);
            if sysopt && self.c(s, k) == b'>' {
                return Ok((Sl::NIL, p, e));
            }
            let (v, e) = self.lit(s, k)?;
            return Ok((v, p, e));
        }
        Err(E_ANY)
    }
    unsafe fn close_gt(&self, s: Sl, i: usize) -> RI {
        let j = self.skip_ws(s, i);
        if j < s.n && s.at(j) == b'>' {
            Ok(j + 1)
        } else {
            Err(E_ANY)
        }
    }
    /// expand an entity value literal into the pool
    unsafe fn entval(&mut self, s: Sl, inpe: bool) -> R {
        let mut i = 0;
        while i < s.n {
            let c = s.at(i);
            match c {
                b'&' => {
                    let (e, v) = any(self.refer(s, i + 1))?;
                    match v {
                        Some(v) => {
                            if !Self::xmlchar(v) {
                                return Err(E_BADREF);
                            }
                            let p: *mut Buf = &mut self.pool;
                            utf8_put(&mut *p, v);
                        }
                        None => self.pool.puts(s.sub(i, e)),
                    }
                    i = e;
                }
                b'%' => {
                    let e = any(self.name(s, i + 1, 0))?;
                    if e >= s.n || s.at(e) != b';' {
                        return Err(E_ANY);
                    }
                    if !inpe {
                        return Err(E_PEREF);
                    }
                    match self.pent(s.sub(i + 1, e)) {
                        // an undeclared one ends the value silently: not predicted
                        None => return Err(E_SKIP),
                        Some(k) => {
                            if self.pents[k].open {
                                return Err(E_RECUR);
                            }
                            let p = self.pents[k];
                            self.pents[k].open = true;
                            if !p.val.p.is_null() {
                                let raw = self.raw;
                                self.raw = true;
                                self.entval(p.val, true)?;
                                self.raw = raw;
                            } else if !self.on(H_EXTERN) || !self.external(VALUE, p.base, p.sys, p.pb)? {
                                self.keep = self.standalone;
                            }
                            self.pents[k].open = false;
                        }
                    }
                    i = e + 1;
                }
                b'\r' if !self.raw => {
                    self.pool.put(b'\n');
                    i += 1;
                    if i < s.n && s.at(i) == b'\n' {
                        i += 1;
                    }
                }
                _ => {
                    let n = any(self.ch(s, i))?;
                    self.pool.puts(s.sub(i, i + n));
                    i += n;
                }
            }
        }
        Ok(())
    }
    pub unsafe fn pent(&self, n: Sl) -> Option<usize> {
        let mut i = 0;
        while i < self.npents {
            if self.pents[i].name.eq(&n) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    /// `<!ENTITY`, i after the keyword
    unsafe fn d_entity(&mut self, s: Sl, i: usize, inpe: bool) -> RI {
        let mut j = self.ws1(s, i)?;
        let mut pe = false;
        if self.c(s, j) == b'%' {
            pe = true;
            j = self.ws1(s, j + 1)?;
        }
        let e = self.dname(s, j, false)?;
        let nm = s.sub(j, e);
        j = self.ws1(s, e)?;
        let dup = if pe { self.pent(nm).is_some() } else { self.ent(nm).is_some() || Self::predefined(nm).is_some() };
        let live = self.keep && !dup;
        let base = self.base;
        let q = self.c(s, j);
        if q == b'"' || q == b'\'' {
            let (v, e) = self.lit(s, j)?;
            let mut val = Sl::NIL;
            if self.keep {
                let o = self.pool.n;
                let r = self.entval(v, inpe);
                val = self.pool.from(o);
                if r == Err(E_SKIP) {
                    return Err(E_SKIP);
                }
                // the declaration is reported with what was stored before the error
                r?;
            }
            if live {
                self.add_ent(pe, nm, val, inpe, false, Sl::NIL, Sl::NIL);
                if self.on(H_ENTITY) {
                    self.l().tag(b'L');
                    self.str(nm);
                    self.l().int(pe as u64);
                    self.str(val);
                    self.str(base);
                    self.str(Sl::NIL);
                    self.str(Sl::NIL);
                    self.str(Sl::NIL);
                }
            }
            return self.close_gt(s, e);
        }
        let (sys, pb, e) = self.extid(s, j, false)?;
        let k = self.skip_ws(s, e);
        if !pe && k > e && self.kw(s, k, b"NDATA") {
            let k2 = self.ws1(s, k + 5)?;
            let e2 = self.dname(s, k2, false)?;
            let nn = s.sub(k2, e2);
            if live {
                self.add_ent(pe, nm, Sl::NIL, inpe, true, sys, pb);
                if self.on(H_UNPARSED) {
                    self.l().tag(b'U');
                    self.str(nm);
                    self.str(base);
                    self.str(sys);
                    self.str(pb);
                    self.str(nn);
                } else if self.on(H_ENTITY) {
                    self.l().tag(b'L');
                    self.str(nm);
                    self.l().int(0);
                    self.str(Sl::NIL);
                    self.str(base);
                    self.str(sys);
                    self.str(pb);
                    self.str(nn);
                }
            }
            return self.close_gt(s, e2);
        }
        let r = self.close_gt(s, e)?;
        if live {
            self.add_ent(pe, nm, Sl::NIL, inpe, false, sys, pb);
            if self.on(H_ENTITY) {
                self.l().tag(b'L');
                self.str(nm);
                self.l().int(pe as u64);
                self.str(Sl::NIL);
                self.str(base);
                self.str(sys);
                self.str(pb);
                self.str(Sl::NIL);
            }
        }
        Ok(r)
    }
    unsafe fn add_ent(&mut self, pe: bool, name: Sl, val: Sl, inpe: bool, unparsed: bool, sys: Sl, pb: Sl) {
        let e = Ent { name, val, internal: !val.p.is_null(), unparsed, open: false, inpe, base: self.base, sys, pb };
        let n = if pe { self.npents } else { self.nents };
        if n >= MAXE {
            fail!("harness: too many entities for the oracle");
            return;
        }
        if pe {
            self.pents[n] = e;
            self.npents += 1;
        } else {
            self.ents[n] = e;
            self.nents += 1;
        }
    }
    unsafe fn d_notation(&mut self, s: Sl, i: usize) -> RI {
        let j = self.ws1(s, i)?;
        let e = self.dname(s, j, false)?;
        let nm = s.sub(j, e);
        let j = self.ws1(s, e)?;
        let (sys, pb, e) = self.extid(s, j, true)?;
        let r = self.close_gt(s, e)?;
        if self.on(H_NOTATION) {
            let base = self.base;
            self.l().tag(b'O');
            self.str(nm);
            self.str(base);
            self.str(sys);
            self.str(pb);
        }
        Ok(r)
    }
    unsafe fn d_attlist(&mut self, s: Sl, i: usize) -> RI {
        let j = self.ws1(s, i)?;
        let e = self.dname(s, j, true)?;
        let el = s.sub(j, e);
        let mut j = e;
        loop {
            let k = self.skip_ws(s, j);
            if self.c(s, k) == b'>' && k < s.n {
                return Ok(k + 1);
            }
            if k == j {
                return Err(E_ANY);
            }
            let e = self.dname(s, k, true)?;
            let at = s.sub(k, e);
            j = self.ws1(s, e)?;
            // type
            let o = self.pool.n;
            let mut cdata = false;
            let mut typ = Sl::NIL;
            let mut open = false;
            if self.c(s, j) == b'(' && j < s.n {
                self.pool.put(b'(');
                open = true;
            } else {
                let (t, e) = self.tok(s, j)?;
                if t != NAME {
                    return Err(E_ANY);
                }
                self.after_name(s, e)?;
                let w = s.sub(j, e);
                if w.is(b"NOTATION") {
                    j = self.ws1(s, e)?;
                    if self.c(s, j) != b'(' {
                        return Err(E_ANY);
                    }
                    self.pool.puts(w);
                    self.pool.put(b'(');
                    open = true;
                } else {
                    cdata = w.is(b"CDATA");
                    if !(cdata
                        || w.is(b"ID")
                        || w.is(b"IDREF")
                        || w.is(b"IDREFS")
                        || w.is(b"ENTITY")
                        || w.is(b"ENTITIES")
                        || w.is(b"NMTOKEN")
                        || w.is(b"NMTOKENS"))
                    {
                        return Err(E_ANY);
                    }
                    typ = w;
                    j = e;
                }
            }
            let notation = self.pool.n > o + 1;
            if open {
                j += 1;
                loop {
                    j = self.skip_ws(s, j);
                    let (t, e) = self.tok(s, j)?;
                    self.after_name(s, e)?;
                    if notation && t != NAME {
                        return Err(E_ANY);
                    }
                    self.pool.puts(s.sub(j, e));
                    j = self.skip_ws(s, e);
                    match self.c(s, j) {
                        b'|' => {
                            self.pool.put(b'|');
                            j += 1;
                        }
                        b')' => {
                            match self.c(s, j + 1) {
                                b' ' | b'\t' | b'\r' | b'\n' => {}
                                _ => return Err(E_ANY),
                            }
                            j += 1;
                            self.pool.put(b')');
                            break;
                        }
                        _ => return Err(E_ANY),
                    }
                }
                typ = self.pool.from(o);
            }
            j = self.ws1(s, j)?;
            // default
            let mut dflt = Sl::NIL;
            let mut req = false;
            if self.c(s, j) == b'#' {
                let (t, e) = self.tok(s, j + 1)?;
                if t != NAME {
                    return Err(E_ANY);
                }
                match self.c(s, e) {
                    b' ' | b'\t' | b'\r' | b'\n' | b'>' | b'%' | b')' | b'|' => {}
                    _ => return Err(E_ANY),
                }
                let w = s.sub(j + 1, e);
                if w.is(b"IMPLIED") {
                    j = e;
                } else if w.is(b"REQUIRED") {
                    req = true;
                    j = e;
                } else if w.is(b"FIXED") {
                    req = true;
                    let k = self.ws1(s, e)?;
                    let (v, e) = self.lit(s, k)?;
                    dflt = v;
                    j = e;
                } else {
                    return Err(E_ANY);
                }
            } else {
                let (v, e) = self.lit(s, j)?;
                dflt = v;
                j = e;
            }
            if !self.keep {
                continue;
            }
            if !dflt.p.is_null() {
                let o = self.pool.n;
                let chk = self.ext == 0 && (if self.standalone { self.inpe_depth == 0 } else { !self.haspe });
                let raw = self.raw;
                self.attval(dflt, raw, chk)?;
                dflt = self.pool.from(o);
                if !cdata {
                    dflt = self.collapse(dflt);
                }
            }
            self.add_def(el, at, cdata, dflt);
            if typ.is(b"ID") {
                self.add_id(el, at);
            }
            if self.on(H_ATTLIST) {
                self.l().tag(b'A');
                self.str(el);
                self.str(at);
                self.str(typ);
                self.str(dflt);
                self.l().int(req as u64);
            }
        }
    }
    unsafe fn add_def(&mut self, el: Sl, name: Sl, cdata: bool, dflt: Sl) {
        let mut i = 0;
        while i < self.ndefs {
            if self.defs[i].el.eq(&el) && self.defs[i].name.eq(&name) {
                return;
            }
            i += 1;
        }
        if self.ndefs >= MAXE {
            fail!("harness: too many attribute definitions for the oracle");
            return;
        }
        self.defs[self.ndefs] = AttDef { el, name, cdata, dflt };
        self.ndefs += 1;
    }
    unsafe fn add_id(&mut self, _el: Sl, _name: Sl) {}
    unsafe fn quant(&self, s: Sl, i: usize) -> (u64, usize) {
        if i < s.n {
            match s.at(i) {
                b'?' => return (1, i + 1),
                b'*' => return (2, i + 1),
                b'+' => return (3, i + 1),
                _ => {}
            }
        }
        (0, i)
    }
    unsafe fn node(&mut self, ty: u64, q: u64, name: Sl) -> usize {
        if self.nnodes >= MAXN {
            fail!("harness: content model too large for the oracle");
            return 0;
        }
        let k = self.nnodes;
        self.nodes[k] = Node { ty, q, name, nchild: 0, first: MAXN, next: MAXN };
        self.nnodes += 1;
        k
    }
    unsafe fn adopt(&mut self, p: usize, c: usize) {
        self.nodes[p].nchild += 1;
        if self.nodes[p].first == MAXN {
            self.nodes[p].first = c;
            return;
        }
        let mut k = self.nodes[p].first;
        while self.nodes[k].next != MAXN {
            k = self.nodes[k].next;
        }
        self.nodes[k].next = c;
    }
    unsafe fn log_node(&mut self, k: usize) {
        let n = self.nodes[k];
        self.l().int(n.ty);
        self.l().int(n.q);
        self.str(n.name);
        self.l().int(n.nchild);
        let mut c = n.first;
        while c != MAXN {
            self.log_node(c);
            c = self.nodes[c].next;
        }
    }
    /// group of children particles; i after '('
    unsafe fn group(&mut self, s: Sl, i: usize) -> Result<(usize, usize), u32> {
        let g = self.node(6, 0, Sl::NIL);
        let mut i = i;
        let mut sep = 0u8;
        loop {
            i = self.skip_ws(s, i);
            if self.c(s, i) == b'(' && i < s.n {
                let (k, e) = self.group(s, i + 1)?;
                self.adopt(g, k);
                i = e;
            } else {
                let (t, e) = self.tok(s, i)?;
                if t == NMTOK {
                    return Err(E_ANY);
                }
                let (q, e2) = self.quant(s, e);
                if q == 0 {
                    self.after_name(s, e)?;
                }
                let k = self.node(4, q, s.sub(i, e));
                self.adopt(g, k);
                i = e2;
            }
            i = self.skip_ws(s, i);
            let c = self.c(s, i);
            match c {
                b',' | b'|' if i < s.n => {
                    if sep != 0 && sep != c {
                        return Err(E_ANY);
                    }
                    sep = c;
                    i += 1;
                }
                b')' if i < s.n => {
                    if sep == b'|' {
                        self.nodes[g].ty = 5;
                    }
                    let (q, e) = self.quant(s, i + 1);
                    self.nodes[g].q = q;
                    if q == 0 {
                        self.after_paren(s, i + 1)?;
                    }
                    return Ok((g, e));
                }
                _ => return Err(E_ANY),
            }
        }
    }
    unsafe fn after_paren(&self, s: Sl, i: usize) -> R {
        match self.c(s, i) {
            b'>' | b')' | b',' | b'|' | b' ' | b'\t' | b'\r' | b'\n' if i < s.n => Ok(()),
            _ => Err(E_ANY),
        }
    }
    unsafe fn d_element(&mut self, s: Sl, i: usize) -> RI {
        let j = self.ws1(s, i)?;
        let e = self.dname(s, j, true)?;
        let el = s.sub(j, e);
        let j = self.ws1(s, e)?;
        self.nnodes = 0;
        let (g, e);
        if self.c(s, j) == b'(' && j < s.n {
            let k = self.skip_ws(s, j + 1);
            if self.c(s, k) == b'#' && k < s.n {
                // mixed content
                if !self.kw(s, k, b"#PCDATA") {
                    return Err(E_ANY);
                }
                let (_, e1) = self.tok(s, k + 1)?;
                if e1 != k + 7 {
                    return Err(E_ANY);
                }
                // the token must be properly delimited
                match self.c(s, e1) {
                    b' ' | b'\t' | b'\r' | b'\n' | b'>' | b'%' | b')' | b'|' => {}
                    _ => return Err(E_ANY),
                }
                g = self.node(3, 0, Sl::NIL);
                let mut i = self.skip_ws(s, e1);
                let mut names = false;
                while self.c(s, i) == b'|' && i < s.n {
                    names = true;
                    i = self.skip_ws(s, i + 1);
                    let (t, e2) = self.tok(s, i)?;
                    if t == NMTOK {
                        return Err(E_ANY);
                    }
                    self.after_name(s, e2)?;
                    let k = self.node(4, 0, s.sub(i, e2));
                    self.adopt(g, k);
                    i = self.skip_ws(s, e2);
                }
                if self.c(s, i) != b')' || i >= s.n {
                    return Err(E_ANY);
                }
                if self.c(s, i + 1) == b'*' {
                    self.nodes[g].q = 2;
                    e = i + 2;
                } else {
                    if names {
                        return Err(E_ANY);
                    }
                    self.after_paren(s, i + 1)?;
                    e = i + 1;
                }
            } else {
                let (g2, e2) = self.group(s, j + 1)?;
                g = g2;
                e = e2;
            }
        } else {
            let (t, e2) = self.tok(s, j)?;
            if t != NAME {
                return Err(E_ANY);
            }
            self.after_name(s, e2)?;
            let w = s.sub(j, e2);
            let ty = if w.is(b"EMPTY") {
                1
            } else if w.is(b"ANY") {
                2
            } else {
                return Err(E_ANY);
            };
            g = self.node(ty, 0, Sl::NIL);
            e = e2;
        }
        if self.on(H_ELDECL) {
            self.l().tag(b'M');
            self.str(el);
            self.log_node(g);
        }
        self.close_gt(s, e)
    }
    /// the text of a declaration (s[i..] = "<!") up to its '>', parameter entity references outside of literals replaced
    unsafe fn expand_decl(&mut self, s: Sl, i: usize) -> Result<(Sl, usize), u32> {
        let o = self.pool.n;
        let e = self.expand_refs(s, i, b'>')?;
        Ok((self.pool.from(o), e))
    }
    /// copy s[i..] into the pool up to and including `end`, references replaced by their text between two spaces
    unsafe fn expand_refs(&mut self, s: Sl, i: usize, end: u8) -> RI {
        let mut i = i;
        let mut q = 0u8;
        while i < s.n {
            let c = s.at(i);
            if q != 0 {
                if c == q {
                    q = 0;
                }
            } else if end == 0 && (c == b'<' || c == b'>' || c == b'[' || c == b'\r') {
                // entities that hold more than a part of a declaration
                return Err(E_SKIP);
            } else if c == b'"' || c == b'\'' {
                q = c;
            } else if c == end {
                self.pool.put(c);
                return Ok(i + 1);
            } else if c == b'%' {
                if let Ok(e) = self.name(s, i + 1, 0) {
                    if self.c(s, e) == b';' && e < s.n {
                        self.haspe = true;
                        match self.pent(s.sub(i + 1, e)) {
                            None => {
                                if !self.standalone {
                                    return Err(E_SKIP);
                                }
                                self.pool.put(b' ');
                            }
                            Some(k) => {
                                if self.pents[k].open {
                                    return Err(E_RECUR);
                                }
                                if self.pents[k].val.p.is_null() {
                                    return Err(E_SKIP);
                                }
                                self.pents[k].open = true;
                                self.pool.put(b' ');
                                let v = self.pents[k].val;
                                self.expand_refs(v, 0, 0)?;
                                self.pool.put(b' ');
                                self.pents[k].open = false;
                            }
                        }
                        i = e + 1;
                        continue;
                    }
                }
            }
            self.pool.put(c);
            i += 1;
        }
        if end == 0 && q != 0 {
            return Err(E_SKIP);
        }
        Ok(i)
    }
    /// conditional section, i after "<!["
    unsafe fn cond(&mut self, s: Sl, i: usize) -> RI {
        let o = self.pool.n;
        let e = self.expand_refs(s, i, b'[')?;
        let t = self.pool.from(o);
        let a = self.skip_ws(t, 0);
        let w = any(self.tok(t, a))?.1;
        let k = t.sub(a, w);
        let b = self.skip_ws(t, w);
        if b + 1 != t.n || t.at(b) != b'[' {
            return Err(E_ANY);
        }
        if k.is(b"INCLUDE") {
            self.incl += 1;
            return Ok(e);
        }
        if !k.is(b"IGNORE") {
            return Err(E_ANY);
        }
        let mut j = e;
        let mut lev = 0;
        loop {
            if j >= s.n {
                return Err(E_ANY);
            }
            if s.has(j, b"<![") {
                lev += 1;
                j += 3;
            } else if s.has(j, b"]]>") {
                j += 3;
                if lev == 0 {
                    return Ok(j);
                }
                lev -= 1;
            } else {
                j += any(self.ch(s, j))?;
            }
        }
    }
    /// declarations up to the closing ']' (document entity) or to the end of the text (parameter entity, external subset)
    unsafe fn subset(&mut self, s: Sl, i: usize, inpe: bool) -> RI {
        let mut i = i;
        let incl = self.incl;
        loop {
            i = self.skip_ws(s, i);
            if i >= s.n {
                return if inpe && self.incl == incl { Ok(i) } else { Err(E_ANY) };
            }
            match s.at(i) {
                b']' => {
                    if self.incl > incl && s.has(i, b"]]>") {
                        self.incl -= 1;
                        i += 3;
                        continue;
                    }
                    if inpe {
                        return Err(E_ANY);
                    }
                    return Ok(i + 1);
                }
                b'%' => {
                    let e = any(self.name(s, i + 1, 0))?;
                    if self.c(s, e) != b';' || e >= s.n {
                        return Err(E_ANY);
                    }
                    let nm = s.sub(i + 1, e);
                    self.pe_ref(nm)?;
                    i = e + 1;
                }
                b'<' => {
                    if self.kw(s, i, b"<?") {
                        i = any(self.pi(s, i + 2))?;
                    } else if self.kw(s, i, b"<!--") {
                        i = any(self.comment(s, i + 3))?;
                    } else if self.ext > 0 && self.kw(s, i, b"<![") {
                        i = self.cond(s, i + 3)?;
                    } else if self.ext > 0 && self.kw(s, i, b"<!") {
                        let (d, e) = self.expand_decl(s, i)?;
                        self.declaration(d, 0, inpe)?;
                        i = e;
                    } else {
                        i = self.declaration(s, i, inpe)?;
                    }
                }
                _ => return Err(E_ANY),
            }
        }
    }
    unsafe fn declaration(&mut self, s: Sl, i: usize, inpe: bool) -> RI {
        if self.kw(s, i, b"<!ENTITY") {
            self.d_entity(s, i + 8, inpe)
        } else if self.kw(s, i, b"<!ATTLIST") {
            self.d_attlist(s, i + 9)
        } else if self.kw(s, i, b"<!ELEMENT") {
            self.d_element(s, i + 9)
        } else if self.kw(s, i, b"<!NOTATION") {
            self.d_notation(s, i + 10)
        } else {
            Err(E_ANY)
        }
    }
    unsafe fn pe_ref(&mut self, nm: Sl) -> R {
        self.haspe = true;
        if self.pe == 0 {
            self.keep = self.standalone;
            return self.not_standalone();
        }
        let chk = self.standalone && self.inpe_depth == 0 && self.ext == 0;
        match self.pent(nm) {
            None => {
                if chk {
                    return Err(E_UNDEF);
                }
                self.keep = self.standalone;
                if self.on(H_SKIPPED) {
                    self.l().tag(b'K');
                    self.str(nm);
                    self.l().int(1);
                }
            }
            Some(k) => {
                let p = self.pents[k];
                if chk && p.inpe {
                    return Err(E_DECLPE);
                }
                if p.open {
                    return Err(E_RECUR);
                }
                self.pents[k].open = true;
                if p.val.p.is_null() {
                    if self.on(H_EXTERN) && self.external(SUBSET, p.base, p.sys, p.pb)? {
                        self.not_standalone()?;
                    } else {
                        self.keep = self.standalone;
                    }
                } else {
                    self.inpe_depth += 1;
                    let raw = self.raw;
                    self.raw = true;
                    self.subset(p.val, 0, true)?;
                    self.raw = raw;
                    self.inpe_depth -= 1;
                }
                self.pents[k].open = false;
            }
        }
        Ok(())
    }
    unsafe fn not_standalone(&mut self) -> R {
        if !self.standalone && self.on(H_NOTSTAND) {
            self.l().tag(b'Q');
            if !self.notstand_ret {
                return Err(22);
            }
        }
        Ok(())
    }
    /// the application is asked for an entity outside of the document; was it read?
    pub unsafe fn external(&mut self, kind: u8, base: Sl, sys: Sl, pb: Sl) -> Result<bool, u32> {
        self.l().tag(b'R');
        self.l().int((kind == GENERAL) as u64);
        self.str(base);
        self.str(sys);
        self.str(pb);
        match self.ext_mode {
            1 => return Ok(false),
            2 => {}
            _ => return Err(21),
        }
        let t = self.ext_txt[ext_index(if sys.p.is_null() { 0 } else { self.c(sys, 0) })];
        if t.n > 0 && (t.at(0) == 0 || t.at(0) >= 0xfe) || t.n > 1 && t.at(1) == 0 {
            // taken for UTF-16
            return Err(E_SKIP);
        }
        let was = (self.raw, self.base, self.inpe_depth, self.incl, self.ext);
        self.raw = false;
        self.base = self.nbase;
        self.inpe_depth = 0;
        self.incl = 0;
        if kind != GENERAL {
            self.ext += 1;
        }
        let r = self.external_text(kind, t);
        self.raw = was.0;
        self.base = was.1;
        self.inpe_depth = was.2;
        self.incl = was.3;
        self.ext = was.4;
        match r {
            Ok(()) => Ok(true),
            Err(E_SKIP) => Err(E_SKIP),
            Err(e) => {
                if self.nnested < 8 {
                    self.nested[self.nnested] = e;
                    self.nnested += 1;
                }
                Err(21)
            }
        }
    }
    unsafe fn external_text(&mut self, kind: u8, s: Sl) -> R {
        if (s.n == 1 || s.n == 2) && s.at(0) == 0xef && (s.n == 1 || s.at(1) == 0xbb) {
            return Err(E_ANY); // a part of a byte order mark
        }
        let mut i = if s.has(0, &[0xef, 0xbb, 0xbf]) { 3 } else { 0 };
        if s.has(i, b"<?xml") {
            if i + 5 >= s.n {
                return Err(E_ANY);
            }
            let (k, _) = any(self.namech(s, i + 5))?;
            if k == 0 {
                let c = s.at(i + 5);
                if !(is_ws(cls(c)) || c == b'?') {
                    return Err(E_ANY);
                }
                i = self.decl(s, i + 5, if kind == VALUE { 2 } else { 1 })?;
            }
        }
        match kind {
            GENERAL => self.content(s, i, false).map(|_| ()),
            SUBSET => self.subset(s, i, true).map(|_| ()),
            _ => {
                self.value_tokens(s, i)?;
                self.entval(s.sub(i, s.n), true)
            }
        }
    }
    /// the port reads an external entity used inside an entity value as tokens of a declaration first (as libexpat does):
    /// texts that are not made of such tokens are not predicted
    unsafe fn value_tokens(&self, s: Sl, i: usize) -> R {
        let skip = |_| E_SKIP;
        let mut i = i;
        while i < s.n {
            let c = s.at(i);
            let mut next = i + 1;
            match cls(c) {
                WS | LF | CR => {
                    i += 1;
                    continue;
                }
                NST | DIG | NMC => {
                    while next < s.n && (cls(s.at(next)) == NST || cls(s.at(next)) == DIG || cls(s.at(next)) == NMC) {
                        next += 1;
                    }
                }
                QUO | APO => {
                    while next < s.n && s.at(next) != c {
                        next += self.ch(s, next).map_err(skip)?;
                    }
                    next += 1;
                    if next > s.n {
                        return Err(E_SKIP);
                    }
                }
                OTH if c == b'%' => {
                    next = self.name(s, next, 0).map_err(skip)?;
                    if self.c(s, next) != b';' || next >= s.n {
                        return Err(E_SKIP);
                    }
                    i = next + 1;
                    continue;
                }
                _ => return Err(E_SKIP),
            }
            i = next;
            if i < s.n && !is_ws(cls(s.at(i))) && s.at(i) != b'%' {
                return Err(E_SKIP);
            }
        }
        Ok(())
    }
    /// the external subset, real or supplied by the application
    unsafe fn ext_subset(&mut self, sys: Sl, pb: Sl) -> R {
        if sys.p.is_null() && !self.foreign {
            return Ok(());
        }
        let had = self.haspe;
        self.haspe = true;
        let base = self.base;
        if self.pe != 0 && self.on(H_EXTERN) {
            if self.external(SUBSET, base, sys, pb)? {
                self.not_standalone()?;
            } else if sys.p.is_null() {
                self.haspe = had;
            }
        }
        self.foreign = false;
        Ok(())
    }
    /// document type declaration, i after "<!DOCTYPE"
    unsafe fn doctype(&mut self, s: Sl, i: usize) -> RI {
        let j = self.ws1(s, i)?;
        let e = self.dname(s, j, true)?;
        let nm = s.sub(j, e);
        let mut sys = Sl::NIL;
        let mut pb = Sl::NIL;
        let mut j = self.skip_ws(s, e);
        if j > e && (self.kw(s, j, b"SYSTEM") || self.kw(s, j, b"PUBLIC")) {
            let (a, b, e) = self.extid(s, j, false)?;
            sys = a;
            pb = b;
            self.haspe = true;
            self.foreign = false;
            if self.pe == 0 {
                self.not_standalone()?;
            }
            j = self.skip_ws(s, e);
        }
        let sub = self.c(s, j) == b'[' && j < s.n;
        if !sub && !(self.c(s, j) == b'>' && j < s.n) {
            return Err(E_ANY);
        }
        if self.on(H_DOCTYPE) {
            self.l().tag(b'd');
            self.str(nm);
            self.str(sys);
            self.str(pb);
            self.l().int(sub as u64);
        }
        let mut r = j + 1;
        if sub {
            let k = self.subset(s, j + 1, false)?;
            r = self.close_gt(s, k)?;
        }
        self.ext_subset(sys, pb)?;
        if self.on(H_DOCTYPE) {
            self.l().tag(b'e');
        }
        Ok(r)
    }
    unsafe fn lower_is(&self, v: Sl, w: &[u8]) -> bool {
        if v.n != w.len() {
            return false;
        }
        let mut i = 0;
        while i < v.n {
            let mut c = v.at(i);
            if c >= b'A' && c <= b'Z' {
                c |= 0x20;
            }
            if c != w[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    /// name = 'value' in an XML declaration; text is the inside of the declaration.
    /// Ok(None): only white space left
    unsafe fn pseudo(&self, s: Sl, i: usize) -> Result<Option<(Sl, Sl, usize)>, u32> {
        if i >= s.n {
            return Ok(None);
        }
        let j = self.skip_ws(s, i);
        if j == i {
            return Err(E_XMLDECL);
        }
        if j >= s.n {
            return Ok(None);
        }
        let mut k = j;
        while k < s.n && s.at(k) != b'=' && !is_ws(cls(s.at(k))) {
            if s.at(k) >= 0x80 {
                return Err(E_XMLDECL);
            }
            k += 1;
        }
        let nm = s.sub(j, k);
        k = self.skip_ws(s, k);
        if k >= s.n || s.at(k) != b'=' || nm.n == 0 {
            return Err(E_XMLDECL);
        }
        k = self.skip_ws(s, k + 1);
        let q = self.c(s, k);
        if k >= s.n || (q != b'"' && q != b'\'') {
            return Err(E_XMLDECL);
        }
        let st = k + 1;
        k = st;
        loop {
            if k >= s.n {
                return Err(E_XMLDECL);
            }
            let c = s.at(k);
            if c == q {
                break;
            }
            match c {
                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'.' | b'-' | b'_' => {}
                _ => return Err(E_XMLDECL),
            }
            k += 1;
        }
        Ok(Some((nm, s.sub(st, k), k + 1)))
    }
    /// XML declaration at the start; i after "<?xml"
    unsafe fn xml_decl(&mut self, s: Sl, i: usize) -> RI {
        self.decl(s, i, 0)
    }
    /// kind: 0 XML declaration, 1 text declaration, 2 text declaration of an entity used in an entity value: the port
    /// (like libexpat) takes it for an XML declaration, so only what is right for both is predicted
    unsafe fn decl(&mut self, s: Sl, i: usize, kind: u8) -> RI {
        match self.decl_(s, i, kind) {
            Err(E_XMLDECL) if kind == 1 => Err(31),
            Err(_) if kind == 2 => Err(E_SKIP),
            r => r,
        }
    }
    unsafe fn decl_(&mut self, s: Sl, i: usize, kind: u8) -> RI {
        // find the end, checking the characters
        let mut j = i;
        loop {
            if j >= s.n {
                return Err(E_UNCLOSED);
            }
            if s.at(j) == b'?' {
                if j + 1 >= s.n {
                    return Err(E_UNCLOSED);
                }
                if s.at(j + 1) == b'>' {
                    break;
                }
                if j == i {
                    return Err(E_INVALID);
                }
                j += 1;
                continue;
            }
            j += self.ch(s, j)?;
        }
        let t = s.sub(i, j);
        let mut nx = self.pseudo(t, 0)?;
        let mut ver = Sl::NIL;
        let mut k = 0;
        match nx {
            None => return Err(E_XMLDECL),
            Some((nm, v, e)) => {
                if nm.is(b"version") {
                    ver = v;
                    k = e;
                    nx = self.pseudo(t, k)?;
                } else if kind != 1 {
                    return Err(E_XMLDECL);
                }
            }
        }
        if kind != 0 && nx.is_none() {
            return Err(E_XMLDECL);
        }
        let mut enc = Sl::NIL;
        let mut sa: i64 = -1;
        if let Some((nm, v, e)) = nx {
            if nm.is(b"encoding") {
                let c = self.c(v, 0);
                let lc = c | 0x20;
                if v.n == 0 || !(lc >= b'a' && lc <= b'z') {
                    return Err(E_XMLDECL);
                }
                enc = v;
                k = e;
                nx = self.pseudo(t, k)?;
            }
        }
        if let Some((nm, v, e)) = nx {
            if !nm.is(b"standalone") || kind != 0 {
                return Err(E_XMLDECL);
            }
            if v.is(b"yes") {
                sa = 1;
            } else if v.is(b"no") {
                sa = 0;
            } else {
                return Err(E_XMLDECL);
            }
            if self.skip_ws(t, e) != t.n {
                return Err(E_XMLDECL);
            }
        }
        if sa == 1 {
            self.standalone = true;
            if self.pe == 1 {
                self.pe = 0;
            }
        }
        if self.on(H_XMLDECL) {
            self.l().tag(b'X');
            self.str(ver);
            self.str(enc);
            self.l().int(sa as u64);
        }
        if !enc.p.is_null() && !self.protocol {
            if self.lower_is(enc, b"utf-8") {
            } else if self.lower_is(enc, b"iso-8859-1") || self.lower_is(enc, b"us-ascii") {
                // same as UTF-8 for what follows only if that is ASCII
                let mut q = j;
                while q < s.n {
                    if s.at(q) >= 0x80 {
                        return Err(E_SKIP);
                    }
                    q += 1;
                }
            } else if self.lower_is(enc, b"utf-16") || self.lower_is(enc, b"utf-16be") || self.lower_is(enc, b"utf-16le") {
                return Err(E_INCENC);
            } else {
                return Err(E_UNKENC);
            }
        }
        Ok(j + 2)
    }
    /// a whole document
    pub unsafe fn document(&mut self, s: Sl) -> u32 {
        if self.foreign && s.n > 1 && (s.at(0) == 0 || s.at(1) == 0) {
            return E_SKIP; // read as UTF-16
        }
        match self.document_r(s) {
            Ok(()) => 0,
            Err(e) => e,
        }
    }
    unsafe fn document_r(&mut self, s: Sl) -> R {
        let mut i = if s.has(0, &[0xef, 0xbb, 0xbf]) { 3 } else { 0 };
        if s.has(i, b"<?xml") {
            // the target must be exactly "xml"
            if i + 5 >= s.n {
                return Err(E_ANY);
            }
            let (k, _) = any(self.namech(s, i + 5))?;
            if k == 0 {
                let c = s.at(i + 5);
                if !(is_ws(cls(c)) || c == b'?') {
                    return Err(E_ANY);
                }
                i = self.xml_decl(s, i + 5)?;
            }
        }
        let mut dt = false;
        loop {
            i = self.skip_ws(s, i);
            if i + 1 >= s.n || s.at(i) != b'<' {
                return Err(E_ANY);
            }
            match cls(s.at(i + 1)) {
                QST => i = any(self.pi(s, i + 2))?,
                EXC => {
                    if self.kw(s, i, b"<!-") {
                        i = any(self.comment(s, i + 3))?;
                    } else if !dt && self.kw(s, i, b"<!DOCTYPE") {
                        dt = true;
                        self.sloppy = true;
                        i = self.doctype(s, i + 9)?;
                        self.sloppy = false;
                    } else {
                        return Err(E_ANY);
                    }
                }
                _ => {
                    let c = s.at(i + 1);
                    let k = match self.namech(s, i + 1) {
                        Ok((k, _)) => k,
                        Err(_) => 0,
                    };
                    if k != 2 {
                        if self.foreign && c >= 0xc0 && c < 0xf5 {
                            // taken for a tag at first: the application's DTD is read before the error is found
                            self.sloppy = true;
                            self.ext_subset(Sl::NIL, Sl::NIL)?;
                        }
                        return Err(E_ANY);
                    }
                    break;
                }
            }
        }
        if self.foreign {
            self.sloppy = true;
            self.ext_subset(Sl::NIL, Sl::NIL)?;
            self.sloppy = false;
        }
        self.lenient = self.haspe && !self.standalone;
        let i = self.content(s, i, true)?;
        self.epilog(s, i)
    }
}
