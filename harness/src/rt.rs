//! Intrinsics of the symbolic executor (and of the native replayer), allocator, event log.
use libc::{c_char, c_int, c_void};
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    /// a fresh symbolic byte
    fn symx_byte() -> u8;
    /// a fresh symbolic choice in 0..n (explored exhaustively)
    fn symx_choice(n: u32) -> u32;
    fn symx_assume(c: u32);
    fn symx_assert(c: u32, msg: *const u8);
    fn symx_fail(msg: *const u8);
    fn symx_reach(msg: *const u8);
    fn symx_param(i: u32) -> u64;
    fn symx_note(v: u64);
    fn symx_bytes_eq(a: *const u8, b: *const u8, n: usize) -> u32;
    fn symx_concrete(v: u64) -> u64;
}

pub fn byte() -> u8 {
    unsafe { symx_byte() }
}
pub fn choice(n: usize) -> usize {
    unsafe { symx_choice(n as u32) as usize }
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { symx_assume(c as u32) }
}
pub fn param(i: u32) -> u64 {
    unsafe { symx_param(i) }
}
pub fn note(v: u64) {
    unsafe { symx_note(v) }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { symx_concrete(v) }
}
pub fn assert_c(c: bool, msg: *const u8) {
    unsafe { symx_assert(c as u32, msg) }
}
pub fn reach_c(msg: *const u8) {
    unsafe { symx_reach(msg) }
}
pub fn fail_c(msg: *const u8) {
    unsafe { symx_fail(msg) }
}
pub fn bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    unsafe { symx_bytes_eq(a, b, n) != 0 }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        crate::rt::assert_c($c, concat!($m, "\0").as_ptr())
    };
}
#[macro_export]
macro_rules! fail {
    ($m:expr) => {
        crate::rt::fail_c(concat!($m, "\0").as_ptr())
    };
}
/// vacuity witness: the path reached this point
#[macro_export]
macro_rules! reach {
    ($m:expr) => {
        crate::rt::reach_c(concat!($m, "\0").as_ptr())
    };
}

// ------------------------------------------------------------------ allocator
pub struct CountingAlloc;

pub static mut LIVE: isize = 0;
pub static mut ALLOCS: usize = 0;
/// the allocation with this ordinal (1-based, counted from arming) fails; 0 = none
pub static mut FAIL_AT: usize = 0;
pub static mut FAIL_ALL_AFTER: bool = false;

#[inline(always)]
unsafe fn should_fail() -> bool {
    ALLOCS += 1;
    if FAIL_AT != 0 {
        if ALLOCS == FAIL_AT || (FAIL_ALL_AFTER && ALLOCS > FAIL_AT) {
            return true;
        }
    }
    false
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        let p = if l.align() > 16 {
            let mut q: *mut c_void = std::ptr::null_mut();
            if libc::posix_memalign(&mut q, l.align(), l.size()) != 0 {
                return std::ptr::null_mut();
            }
            q as *mut u8
        } else {
            libc::malloc(l.size()) as *mut u8
        };
        if !p.is_null() {
            LIVE += 1;
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        // rexpat's FREE! passes null through
        if !p.is_null() {
            LIVE -= 1;
        }
        libc::free(p as *mut c_void)
    }
    unsafe fn realloc(&self, p: *mut u8, _l: Layout, n: usize) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        let q = libc::realloc(p as *mut c_void, n) as *mut u8;
        if p.is_null() && !q.is_null() {
            LIVE += 1;
        }
        q
    }
}

#[global_allocator]
static GLOBAL: CountingAlloc = CountingAlloc;

pub unsafe fn arm_failure(k: usize, all_after: bool) {
    ALLOCS = 0;
    FAIL_AT = k;
    FAIL_ALL_AFTER = all_after;
}

// ------------------------------------------------------------------ event log
/// capacity of event logs
pub static mut CAP: usize = 2048;
pub const K_DATA: u8 = 0;
pub const K_TAG: u8 = 1;
pub const K_END: u8 = 2;
pub const K_INT: u8 = 3;
pub const K_NULL: u8 = 4;

#[repr(C)]
pub struct Log {
    pub n: usize,
    pub last: u8,
    pub events: usize,
    pub buf: *mut u8,
    pub kind: *mut u8,
}

pub unsafe fn zalloc(n: usize) -> *mut u8 {
    let p = libc::malloc(n) as *mut u8;
    libc::memset(p as *mut c_void, 0 as c_int, n);
    p
}

impl Log {
    pub unsafe fn new() -> *mut Log {
        let p = zalloc(std::mem::size_of::<Log>()) as *mut Log;
        (*p).buf = zalloc(CAP);
        (*p).kind = zalloc(CAP);
        p
    }
    pub unsafe fn clear(&mut self) {
        self.n = 0;
        self.last = 0;
        self.events = 0;
    }
    pub unsafe fn put(&mut self, b: u8, k: u8) {
        if self.n >= CAP {
            fail!("harness: event log overflow");
            return;
        }
        *self.buf.add(self.n) = b;
        *self.kind.add(self.n) = k;
        self.n += 1;
    }
    pub unsafe fn tag(&mut self, t: u8) {
        self.put(t, K_TAG);
        self.last = t;
        self.events += 1;
    }
    pub unsafe fn end(&mut self) {
        self.put(0, K_END)
    }
    pub unsafe fn int(&mut self, v: u64) {
        let mut i = 0;
        while i < 8 {
            self.put((v >> (8 * i)) as u8, K_INT);
            i += 1;
        }
    }
    pub unsafe fn bytes(&mut self, s: &[u8]) {
        for &b in s {
            self.put(b, K_DATA);
        }
    }
    pub unsafe fn xch(&mut self, c: XML_Char) {
        self.put(c as u8, K_DATA);
        if std::mem::size_of::<XML_Char>() > 1 {
            self.put(((c as u32) >> 8) as u8, K_DATA);
        }
    }
    /// an ASCII string, in the parser's character width
    pub unsafe fn ascii(&mut self, s: &[u8]) {
        for &b in s {
            self.xch(b as XML_Char);
        }
    }
    pub unsafe fn str0(&mut self, s: *const XML_Char) {
        if s.is_null() {
            self.put(0, K_NULL);
            return;
        }
        let mut i = 0;
        while *s.offset(i) != 0 {
            self.xch(*s.offset(i));
            i += 1;
        }
        self.end();
    }
    pub unsafe fn strn(&mut self, s: *const XML_Char, n: c_int) {
        let mut i = 0;
        while i < n as isize {
            self.xch(*s.offset(i));
            i += 1;
        }
    }
    pub unsafe fn same(&self, o: &Log) -> bool {
        self.n == o.n && bytes_eq(self.kind, o.kind, self.n) && bytes_eq(self.buf, o.buf, self.n)
    }
    /// equal up to character/default data delivered right before an error: the shorter log is a
    /// prefix of the longer one and what follows is at most one text-like event
    pub unsafe fn same_upto_text(&self, o: &Log) -> bool {
        let (s, l) = if self.n <= o.n { (self, o) } else { (o, self) };
        if !(bytes_eq(s.kind, l.kind, s.n) && bytes_eq(s.buf, l.buf, s.n)) {
            return false;
        }
        let mut i = s.n;
        let mut tags = 0;
        while i < l.n {
            let k = *l.kind.add(i);
            if k == K_TAG {
                tags += 1;
                let t = *l.buf.add(i);
                if !(t == b'T' || t == b'D') || i != s.n || tags > 1 {
                    return false;
                }
            } else if k != K_DATA {
                return false;
            }
            i += 1;
        }
        true
    }
    /// as above, but the extra event may be of any kind (declarations are reported piecemeal)
    pub unsafe fn same_upto_event(&self, o: &Log) -> bool {
        let (s, l) = if self.n <= o.n { (self, o) } else { (o, self) };
        if !(bytes_eq(s.kind, l.kind, s.n) && bytes_eq(s.buf, l.buf, s.n)) {
            return false;
        }
        let mut i = s.n;
        let mut tags = 0;
        while i < l.n {
            if *l.kind.add(i) == K_TAG {
                tags += 1;
                if i != s.n || tags > 1 {
                    return false;
                }
            }
            i += 1;
        }
        true
    }
    /// record a digest for the engine-versus-native cross-check
    pub unsafe fn note(&self) {
        note(self.n as u64);
        let mut i = 0;
        let mut acc = 0u64;
        while i < self.n {
            acc = (acc << 8) | *self.buf.add(i) as u64;
            i += 1;
            if i % 8 == 0 {
                note(acc);
                acc = 0;
            }
        }
        note(acc);
    }
}

pub use rexpat::expat_external_h::XML_Char;

/// document under construction
pub struct Doc {
    pub b: *mut u8,
    pub n: usize,
    pub cap: usize,
}

impl Doc {
    pub unsafe fn new(cap: usize) -> Doc {
        Doc { b: libc::malloc(cap) as *mut u8, n: 0, cap }
    }
    pub unsafe fn free(&mut self) {
        libc::free(self.b as *mut c_void)
    }
    pub unsafe fn push(&mut self, c: u8) {
        if self.n >= self.cap {
            fail!("harness: document overflow");
            return;
        }
        *self.b.add(self.n) = c;
        self.n += 1;
    }
    pub unsafe fn lit(&mut self, s: &[u8]) {
        for &c in s {
            self.push(c);
        }
    }
    pub unsafe fn sym(&mut self) -> u8 {
        let c = byte();
        self.push(c);
        c
    }
    /// a symbolic byte restricted to a set
    pub unsafe fn of(&mut self, set: &[u8]) -> u8 {
        let c = byte();
        let mut ok = false;
        for &s in set {
            ok |= s == c;
        }
        assume(ok);
        self.push(c);
        c
    }
    pub fn at(&self, i: usize) -> u8 {
        unsafe { *self.b.add(i) }
    }
    pub fn p(&self) -> *const c_char {
        self.b as *const c_char
    }
    /// exact-size copy (so that any read past the end is out of bounds)
    pub unsafe fn exact(&self, from: usize, to: usize) -> *mut c_char {
        let p = libc::malloc(to - from) as *mut u8;
        libc::memcpy(p as *mut c_void, self.b.add(from) as *const c_void, to - from);
        p as *mut c_char
    }
}
