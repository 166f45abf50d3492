//! The C library as xmlwf sees it: files in memory, standard output and error in memory, exit.
//! Everything not redefined here is libc's.
#![allow(non_upper_case_globals)]
use crate::dtd::ext_index;
use crate::rt::{fail_c, zalloc, Doc};
pub use ::libc::*;

extern "C" {
    fn symx_end() -> !;
}

/// what is wrong with a file
pub const S_OK: u8 = 0;
pub const S_MISSING: u8 = 1;
pub const S_DIR: u8 = 2;
pub const S_STAT: u8 = 3;
pub const S_READ: u8 = 4;
pub const S_SHORT: u8 = 5;
pub const S_BIG: u8 = 6;

pub struct Out {
    pub name: *const u8,
    pub d: Doc,
    pub open: bool,
    pub removed: bool,
}

/// texts: 0-2 entities, 3 unused, 4 the document, 5 a second document
pub static mut TEXT: [*mut Doc; 6] = [std::ptr::null_mut(); 6];
pub static mut STATE: [u8; 6] = [0; 6];
/// how many bytes the first read of a file that is read piecemeal returns
pub static mut CUT: usize = 0;
/// the document comes through standard input
pub static mut STDIN: bool = false;
static mut FD: [(i8, usize); 8] = [(-1, 0); 8];
pub static mut OPENFDS: isize = 0;
pub static mut BLOCKS: isize = 0;
pub static mut OUTS: [*mut Out; 4] = [std::ptr::null_mut(); 4];
pub static mut NOUTS: usize = 0;
pub static mut stdout: *mut FILE = std::ptr::null_mut();
pub static mut stderr: *mut FILE = std::ptr::null_mut();
pub static mut AT_EXIT: Option<unsafe fn(c_int)> = None;

pub unsafe fn new_out(name: *const u8, cap: usize) -> *mut Out {
    let o = zalloc(std::mem::size_of::<Out>()) as *mut Out;
    std::ptr::write(o, Out { name, d: Doc::new(cap), open: true, removed: false });
    o
}
pub unsafe fn init() {
    stdout = new_out(std::ptr::null(), 4096) as *mut FILE;
    stderr = new_out(std::ptr::null(), 8192) as *mut FILE;
    FD[0] = (4, 0);
}
pub unsafe fn done() -> ! {
    symx_end()
}
pub unsafe fn eq(a: *const u8, b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        if *a.add(i) != b[i] {
            return false;
        }
        i += 1;
    }
    *a.add(i) == 0
}
/// which text a path stands for
pub unsafe fn file_of(p: *const u8) -> i8 {
    let r = if STDIN && *p != b'/' {
        p
    } else if *p == b'/' {
        p.add(1)
    } else if *p == b'd' && *p.add(1) == b'/' {
        if eq(p, b"d/f") {
            return 4;
        }
        if eq(p, b"d/g") {
            return 5;
        }
        p.add(2)
    } else {
        return -1;
    };
    if *r == 0 || *r == b'/' {
        return -1;
    }
    ext_index(*r) as i8
}
/// whether an output file of this name can be made
pub unsafe fn writable(p: *const u8) -> bool {
    *p == b'o' && *p.add(1) == b'/'
}

pub unsafe extern "C" fn exit(rc: c_int) -> ! {
    if let Some(f) = AT_EXIT {
        f(rc);
    }
    symx_end()
}
pub unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
    if n == 0 {
        return std::ptr::null_mut();
    }
    BLOCKS += 1;
    ::libc::malloc(n)
}
pub unsafe extern "C" fn free(p: *mut c_void) {
    if !p.is_null() {
        BLOCKS -= 1;
    }
    ::libc::free(p)
}
pub unsafe extern "C" fn strlen(s: *const c_char) -> size_t {
    let mut n = 0;
    while *s.add(n) != 0 {
        n += 1;
    }
    n
}
pub unsafe extern "C" fn strcpy(d: *mut c_char, s: *const c_char) -> *mut c_char {
    let mut n = 0;
    loop {
        *d.add(n) = *s.add(n);
        if *s.add(n) == 0 {
            return d;
        }
        n += 1;
    }
}
pub unsafe extern "C" fn strcat(d: *mut c_char, s: *const c_char) -> *mut c_char {
    strcpy(d.add(strlen(d)), s);
    d
}
pub unsafe extern "C" fn strcmp(a: *const c_char, b: *const c_char) -> c_int {
    let mut i = 0;
    loop {
        let (x, y) = (*a.add(i) as u8, *b.add(i) as u8);
        if x != y {
            return if x < y { -1 } else { 1 };
        }
        if x == 0 {
            return 0;
        }
        i += 1;
    }
}
pub unsafe extern "C" fn strchr(s: *const c_char, c: c_int) -> *mut c_char {
    let mut p = s;
    loop {
        if *p == c as c_char {
            return p as *mut c_char;
        }
        if *p == 0 {
            return std::ptr::null_mut();
        }
        p = p.add(1);
    }
}
pub unsafe extern "C" fn strrchr(s: *const c_char, c: c_int) -> *mut c_char {
    let mut p = s;
    let mut r = std::ptr::null_mut();
    loop {
        if *p == c as c_char {
            r = p as *mut c_char;
        }
        if *p == 0 {
            return r;
        }
        p = p.add(1);
    }
}
/// stable
pub unsafe extern "C" fn qsort(b: *mut c_void, n: size_t, w: size_t, cmp: Option<unsafe extern "C" fn(*const c_void, *const c_void) -> c_int>) {
    let f = cmp.unwrap();
    let b = b as *mut u8;
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && f(b.add((j - 1) * w) as *const c_void, b.add(j * w) as *const c_void) > 0 {
            let mut k = 0;
            while k < w {
                std::ptr::swap(b.add((j - 1) * w + k) as *mut u64, b.add(j * w + k) as *mut u64);
                k += 8;
            }
            j -= 1;
        }
        i += 1;
    }
}

unsafe fn out<'a>(fp: *mut FILE) -> &'a mut Out {
    if fp.is_null() {
        fail_c("output to no file\0".as_ptr());
    }
    let o = &mut *(fp as *mut Out);
    if !o.open {
        fail_c("output to a closed file\0".as_ptr());
    }
    o
}
pub unsafe extern "C" fn fputc(c: c_int, fp: *mut FILE) -> c_int {
    out(fp).d.push(c as u8);
    c & 255
}
pub unsafe extern "C" fn putc(c: c_int, fp: *mut FILE) -> c_int {
    fputc(c, fp)
}
pub unsafe extern "C" fn fputs(s: *const c_char, fp: *mut FILE) -> c_int {
    let o = out(fp);
    let mut i = 0;
    while *s.add(i) != 0 {
        o.d.push(*s.add(i) as u8);
        i += 1;
    }
    1
}
pub unsafe extern "C" fn fwrite(p: *const c_void, w: size_t, n: size_t, fp: *mut FILE) -> size_t {
    let o = out(fp);
    let mut i = 0;
    while i < w * n {
        o.d.push(*(p as *const u8).add(i));
        i += 1;
    }
    n
}
pub unsafe extern "C" fn setvbuf(fp: *mut FILE, _b: *mut c_char, _m: c_int, _n: size_t) -> c_int {
    out(fp);
    0
}
pub unsafe extern "C" fn fopen(name: *const c_char, mode: *const c_char) -> *mut FILE {
    if *mode != b'w' as c_char {
        fail_c("file opened in an unexpected mode\0".as_ptr());
    }
    if !writable(name as *const u8) {
        return std::ptr::null_mut();
    }
    let n = strlen(name) + 1;
    let c = ::libc::malloc(n) as *mut u8;
    strcpy(c as *mut c_char, name);
    let o = new_out(c, 4096);
    if NOUTS == OUTS.len() {
        fail_c("harness: output files\0".as_ptr());
    }
    OUTS[NOUTS] = o;
    NOUTS += 1;
    o as *mut FILE
}
pub unsafe extern "C" fn fclose(fp: *mut FILE) -> c_int {
    out(fp).open = false;
    0
}
pub unsafe extern "C" fn fflush(_fp: *mut FILE) -> c_int {
    0
}
pub unsafe extern "C" fn remove(name: *const c_char) -> c_int {
    let mut i = NOUTS;
    while i > 0 {
        i -= 1;
        if strcmp((*OUTS[i]).name as *const c_char, name) == 0 && !(*OUTS[i]).removed {
            (*OUTS[i]).removed = true;
            return 0;
        }
    }
    fail_c("something other than the output file removed\0".as_ptr());
    -1
}
pub unsafe extern "C" fn perror(s: *const c_char) {
    let mut i = 0;
    while !s.is_null() && *s.add(i) != 0 {
        out(stderr).d.push(*s.add(i) as u8);
        i += 1;
    }
}
pub unsafe extern "C" fn open(name: *const c_char, _flags: c_int) -> c_int {
    let k = file_of(name as *const u8);
    if k < 0 || STATE[k as usize] == S_MISSING {
        return -1;
    }
    let mut i = 3;
    while i < FD.len() {
        if FD[i].0 < 0 {
            FD[i] = (k, 0);
            OPENFDS += 1;
            return i as c_int;
        }
        i += 1;
    }
    -1
}
unsafe fn fd(i: c_int) -> usize {
    if i < 0 || i as usize >= FD.len() || FD[i as usize].0 < 0 {
        fail_c("a descriptor that is not open\0".as_ptr());
    }
    FD[i as usize].0 as usize
}
pub unsafe extern "C" fn close(i: c_int) -> c_int {
    fd(i);
    FD[i as usize].0 = -1;
    OPENFDS -= 1;
    0
}
pub unsafe extern "C" fn fstat(i: c_int, sb: *mut stat) -> c_int {
    let k = fd(i);
    if STATE[k] == S_STAT {
        return -1;
    }
    (*sb).st_mode = if STATE[k] == S_DIR { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    (*sb).st_size = match STATE[k] {
        S_BIG => 0x4000_0001,
        S_SHORT => (*TEXT[k]).n as i64 + 1,
        _ => (*TEXT[k]).n as i64,
    };
    0
}
pub unsafe extern "C" fn read(i: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    let k = fd(i);
    if STATE[k] == S_READ || STATE[k] == S_DIR {
        return -1;
    }
    let (d, pos) = (&*TEXT[k], FD[i as usize].1);
    let mut m = d.n - pos;
    if m > n {
        m = n;
    }
    if CUT != 0 && pos == 0 && m > CUT {
        m = CUT;
    }
    ::libc::memcpy(p, d.b.add(pos) as *const c_void, m);
    FD[i as usize].1 = pos + m;
    m as ssize_t
}

// ------------------------------------------------------------------ fprintf
pub trait Arg {
    fn arg(self) -> u64;
}
impl<T> Arg for *const T {
    fn arg(self) -> u64 {
        self as u64
    }
}
impl<T> Arg for *mut T {
    fn arg(self) -> u64 {
        self as u64
    }
}
macro_rules! num {
    ($($t:ty),*) => { $(impl Arg for $t { fn arg(self) -> u64 { self as i64 as u64 } })* };
}
num!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
impl Arg for rexpat::expat_h::XML_Error {
    fn arg(self) -> u64 {
        self.code() as u64
    }
}
pub unsafe fn decimal(o: &mut Doc, v: u64) {
    let mut b = [0u8; 20];
    let mut i = 0;
    let mut v = v;
    loop {
        b[i] = b'0' + (v % 10) as u8;
        i += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    while i > 0 {
        i -= 1;
        o.push(b[i]);
    }
}
pub unsafe fn print_(fp: *mut FILE, f: *const c_char, a: &[u64]) -> c_int {
    let o = out(fp);
    let mut k = 0;
    let mut i = 0;
    loop {
        let c = *f.add(i) as u8;
        i += 1;
        if c == 0 {
            return 1;
        }
        if c != b'%' {
            o.d.push(c);
            continue;
        }
        let mut long = false;
        while *f.add(i) as u8 == b'l' {
            long = true;
            i += 1;
        }
        let c = *f.add(i) as u8;
        i += 1;
        if c == b'%' {
            o.d.push(c);
            continue;
        }
        let v = a[k];
        k += 1;
        match c {
            b's' => {
                fputs(v as *const c_char, fp);
            }
            b'c' => o.d.push(v as u8),
            b'd' | b'i' => {
                let v = if long { v as i64 } else { v as i32 as i64 };
                if v < 0 {
                    o.d.push(b'-');
                }
                decimal(&mut o.d, (v as i128).abs() as u64);
            }
            b'u' => decimal(&mut o.d, if long { v } else { v as u32 as u64 }),
            _ => fail_c("harness: format\0".as_ptr()),
        }
    }
}
pub fn fprintf() {}
#[macro_export]
macro_rules! vfprintf {
    ($fp:expr, $fmt:expr $(, $a:expr)* $(,)?) => {
        crate::vfs::print_($fp, $fmt, &[$(crate::vfs::Arg::arg($a)),*])
    };
}
