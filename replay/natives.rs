// Native versions of the executor's intrinsics: values come from a file, checks are real.
// usage: replay ENTRY [params p0,p1,..|-] FILE      FILE: lines "n v" (n = 0: byte v; n > 0: choice v of n)
use std::os::raw::{c_char, c_int, c_void};

static mut VALS: [(u32, u32); 4096] = [(0, 0); 4096];
static mut NVALS: usize = 0;
static mut POS: usize = 0;
static mut PARAMS: [u64; 16] = [0; 16];

unsafe fn out(s: &[u8]) {
    libc::write(1, s.as_ptr() as *const c_void, s.len());
}
unsafe fn outc(s: *const u8) {
    libc::write(1, s as *const c_void, libc::strlen(s as *const c_char));
}
unsafe fn die(code: c_int, what: &[u8], msg: *const u8) -> ! {
    out(what);
    outc(msg);
    out(b"\n");
    libc::_exit(code)
}
unsafe fn next(n: u32) -> u32 {
    if POS >= NVALS {
        die(3, b"DIVERGED ", b"input exhausted\0".as_ptr());
    }
    let (k, v) = VALS[POS];
    POS += 1;
    if k != n {
        die(3, b"DIVERGED ", b"kind mismatch\0".as_ptr());
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn symx_byte() -> u8 {
    next(0) as u8
}
#[no_mangle]
pub unsafe extern "C" fn symx_choice(n: u32) -> u32 {
    next(n)
}
#[no_mangle]
pub unsafe extern "C" fn symx_assume(c: u32) {
    if c == 0 {
        die(4, b"ASSUME-FALSE", b"\0".as_ptr());
    }
}
#[no_mangle]
pub unsafe extern "C" fn symx_assert(c: u32, msg: *const u8) {
    if c == 0 {
        die(10, b"ASSERT-FAILED ", msg);
    }
}
#[no_mangle]
pub unsafe extern "C" fn symx_fail(msg: *const u8) {
    die(10, b"ASSERT-FAILED ", msg);
}
#[no_mangle]
pub unsafe extern "C" fn symx_reach(msg: *const u8) {
    out(b"REACH ");
    outc(msg);
    out(b"\n");
}
#[no_mangle]
pub unsafe extern "C" fn symx_param(i: u32) -> u64 {
    PARAMS[i as usize]
}
#[no_mangle]
pub unsafe extern "C" fn symx_note(v: u64) {
    let mut b = [0u8; 26];
    let mut i = 26;
    i -= 1;
    b[i] = b'\n';
    let mut v = v;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    out(b"NOTE ");
    out(&b[i..]);
}
#[no_mangle]
pub unsafe extern "C" fn symx_bytes_eq(a: *const u8, b: *const u8, n: usize) -> u32 {
    (libc::memcmp(a as *const c_void, b as *const c_void, n) == 0) as u32
}
#[no_mangle]
pub unsafe extern "C" fn symx_concrete(v: u64) -> u64 {
    v
}
/// the program ends here, as after the entry's return
#[no_mangle]
pub unsafe extern "C" fn symx_end() -> ! {
    if POS != NVALS {
        die(3, b"DIVERGED ", b"input left over\0".as_ptr());
    }
    out(b"OK\n");
    libc::_exit(0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 4 {
        eprintln!("usage: replay ENTRY PARAMS FILE");
        std::process::exit(2);
    }
    unsafe {
        if a[2] != "-" {
            for (i, p) in a[2].split(',').enumerate() {
                PARAMS[i] = p.parse().unwrap();
            }
        }
        for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
            let mut w = l.split_whitespace();
            if let (Some(n), Some(v)) = (w.next(), w.next()) {
                if n.starts_with('#') {
                    continue;
                }
                VALS[NVALS] = (n.parse().unwrap(), v.parse().unwrap());
                NVALS += 1;
            }
        }
        let f = match a[1].as_str() {
            @ENTRIES@
            _ => {
                eprintln!("no entry {}", a[1]);
                std::process::exit(2);
            }
        };
        drop(a);
        rt::LIVE = 0;
        f();
        if POS != NVALS {
            die(3, b"DIVERGED ", b"input left over\0".as_ptr());
        }
        out(b"OK\n");
        libc::_exit(0);
    }
}
