//! symx: bounded symbolic execution of whole-program LLVM IR with Z3.
//!   symx --ir FILE.ll --out DIR [--procs N] [--time S] [--maxviol N] NAME=ENTRY[:p0,p1,..] ...
mod exec;
mod expr;
mod fx;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::os::raw::{c_int, c_void};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn pipe(f: *mut c_int) -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn read(f: c_int, b: *mut c_void, n: usize) -> isize;
    fn write(f: c_int, b: *const c_void, n: usize) -> isize;
    fn fcntl(f: c_int, c: c_int, a: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, d: c_int, o: i64) -> *mut c_void;
    fn getpid() -> c_int;
    fn _exit(c: c_int) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn part(ex: &Ex, children: usize, status: &str, names: &[String]) -> String {
    let s = &ex.st;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"children\":{},\"status\":{},\"forks\":{},\"insts\":{},\"branches_sym\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"z3_time\":{:.3},\"exprs\":{},",
        children,
        js(status),
        s.forks,
        s.insts,
        s.branches_sym,
        ex.z.queries,
        ex.z.sat,
        ex.z.unsat,
        ex.z.cached,
        ex.z.time,
        ex.x.nodes.len()
    );
    o.push_str("\"jobs\":{");
    for (i, j) in s.jobs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let r: Vec<String> = ex.reach_names.iter().enumerate().filter(|(k, _)| j.reach >> (*k).min(127) & 1 == 1).map(|(_, n)| js(n)).collect();
        let _ = write!(
            o,
            "{}:{{\"paths\":{},\"killed\":{},\"asserts\":{},\"asserts_sym\":{},\"maxsteps\":{},\"maxvars\":{},\"reach\":[{}]}}",
            js(&names[i]),
            j.paths,
            j.killed,
            j.asserts,
            j.asserts_sym,
            j.maxsteps,
            j.maxvars,
            r.join(",")
        );
    }
    o.push_str("},\"violations\":[");
    let lg = |l: &Vec<(u32, u32)>| l.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(",");
    for (i, v) in ex.viols.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "{{\"job\":{},\"msg\":{},\"at\":{},\"log\":[{}],\"trace\":[{}]}}",
            js(&names[v.job as usize]),
            js(&v.msg),
            js(&v.at),
            lg(&v.log),
            v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")
        );
    }
    o.push_str("],\"samples\":[");
    for (i, v) in ex.samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "{{\"job\":{},\"log\":[{}],\"notes\":[{}]}}",
            js(&names[v.job as usize]),
            lg(&v.log),
            v.notes.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(",")
        );
    }
    o.push_str("],\"unsupported\":[");
    o.push_str(&ex.unsup.iter().take(20).map(|u| js(u)).collect::<Vec<_>>().join(","));
    o.push_str("],\"functions\":[");
    let mut first = true;
    for f in &ex.p.m.funcs {
        if f.defined && ex.cov[ex.p.bbase[f.id as usize] as usize] {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&js(&ex.p.dname[f.id as usize]));
        }
    }
    o.push_str("],\"lines\":{");
    let mut lines: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> = Default::default();
    for f in &ex.p.m.funcs {
        for (bi, b) in f.blocks.iter().enumerate() {
            if ex.cov[ex.p.bbase[f.id as usize] as usize + bi] {
                let mut seen = std::collections::HashSet::new();
                for d in &b.dbg {
                    if seen.insert(*d) {
                        if let Some((f, l)) = ex.p.loc(*d) {
                            if f.starts_with("src/") || f.contains("/shadow/") || f.contains("rexpat") {
                                lines.entry(f).or_default().insert(l);
                            }
                        }
                    }
                }
            }
        }
    }
    o.push_str(
        &lines
            .iter()
            .map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"forkpoints\":[");
    let mut fp: Vec<_> = ex.forkpts.iter().collect();
    fp.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let fps: Vec<String> = fp
        .iter()
        .take(12)
        .map(|((f, b), n)| {
            let blk = &ex.p.m.funcs[*f as usize].blocks[*b as usize];
            let l = blk.dbg.last().and_then(|&d| ex.p.loc(d)).map(|(f, l)| format!("{}:{}", f, l)).unwrap_or_default();
            format!("[{},{}]", js(&format!("{} {}", ex.p.dname[*f as usize], l)), n)
        })
        .collect();
    o.push_str(&fps.join(","));
    o.push_str("]}");
    o
}

fn main() {
    let mut ir = String::new();
    let mut out = String::new();
    let mut procs = 8usize;
    let mut time = 600.0f64;
    let mut maxviol = 8u32;
    let mut max_steps = 20_000_000u64;
    let mut samples = 2usize;
    let mut fill = 0xA5u8;
    let mut jobs: Vec<(String, String, Vec<u64>)> = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ir" => ir = it.next().unwrap(),
            "--out" => out = it.next().unwrap(),
            "--procs" => procs = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--maxviol" => maxviol = it.next().unwrap().parse().unwrap(),
            "--maxsteps" => max_steps = it.next().unwrap().parse().unwrap(),
            "--samples" => samples = it.next().unwrap().parse().unwrap(),
            "--fill" => fill = it.next().unwrap().parse().unwrap(),
            _ => {
                let (n, r) = a.split_once('=').expect("NAME=ENTRY:params");
                let (e, p) = r.split_once(':').unwrap_or((r, ""));
                let ps = p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect();
                jobs.push((n.to_string(), e.to_string(), ps));
            }
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read(&ir).expect("read IR");
    let m = ir::parse(&text);
    drop(text);
    let p = Prog::new(m);
    eprintln!("symx: loaded {} functions, {} blocks in {:.2}s (z3 {})", p.m.funcs.len(), p.nblocks, t0.elapsed().as_secs_f64(), z3::Z3::version());
    std::fs::create_dir_all(&out).unwrap();
    let t0 = Instant::now();
    let shared: &[std::sync::atomic::AtomicU32] = unsafe {
        let a = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        std::slice::from_raw_parts(a as *const std::sync::atomic::AtomicU32, 16)
    };
    use std::sync::atomic::Ordering::SeqCst;
    let mut fds = [0 as c_int; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        fcntl(fds[0], 4, 0o4000);
        for _ in 1..procs {
            write(fds[1], b"t".as_ptr() as *const c_void, 1);
        }
    }
    let mut ex = Ex::new(&p);
    ex.max_steps = max_steps;
    ex.fill = fill;
    ex.max_samples = samples;
    let names: Vec<String> = jobs.iter().map(|j| j.0.clone()).collect();
    let mut work: Vec<State> = vec![];
    for (i, (_, e, ps)) in jobs.iter().enumerate() {
        let f = *p.fname.get(e).unwrap_or_else(|| panic!("no entry {}", e));
        let mut s = ex.initial(f);
        s.job = i as u32;
        work.push(s);
        ex.params.push(ps.clone());
        ex.st.jobs.push(JobStats::default());
        ex.cov[p.bbase[f as usize] as usize] = true;
    }
    let mut child = false;
    let mut kids = 0usize;
    let mut status = "done";
    let mut tick = 0u32;
    let mut viol0 = 0usize;
    while let Some(s) = work.pop() {
        if t0.elapsed().as_secs_f64() > time {
            shared[0].store(2, SeqCst);
        }
        match shared[0].load(SeqCst) {
            0 => {}
            1 => {
                status = "stopped";
                break;
            }
            _ => {
                status = "timeout";
                break;
            }
        }
        if ex.run_slice(s, &mut work, 400_000) {
            // finished a path
        }
        if ex.viols.len() > viol0 {
            let n = (ex.viols.len() - viol0) as u32;
            viol0 = ex.viols.len();
            if shared[1].fetch_add(n, SeqCst) + n >= maxviol {
                shared[0].store(1, SeqCst);
            }
        }
        if !ex.unsup.is_empty() && ex.unsup.len() > 5 {
            shared[0].store(1, SeqCst);
        }
        tick += 1;
        if work.len() >= 2 && (tick & 15 == 0 || tick < 64) {
            let mut b = 0u8;
            let got = unsafe { read(fds[0], &mut b as *mut u8 as *mut c_void, 1) } == 1;
            if got {
                let mut mine = vec![];
                let mut theirs = vec![];
                for (i, s) in work.drain(..).enumerate() {
                    if i % 2 == 0 {
                        theirs.push(s)
                    } else {
                        mine.push(s)
                    }
                }
                let pid = unsafe { fork() };
                if pid == 0 {
                    child = true;
                    kids = 0;
                    work = theirs;
                    ex.reset();
                    viol0 = 0;
                    tick = 0;
                    drop(mine);
                } else if pid > 0 {
                    kids += 1;
                    work = mine;
                    std::mem::forget(theirs); // cheap: the pages stay shared
                } else {
                    eprintln!("fork failed");
                    std::process::exit(3);
                }
            }
        }
    }
    let f = format!("{}/part-{}.json", out, unsafe { getpid() });
    let mut body = part(&ex, kids, status, &names);
    if !child {
        body.insert_str(1, &format!("\"wall\":{:.2},", t0.elapsed().as_secs_f64()));
    }
    std::fs::write(&f, body).unwrap();
    unsafe {
        if child {
            write(fds[1], b"t".as_ptr() as *const c_void, 1);
        } else {
            // the master's own slot
            write(fds[1], b"t".as_ptr() as *const c_void, 1);
        }
        let mut rc = 0;
        for _ in 0..kids {
            let mut s = 0;
            if waitpid(-1, &mut s, 0) < 0 || s != 0 {
                rc = 3;
            }
        }
        if !child {
            eprintln!("symx: {:.2}s", t0.elapsed().as_secs_f64());
        }
        _exit(rc)
    }
}
