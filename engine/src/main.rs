//! symex: bounded symbolic execution of rustc-emitted LLVM IR with Z3.
//!
//! usage: symex FILE.ll --out DIR --harness a,b,c [--time SEC] [--procs N] [--tier T]
//!        [--concrete HEX] [--budget STEPS] [--cert-rate N] [--keep-going]
//!
//! Every process that took part writes DIR/part.<pid>.json; the driver merges them.
mod exec;
mod expr;
mod ir;
mod smt;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
}

#[repr(C)]
struct Shared {
    live: AtomicU32,
    stop: AtomicU32,
    bad: AtomicU32,
    npid: AtomicU32,
    pid: [AtomicU32; 800],
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

fn dump(e: &Eng, names: &[String], dir: &str) {
    let mut o = String::new();
    o.push_str("{\"harness\":{");
    for (i, n) in names.iter().enumerate() {
        let s = &e.stats[i];
        if i > 0 { o.push(','); }
        let _ = write!(o, "{}:{{\"paths\":{},\"assumed\":{},\"weight\":{:e},\"weight_unknown\":{},\"checks\":{},\"symchecks\":{},\"left\":{},\"forks\":{},\"steps\":{},\"maxsteps\":{},\"reach\":{{",
            jstr(n), s.paths, s.assumed, s.weight, s.weight_unknown, s.checks, s.symchecks, s.left, s.forks, s.steps, s.maxsteps);
        let mut first = true;
        for (k, v) in &s.reach { if !first { o.push(','); } first = false; let _ = write!(o, "\"{}\":{}", k, v); }
        o.push_str("},\"samples\":[");
        for (k, (b, t)) in s.samples.iter().enumerate() { if k > 0 { o.push(','); } let _ = write!(o, "[\"{}\",\"{:016x}\"]", hex(b), t); }
        o.push_str("],\"viol\":[");
        for (k, (a, b, c)) in s.viol.iter().enumerate() { if k > 0 { o.push(','); } let _ = write!(o, "[{},{},\"{}\"]", jstr(a), jstr(b), hex(c)); }
        o.push_str("],\"unsup\":[");
        for (k, a) in s.unsup.iter().enumerate() { if k > 0 { o.push(','); } o.push_str(&jstr(a)); }
        o.push_str("]}");
    }
    let _ = write!(o, "}},\"queries\":{},\"solver_time\":{},\"solver_unknown\":{},\"cert_queries\":{},\"cert_fail\":{},\"fp_ops\":{},\"z3\":{},\"rss_mb\":{},\"functions\":[",
        e.smt.queries, e.smt.time, e.smt.unknown, e.cert_queries, e.cert_fail, e.fp_ops, jstr(&smt::Smt::version()), rss_mb());
    for (k, f) in e.executed.iter().enumerate() { if k > 0 { o.push(','); } o.push_str(&jstr(&e.m.funcs[*f as usize].name)); }
    o.push_str("]}");
    let p = format!("{}/part.{}.json", dir, unsafe { getpid() });
    std::fs::write(&p, o).expect("write part");
}

fn main() {
    let mut args = std::env::args().skip(1);
    let file = args.next().expect("usage: symex FILE.ll ...");
    let mut dir = String::from(".");
    let mut names: Vec<String> = vec![];
    let mut time = 60.0f64;
    let mut procs = 1u32;
    let mut tier = 0u64;
    let mut conc: Option<Vec<u8>> = None;
    let mut budget = 40_000_000u64;
    let mut cert = 1u64;
    let mut keep = false;
    let mut debug_forks = false;
    let mut memcap = 3500u64;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--out" => dir = v(),
            "--harness" => names = v().split(',').map(|s| s.to_string()).collect(),
            "--time" => time = v().parse().unwrap(),
            "--procs" => procs = v().parse().unwrap(),
            "--tier" => tier = v().parse().unwrap(),
            "--budget" => budget = v().parse().unwrap(),
            "--cert-rate" => cert = v().parse().unwrap(),
            "--memcap" => memcap = v().parse().unwrap(),
            "--debug-forks" => debug_forks = true,
            "--keep-going" => keep = true,
            "--concrete" => {
                let h = v();
                conc = Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    let t0 = Instant::now();
    let sh: &'static Shared = unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    sh.live.store(1, SeqCst);
    let text = std::fs::read_to_string(&file).expect("read ll");
    let m = ir::Module::load(text);
    let mut e = Eng::new(m);
    e.tier = tier;
    e.concrete = conc;
    e.default_budget = budget;
    e.cert_rate = cert;
    e.debug_forks = debug_forks;
    let deadline = t0 + Duration::from_secs_f64(time);
    e.deadline = Some(deadline);
    let mut queues: Vec<Vec<State>> = vec![];
    for (i, n) in names.iter().enumerate() {
        e.stats.push(HStat::default());
        match e.initial(i as u16, n) {
            Some(s) => queues.push(vec![s]),
            None => {
                e.stats[i].unsup.push("no such harness".into());
                e.stats[i].left = 1;
                queues.push(vec![]);
            }
        }
    }
    let nh = names.len();
    let mut is_main = true;
    let mut cur = 0usize;
    let mut last_fork = Instant::now();
    let mut npaths = 0u64;
    let mut out_of_mem = false;
    loop {
        if sh.stop.load(SeqCst) != 0 || Instant::now() > deadline || out_of_mem { break; }
        // next harness with work
        let mut k = 0;
        while k < nh && queues[(cur + k) % nh].is_empty() { k += 1; }
        if k == nh { break; }
        cur = (cur + k) % nh;
        let st = queues[cur].pop().unwrap();
        e.run(st);
        npaths += 1;
        let h = cur;
        queues[h].append(&mut e.work);
        if !keep && e.stats.iter().any(|s| !s.viol.is_empty()) {
            sh.stop.store(1, SeqCst);
            break;
        }
        cur = (cur + 1) % nh;
        if npaths % 256 == 0 && rss_mb() > memcap { out_of_mem = true; }
        let total: usize = queues.iter().map(|q| q.len()).sum();
        if total >= 2 && sh.live.load(SeqCst) < procs && last_fork.elapsed() > Duration::from_millis(20) {
            if sh.live.fetch_add(1, SeqCst) >= procs {
                sh.live.fetch_sub(1, SeqCst);
            } else {
                last_fork = Instant::now();
                // split: alternate states, whole order preserved
                let mut par = 0usize;
                let pid = unsafe { fork() };
                if pid < 0 { sh.live.fetch_sub(1, SeqCst); continue; }
                let child = pid == 0;
                if !child {
                    let k = sh.npid.fetch_add(1, SeqCst) as usize;
                    sh.pid[k % 800].store(pid as u32, SeqCst);
                }
                for q in queues.iter_mut() {
                    let old = std::mem::take(q);
                    for s in old {
                        if (par & 1 == 0) == child { q.push(s); }
                        par += 1;
                    }
                }
                if child {
                    is_main = false;
                    for s in e.stats.iter_mut() { *s = HStat::default(); }
                    e.smt.queries = 0;
                    e.smt.time = 0.0;
                    e.smt.unknown = 0;
                    e.cert_queries = 0;
                    e.cert_fail = 0;
                    e.fp_ops = 0;
                    e.executed.clear();
                }
            }
        }
    }
    for (h, q) in queues.iter().enumerate() { e.stats[h].left += q.len() as u64; }
    dump(&e, &names, &dir);
    if debug_forks {
        let mut v: Vec<_> = e.forkmap.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, n) in v.iter().take(25) { eprintln!("{:?} {}", n, k); }
    }
    if !is_main {
        sh.live.fetch_sub(1, SeqCst);
        unsafe { _exit(0) }
    }
    sh.live.fetch_sub(1, SeqCst);
    loop {
        let mut s = 0;
        let p = unsafe { waitpid(-1, &mut s, 1) };
        if p < 0 { break; }
        if p == 0 {
            std::thread::sleep(Duration::from_millis(3));
            if Instant::now() > deadline + Duration::from_secs(15) {
                for k in 0..(sh.npid.load(SeqCst) as usize).min(800) { let q = sh.pid[k].load(SeqCst); if q != 0 { unsafe { kill(q as i32, 9); } } }
            }
            continue;
        }
        for k in 0..800 { if sh.pid[k].load(SeqCst) == p as u32 { sh.pid[k].store(0, SeqCst); } }
        if s != 0 { sh.bad.fetch_add(1, SeqCst); }
    }
    std::fs::write(format!("{}/main.json", dir), format!("{{\"elapsed\":{},\"crashed\":{}}}", t0.elapsed().as_secs_f64(), sh.bad.load(SeqCst))).unwrap();
    unsafe { _exit(0) }
}
