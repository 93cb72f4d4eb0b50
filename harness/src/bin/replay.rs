// Native replay: runs one harness with concrete input bytes.
// exit 0: finished (prints the trace hash), 10: a check failed, 20: an
// assumption failed, 101: the code under test panicked.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

static INPUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static POS: AtomicUsize = AtomicUsize::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
static TIER: AtomicU64 = AtomicU64::new(0);

fn fnv(v: u64) {
    let mut h = TRACE.load(Relaxed);
    for i in 0..8 {
        h ^= (v >> (8 * i)) & 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    TRACE.store(h, Relaxed);
}
fn next() -> u8 {
    let p = POS.fetch_add(1, Relaxed);
    INPUT.lock().unwrap().get(p).copied().unwrap_or(0)
}
#[no_mangle]
extern "C" fn sym_byte() -> u8 { next() }
#[no_mangle]
extern "C" fn sym_below(n: u32) -> u8 {
    let b = next();
    if (b as u32) < n { b } else { 0 }
}
#[no_mangle]
extern "C" fn sym_assume(b: bool) {
    if !b { println!("ASSUME"); std::process::exit(20); }
}
#[no_mangle]
extern "C" fn sym_check(b: bool, id: u32) {
    if !b { println!("CHECK-FAILED {}", id); std::process::exit(10); }
}
#[no_mangle]
extern "C" fn sym_reach(id: u32) { fnv(id as u64 | 1 << 40); }
#[no_mangle]
extern "C" fn sym_digest(v: u64) { fnv(v); }
#[no_mangle]
extern "C" fn sym_end() -> ! {
    println!("TRACE {:016x}", TRACE.load(Relaxed));
    std::process::exit(0)
}
#[no_mangle]
extern "C" fn sym_tier() -> u32 { TIER.load(Relaxed) as u32 }
#[no_mangle]
extern "C" fn sym_budget(_: u64) {}
#[no_mangle]
extern "C" fn sym_conc(v: u64) -> u64 { v }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in wsharness::ALL { println!("{}", n); }
        return;
    }
    let h = &a[2];
    *INPUT.lock().unwrap() = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    if a.len() > 3 { TIER.store(a[3].parse().unwrap(), Relaxed); }
    if a.len() > 4 { wsharness::sym::SHOW.store(true, Relaxed); }
    let name = a[1].clone();
    let f = wsharness::ALL.iter().find(|x| x.0 == name).expect("unknown harness").1;
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { f(); sym_end() }).unwrap();
    if t.join().is_err() { println!("PANIC"); std::process::exit(101); }
}
