//! The interface between a harness and the symbolic executor.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
mod raw {
    extern "C" {
        pub fn sym_byte() -> u8;
        pub fn sym_below(n: u32) -> u8;
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_digest(v: u64);
        pub fn sym_end() -> !;
        pub fn sym_tier() -> u32;
        pub fn sym_budget(n: u64);
        pub fn sym_conc(v: u64) -> u64;
    }
}
/// Set by the replay program to print what a counterexample means.
pub static SHOW: AtomicBool = AtomicBool::new(false);
#[inline(always)]
pub fn byte() -> u8 { unsafe { raw::sym_byte() } }
/// A symbolic value in 0..n.
#[inline(always)]
pub fn below(n: usize) -> usize { unsafe { raw::sym_below(n as u32) as usize } }
#[inline(always)]
pub fn below8(n: usize) -> u8 { unsafe { raw::sym_below(n as u32) } }
/// A symbolic value in 0..n, one path per value.
#[inline(always)]
pub fn pick(n: usize) -> usize { unsafe { raw::sym_conc(raw::sym_below(n as u32) as u64) as usize } }
#[inline(always)]
pub fn assume(b: bool) { unsafe { raw::sym_assume(b) } }
#[inline(always)]
pub fn check(b: bool, id: u32) { unsafe { raw::sym_check(b, id) } }
#[inline(always)]
pub fn reach(id: u32) { unsafe { raw::sym_reach(id) } }
#[inline(always)]
pub fn digest(v: u64) { unsafe { raw::sym_digest(v) } }
#[inline(always)]
pub fn end() -> ! { unsafe { raw::sym_end() } }
#[inline(always)]
pub fn thorough() -> bool { unsafe { raw::sym_tier() > 0 } }
#[inline(always)]
pub fn tier(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
#[inline(always)]
pub fn budget(n: u64) { unsafe { raw::sym_budget(n) } }
#[inline(always)]
pub fn conc(v: usize) -> usize { unsafe { raw::sym_conc(v as u64) as usize } }
pub fn showing() -> bool { SHOW.load(Relaxed) }
