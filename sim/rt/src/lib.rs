//! detrt: the deterministic-simulation runtime.
//!
//! The crates under test are compiled with ThreadSanitizer instrumentation but
//! linked against *this* runtime instead of compiler-rt's. Every instrumented
//! memory access therefore lands here, where a seeded scheduler decides which
//! (real, parked) thread runs next. libc's futex, yield, sleep, clock and
//! randomness entry points are interposed as well, so nothing the code under
//! test can observe is decided outside this file.
//!
//! Exactly one simulated thread holds the baton at any time; all state below is
//! only touched by the baton holder (or by the orchestrating thread while no
//! simulated thread runs).
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod alloc;
pub mod hb;
pub mod interpose;
pub mod raw;
pub mod sched;
pub mod tsan;

pub use alloc::host_scope;
pub use sched::progress;
pub use sched::{
    active, add_clock, clock_log, cur, decisions, fail, hb_acquire, hb_release, prepare, run, seq, set_fail_hook,
    stats, steps, yield_point, Cfg, Decision, FailInfo, Stats, Strategy, MAXT,
};

/// SplitMix64: the only generator used anywhere in the simulator.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[inline]
pub fn mix(z: u64) -> u64 {
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
