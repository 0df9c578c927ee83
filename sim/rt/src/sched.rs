//! The scheduler: decides every interleaving, wake-up order, spurious wake-up
//! and clock reading from one seed, or from an explicit decision list (replay).
use crate::hb;
use crate::raw;
use crate::{mix, Rng};
use core::sync::atomic::AtomicU32;

pub const MAXT: usize = 8;
const STACK: usize = 512 * 1024;

/// Kinds of scheduling point.
pub const K_MEM: u32 = 0; // plain memory access
pub const K_ATOMIC: u32 = 1;
pub const K_FUTEX: u32 = 2;
pub const K_YIELD: u32 = 3; // the thread asked to yield
pub const K_HARNESS: u32 = 4; // explicit point in a simulated callback
pub const K_BLOCK: u32 = 5; // current thread cannot continue

/// Kinds of recorded decision.
pub const D_SCHED: u8 = 0;
pub const D_SPURIOUS: u8 = 1;
pub const D_WAKE: u8 = 2;
pub const D_CLOCK: u8 = 3;
pub const D_STALL: u8 = 4;
pub const D_FREEZE: u8 = 5;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Decision {
    pub kind: u8,
    pub at: u64,
    pub val: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strategy {
    /// Switch with probability 1/den at each point of the kind (0 = never).
    Random { sync_den: u64, mem_den: u64 },
    /// Priorities with `depth` priority-change points in the first `horizon` steps.
    Pct { depth: u64, horizon: u64 },
    /// Uninterrupted stretches of random length up to 2^`max_log` points; a
    /// thread that was just woken is run at once one time in `wake_den`.
    Burst { max_log: u64, wake_den: u64 },
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub strategy: Strategy,
    pub replay: Option<Vec<Decision>>,
    /// Spurious futex wake-ups: one in this many waits (0 = never).
    pub spurious_den: u64,
    pub reuse: bool,
    /// 0 = advances a little per reading, 1 = frozen, 2 = jumps both ways, 3 = the same around 1970.
    pub clock_mode: u8,
    /// Stalls (simulated time leaps while everybody stands still): one in this
    /// many synchronisation points (0 = never).
    pub stall_den: u64,
    /// Freezes (one thread is not run for many steps while others can be): one
    /// in this many synchronisation points (0 = never).
    pub freeze_den: u64,
    pub max_steps: u64,
    pub races: bool,
    pub uaf: bool,
}

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub spurious: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub clock_back: u64,
    pub mem_points: u64,
    pub sync_points: u64,
    pub sched_hash: u64,
    pub trace_hash: u64,
    pub freed: u64,
    pub reused: u64,
    pub sim_ns: u64,
    pub stalls: u64,
    pub timeouts: u64,
    pub freezes: u64,
}

pub struct FailInfo<'a> {
    pub kind: &'a str,
    pub msg: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Unused,
    Runnable,
    Blocked { addr: usize, deadline: u64 },
    Finished,
}

struct Th {
    st: St,
    go: AtomicU32,
    prio: i64,
    timed_out: bool,
    /// not run before this step
    frozen: u64,
    pub waker: usize,
    stack_lo: usize,
    stack_hi: usize,
}

#[allow(clippy::declare_interior_mutable_const)]
const TH0: Th = Th { st: St::Unused, go: AtomicU32::new(0), prio: 0, timed_out: false, frozen: 0, waker: usize::MAX, stack_lo: 0, stack_hi: 0 };

static mut TH: [Th; MAXT] = [TH0; MAXT];
static mut NT: usize = 0;
static mut CUR: usize = 0;
static mut ACTIVE: bool = false;
static DONE: AtomicU32 = AtomicU32::new(0);
static PARKED: AtomicU32 = AtomicU32::new(0);

struct S {
    cfg: Cfg,
    rng: Rng,
    stats: Stats,
    seq: u64,
    decisions: Vec<Decision>,
    replay: Vec<Decision>,
    rcur: usize,
    points: Vec<u64>,
    waits: u64,
    wakes: u64,
    low_prio: i64,
    extra_ns: u64,
    real_ns: u64,
    clock_log: Vec<(u64, u64)>,
    rnd_ctr: u64,
    fair: bool,
    /// steps at the last progress
    mark: u64,
    last_sched: u64,
    lost: u64,
    stalls: Vec<(u64, u64)>,
    scur: usize,
    freezes: Vec<(u64, u64)>,
    fcur: usize,
    /// Earliest deadline of a blocked thread (lower bound).
    next_deadline: u64,
    quantum: u64,
    woken: usize,
}

static mut SS: Option<S> = None;
static mut FAIL_HOOK: Option<fn(&FailInfo) -> !> = None;
pub static mut RACES: bool = false;
pub static mut UAF: bool = false;

#[inline]
fn s() -> &'static mut S {
    unsafe { SS.as_mut().unwrap() }
}

#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
/// A simulated world exists (from `prepare` to the end of the process).
pub fn prepared() -> bool {
    unsafe { SS.is_some() }
}
pub fn cur() -> usize {
    unsafe { CUR }
}
pub fn steps() -> u64 {
    if unsafe { SS.is_some() } { s().stats.steps } else { 0 }
}
/// A fresh global event number (total order of harness events).
pub fn seq() -> u64 {
    let s = s();
    s.seq += 1;
    s.seq
}
pub fn stats() -> Stats {
    let mut st = s().stats;
    let (f, r) = crate::alloc::counts();
    st.freed = f;
    st.reused = r;
    st.sim_ns = now();
    st
}
pub fn decisions() -> &'static [Decision] {
    &s().decisions
}
pub fn clock_log() -> &'static [(u64, u64)] {
    &s().clock_log
}
pub fn set_fail_hook(f: fn(&FailInfo) -> !) {
    unsafe { FAIL_HOOK = Some(f) }
}

/// Report a violation and end this run.
pub fn fail(kind: &str, msg: &str) -> ! {
    unsafe {
        ACTIVE = false;
        if let Some(h) = FAIL_HOOK {
            h(&FailInfo { kind, msg })
        }
    }
    raw::exit_group(98)
}

pub fn own_stack(addr: usize) -> bool {
    unsafe { addr >= TH[CUR].stack_lo && addr < TH[CUR].stack_hi }
}

fn lookup(kind: u8, at: u64) -> Option<u64> {
    let s = s();
    if kind == D_SCHED {
        // replay list is sorted; scheduling decisions are consumed in order
        while s.rcur < s.replay.len() && s.replay[s.rcur].kind == D_SCHED && s.replay[s.rcur].at < at {
            s.rcur += 1;
        }
        if s.rcur < s.replay.len() && s.replay[s.rcur].kind == D_SCHED && s.replay[s.rcur].at == at {
            return Some(s.replay[s.rcur].val);
        }
        return None;
    }
    s.replay.iter().find(|d| d.kind == kind && d.at == at).map(|d| d.val)
}

fn record(kind: u8, at: u64, val: u64) {
    let s = s();
    if kind == D_SCHED {
        s.last_sched = at;
    }
    // Fixed capacity, outside the simulated arena: recording never allocates.
    if s.decisions.len() < s.decisions.capacity() {
        s.decisions.push(Decision { kind, at, val });
    } else {
        s.lost += 1;
    }
}

unsafe fn runnable(i: usize) -> bool {
    matches!(TH[i].st, St::Runnable) && TH[i].frozen <= s().stats.steps
}

/// The thread that runs next if nothing is decided.
unsafe fn default_next(kind: u32) -> Option<usize> {
    let stay = !matches!(kind, K_YIELD | K_BLOCK);
    if stay && runnable(CUR) {
        return Some(CUR);
    }
    for d in 1..=NT {
        let i = (CUR + d) % NT;
        if runnable(i) {
            return Some(i);
        }
    }
    None
}

/// A random runnable thread other than the current one.
unsafe fn other(def: usize) -> usize {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..NT {
        if runnable(i) && i != CUR {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        return def;
    }
    c[s().rng.below(n as u64) as usize]
}

unsafe fn choose(kind: u32, def: usize) -> usize {
    let s = s();
    if s.cfg.replay.is_some() {
        if let Some(v) = lookup(D_SCHED, s.stats.steps) {
            let v = v as usize;
            if v < NT && runnable(v) {
                return v;
            }
        }
        if s.fair && s.stats.steps % 64 == 0 && s.stats.steps > s.last_sched + 2000 {
            // liveness tail of a (shrunken) replay: plain round robin
            return default_next(K_BLOCK).unwrap_or(def);
        }
        return def;
    }
    let strat = if s.fair { Strategy::Random { sync_den: 3, mem_den: 40 } } else { s.cfg.strategy };
    match strat {
        Strategy::Random { sync_den, mem_den } => {
            let forced = matches!(kind, K_YIELD | K_BLOCK);
            if !forced {
                let den = if kind == K_MEM { mem_den } else { sync_den };
                if den == 0 || s.rng.below(den) != 0 {
                    return def;
                }
            }
            other(def)
        }
        Strategy::Burst { max_log, wake_den } => {
            let w = core::mem::replace(&mut s.woken, usize::MAX);
            let to_woken = w != usize::MAX && w != CUR && runnable(w) && s.rng.below(wake_den.max(1)) == 0;
            let forced = kind == K_BLOCK || kind == K_YIELD;
            if s.quantum > 0 && !to_woken && !forced {
                s.quantum -= 1;
                return def;
            }
            let log = s.rng.below(max_log + 1);
            s.quantum = (1 << log) + s.rng.below(1 << log);
            if to_woken { w } else { other(def) }
        }
        Strategy::Pct { .. } => {
            if kind == K_YIELD {
                s.low_prio -= 1;
                TH[CUR].prio = s.low_prio;
            }
            if s.points.binary_search(&s.stats.steps).is_ok() {
                s.low_prio -= 1;
                TH[CUR].prio = s.low_prio;
            }
            let mut best = def;
            let mut bp = i64::MIN;
            for (i, t) in TH.iter().enumerate().take(NT) {
                if runnable(i) && t.prio > bp {
                    bp = t.prio;
                    best = i;
                }
            }
            best
        }
    }
}

unsafe fn transfer(to: usize, wait: bool) {
    let me = CUR;
    if to == me {
        return;
    }
    let s = s();
    s.stats.switches += 1;
    s.stats.sched_hash = mix(s.stats.sched_hash ^ (s.stats.steps << 8) ^ to as u64);
    CUR = to;
    raw::gate_open(&TH[to].go);
    if wait {
        raw::gate_wait(&TH[me].go);
    }
}

unsafe fn note_point(kind: u32) {
    let s = s();
    s.stats.steps += 1;
    if kind == K_MEM {
        s.stats.mem_points += 1;
    } else {
        s.stats.sync_points += 1;
    }
    s.stats.trace_hash = mix(s.stats.trace_hash ^ ((kind as u64) << 8) ^ CUR as u64);
    if kind != K_MEM {
        let at = s.stats.steps;
        let d = if s.cfg.replay.is_some() {
            while s.scur < s.stalls.len() && s.stalls[s.scur].0 < at {
                s.scur += 1;
            }
            match s.stalls.get(s.scur) {
                Some(x) if x.0 == at => x.1,
                _ => 0,
            }
        } else if s.cfg.stall_den != 0 && s.stats.stalls < 64 {
            let r = mix(s.cfg.seed ^ 0x57A11 ^ (at << 16));
            if r % s.cfg.stall_den == 0 {
                [600_000, 20_000_000, 1_500_000_000, 31_000_000_000, 3_700_000_000_000][(r >> 32) as usize % 5]
            } else {
                0
            }
        } else {
            0
        };
        if d != 0 {
            record(D_STALL, at, d);
            s.stats.stalls += 1;
            s.extra_ns += d;
        }
        if now() >= s.next_deadline {
            expire();
        }
    }
    let since = s.stats.steps - s.mark;
    if since > s.cfg.max_steps / 4 {
        s.fair = true;
        if since > s.cfg.max_steps {
            fail("no-progress", "step budget exhausted under a fair schedule: some operation never completes");
        }
    }
}

/// The workload got somewhere: the step budget starts afresh.
pub fn progress() {
    unsafe {
        if ACTIVE {
            let s = s();
            s.mark = s.stats.steps;
            s.fair = false;
        }
    }
}

/// A scheduling point: the current thread may be preempted here.
#[inline]
pub fn point(kind: u32) {
    unsafe {
        if !ACTIVE {
            return;
        }
        if !crate::alloc::in_sim() {
            fail("harness-error", "scheduling point inside host_scope".into());
        }
        note_point(kind);
        if kind != K_MEM {
            freeze();
        }
        let Some(def) = default_next(kind) else {
            TH[CUR].frozen = 0;
            return;
        };
        let n = choose(kind, def);
        if n != def {
            record(D_SCHED, s().stats.steps, n as u64);
        }
        if n != CUR {
            if !matches!(kind, K_YIELD) {
                s().stats.preempts += 1;
            }
            transfer(n, true);
        }
    }
}

/// Perhaps keep the current thread from running for a while.
unsafe fn freeze() {
    let s = s();
    let at = s.stats.steps;
    let k = if s.cfg.replay.is_some() {
        while s.fcur < s.freezes.len() && s.freezes[s.fcur].0 < at {
            s.fcur += 1;
        }
        match s.freezes.get(s.fcur) {
            Some(x) if x.0 == at => x.1,
            _ => 0,
        }
    } else if s.cfg.freeze_den != 0 && s.stats.freezes < 12 && !s.fair {
        let r = mix(s.cfg.seed ^ 0xF2EE2E ^ (at << 16));
        if r % s.cfg.freeze_den == 0 {
            [40, 300, 2000, 9000, 30_000][(r >> 32) as usize % 5]
        } else {
            0
        }
    } else {
        0
    };
    if k != 0 {
        record(D_FREEZE, at, k);
        s.stats.freezes += 1;
        TH[CUR].frozen = at + k;
    }
}

/// Explicit scheduling point for harness callbacks.
pub fn yield_point() {
    point(K_HARNESS)
}

/// Wake every thread whose deadline has passed.
unsafe fn expire() {
    let n = now();
    let mut next = u64::MAX;
    for t in TH.iter_mut().take(NT) {
        if let St::Blocked { deadline, .. } = t.st {
            if deadline <= n {
                t.timed_out = true;
                t.waker = usize::MAX;
                t.st = St::Runnable;
                s().stats.timeouts += 1;
            } else {
                next = next.min(deadline);
            }
        }
    }
    s().next_deadline = next;
}

/// The current thread cannot run: hand the baton on (or report deadlock).
unsafe fn give_up(wait: bool) {
    note_point(K_BLOCK);
    loop {
        match default_next(K_BLOCK) {
            Some(def) => {
                let n = choose(K_BLOCK, def);
                if n != def {
                    record(D_SCHED, s().stats.steps, n as u64);
                }
                if n == CUR {
                    return;
                }
                transfer(n, wait);
                return;
            }
            None => {
                // Nobody can run: thaw one, or else jump the clock to the next deadline.
                let cold = (0..NT).filter(|i| matches!(TH[*i].st, St::Runnable)).min_by_key(|i| TH[*i].frozen);
                if let Some(i) = cold {
                    TH[i].frozen = 0;
                    continue;
                }
                let mut best = u64::MAX;
                let mut bi = usize::MAX;
                for (i, t) in TH.iter().enumerate().take(NT) {
                    if let St::Blocked { deadline, .. } = t.st {
                        if deadline < best {
                            best = deadline;
                            bi = i;
                        }
                    }
                }
                if bi == usize::MAX {
                    let mut m = String::from("all remaining threads are blocked for ever:");
                    for (i, t) in TH.iter().enumerate().take(NT) {
                        if let St::Blocked { .. } = t.st {
                            m.push_str(&format!(" thread {i} waits on a lock;"));
                        }
                    }
                    fail("deadlock", &m);
                }
                let n = now();
                if best > n {
                    s().extra_ns += best - n;
                }
                expire();
            }
        }
    }
}

fn now() -> u64 {
    let s = s();
    s.stats.steps * 100 + s.extra_ns
}

pub fn mono_ns() -> u64 {
    1_000_000_000_000 + now()
}

/// A reading of the simulated wall clock. Each reading may move it.
pub fn real_ns() -> u64 {
    let s = s();
    s.stats.clock_reads += 1;
    let at = s.stats.clock_reads;
    let d: i64 = if s.cfg.replay.is_some() {
        lookup(D_CLOCK, at).unwrap_or(0) as i64
    } else {
        let r = mix(s.cfg.seed ^ 0xC10C ^ (at << 20));
        match s.cfg.clock_mode {
            0 => (r % 5_000_000) as i64,
            1 => 0,
            // 3 is like 2 but starts just after 1970, so readings may be negative
            _ => match r % 6 {
                0 => 0,
                1 => (r >> 8) as i64 % 1_000_000_000,
                2 => 86_400_000_000_000 + (r >> 8) as i64 % 1_000_000_000,
                3 => -((r >> 8) as i64 % 3_600_000_000_000),
                4 => -(1 + (r >> 8) as i64 % 1_000_000),
                _ => 1,
            },
        }
    };
    if d != 0 {
        record(D_CLOCK, at, d as u64);
    }
    add_clock(d);
    s.real_ns
}

pub fn add_clock(d: i64) {
    let s = s();
    if d.unsigned_abs() > 10_000_000 {
        s.stats.clock_jumps += 1;
    }
    if d < 0 {
        s.stats.clock_back += 1;
    }
    s.real_ns = s.real_ns.wrapping_add(d as u64);
    s.seq += 1;
    let q = s.seq;
    if s.clock_log.len() < s.clock_log.capacity() {
        s.clock_log.push((q, s.real_ns));
    }
}

/// Deterministic "random" bytes for the code under test (hash seeds).
pub fn rnd_u64() -> u64 {
    let s = s();
    s.rnd_ctr += 1;
    mix(s.cfg.seed ^ 0x4A5D ^ (s.rnd_ctr << 17))
}

/// `opaque`: the caller is code we do not see (std), which may go on to
/// acquire whatever it waited for without another visible access.
pub unsafe fn futex_wait(addr: usize, val: u32, deadline: Option<u64>, opaque: bool) -> i64 {
    point(K_FUTEX);
    if (*(addr as *const AtomicU32)).load(core::sync::atomic::Ordering::SeqCst) != val {
        hb::futex_return(CUR, addr, opaque);
        return -11; // EAGAIN
    }
    let st = s();
    st.waits += 1;
    let at = st.waits;
    let sp = if st.cfg.replay.is_some() {
        lookup(D_SPURIOUS, at).is_some()
    } else {
        st.cfg.spurious_den != 0 && st.stats.spurious < 32 && mix(st.cfg.seed ^ 0x5B0 ^ (at << 13)) % st.cfg.spurious_den == 0
    };
    if sp {
        record(D_SPURIOUS, at, 1);
        st.stats.spurious += 1;
        hb::futex_return(CUR, addr, opaque);
        return 0;
    }
    st.stats.blocks += 1;
    let me = CUR;
    TH[me].timed_out = false;
    TH[me].waker = usize::MAX;
    let deadline = deadline.unwrap_or(u64::MAX);
    TH[me].st = St::Blocked { addr, deadline };
    st.next_deadline = st.next_deadline.min(deadline);
    give_up(true);
    hb::futex_return(me, addr, opaque);
    if TH[me].timed_out {
        -110
    } else {
        0
    }
}

pub unsafe fn futex_wake(addr: usize, n: usize) -> i64 {
    point(K_FUTEX);
    let mut woken = 0;
    while woken < n {
        let mut c = [0usize; MAXT];
        let mut k = 0;
        for (i, t) in TH.iter().enumerate().take(NT) {
            if let St::Blocked { addr: a, .. } = t.st {
                if a == addr {
                    c[k] = i;
                    k += 1;
                }
            }
        }
        if k == 0 {
            break;
        }
        let mut pick = 0;
        if k > 1 && n < NT {
            let st = s();
            st.wakes += 1;
            let at = st.wakes;
            pick = if st.cfg.replay.is_some() {
                lookup(D_WAKE, at).unwrap_or(0) as usize % k
            } else {
                (mix(st.cfg.seed ^ 0x3A4E ^ (at << 11)) % k as u64) as usize
            };
            if pick != 0 {
                record(D_WAKE, at, pick as u64);
            }
        }
        let w = c[pick];
        TH[w].st = St::Runnable;
        TH[w].waker = CUR;
        s().woken = w;
        hb::wake_edge(CUR, w);
        woken += 1;
    }
    woken as i64
}

pub unsafe fn sleep_ns(ns: u64) {
    point(K_YIELD);
    if !ACTIVE {
        return;
    }
    let me = CUR;
    let deadline = now().saturating_add(ns.min(1 << 60));
    TH[me].st = St::Blocked { addr: usize::MAX, deadline };
    s().next_deadline = s().next_deadline.min(deadline);
    give_up(true);
}

pub fn hb_release(chan: usize) {
    hb::chan_release(cur(), chan)
}
pub fn hb_acquire(chan: usize) {
    hb::chan_acquire(cur(), chan)
}

unsafe fn finish(me: usize) {
    TH[me].st = St::Finished;
    let mut left = false;
    for t in TH.iter().take(NT) {
        if !matches!(t.st, St::Finished) {
            left = true;
        }
    }
    if left {
        give_up(false);
    } else {
        ACTIVE = false;
        raw::gate_open(&DONE);
    }
    loop {
        raw::gate_wait(&PARKED); // never opened: no thread-local destructor runs
    }
}

/// Prepare the simulated world. Must be called (once per process) before `run`
/// and before any object the run uses is allocated.
pub fn prepare(cfg: Cfg) {
    unsafe {
        let mut rng = Rng::new(cfg.seed ^ 0x5C4ED);
        let mut points = Vec::new();
        if let Strategy::Pct { depth, horizon } = cfg.strategy {
            for _ in 0..depth {
                points.push(1 + rng.below(horizon.max(1)));
            }
            points.sort_unstable();
        }
        let start = if cfg.clock_mode == 3 { 5_000_000_000 } else { 1_700_000_000_000_000_000 };
        let mut clock_log = Vec::with_capacity(1 << 12);
        clock_log.push((0, start));
        let mut replay = cfg.replay.clone().unwrap_or_default();
        replay.sort_unstable();
        let stalls = replay.iter().filter(|d| d.kind == D_STALL).map(|d| (d.at, d.val)).collect();
        let freezes = replay.iter().filter(|d| d.kind == D_FREEZE).map(|d| (d.at, d.val)).collect();
        RACES = cfg.races;
        UAF = cfg.uaf;
        SS = Some(S {
            rng,
            stats: Stats::default(),
            seq: 0,
            decisions: Vec::with_capacity(1 << 20),
            replay,
            rcur: 0,
            points,
            waits: 0,
            wakes: 0,
            low_prio: 0,
            extra_ns: 0,
            real_ns: start,
            clock_log,
            rnd_ctr: 0,
            fair: false,
            mark: 0,
            last_sched: 0,
            lost: 0,
            stalls,
            scur: 0,
            freezes,
            fcur: 0,
            next_deadline: u64::MAX,
            quantum: 0,
            woken: usize::MAX,
            cfg,
        });
        hb::reset();
        crate::alloc::enter_sim(s().cfg.reuse);
    }
}

/// Run the bodies as simulated threads to completion. May be called again for
/// a later phase (ordered after everything the earlier one did).
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        NT = bodies.len();
        assert!(NT <= MAXT && NT > 0);
        // HB: every thread starts after everything the orchestrator did.
        hb::start(NT);
        static READY: AtomicU32 = AtomicU32::new(0);
        for (i, b) in bodies.into_iter().enumerate() {
            TH[i].go.store(0, core::sync::atomic::Ordering::SeqCst);
            TH[i].st = St::Runnable;
            TH[i].frozen = 0;
            TH[i].prio = 1_000_000 + (s().rng.next() % 1_000_000) as i64;
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let here = 0u8;
                    let sp = &here as *const u8 as usize;
                    TH[i].stack_hi = sp + 16384;
                    TH[i].stack_lo = sp - STACK + 65536;
                    raw::gate_open(&READY);
                    raw::gate_wait(&TH[i].go);
                    b();
                    finish(i);
                })
                .expect("spawn");
            raw::gate_wait(&READY);
        }
        // The first thread to run is a decision too.
        let st = s();
        st.stats.steps += 1;
        let at = st.stats.steps;
        let first = if st.cfg.replay.is_some() {
            lookup(D_SCHED, at).unwrap_or(0) as usize % NT
        } else {
            st.rng.below(NT as u64) as usize
        };
        if first != 0 {
            record(D_SCHED, at, first as u64);
        }
        CUR = first;
        ACTIVE = true;
        raw::gate_open(&TH[first].go);
        raw::gate_wait(&DONE);
    }
}
