//! History recording and helpers shared by all scenario families.
//!
//! All of this is touched only by the thread holding the simulator's baton.
use crate::prog::{Op, Prog};
use detrt::host_scope;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Ev {
    pub t: usize,
    pub i: usize,
    pub k: &'static str,
    pub o: u64,
    pub a: u64,
    pub r: u64,
    pub inv: u64,
    pub res: u64,
    pub v: Vec<u64>,
}

static mut EVS: Vec<Ev> = Vec::new();
pub static mut COV: [u64; 32] = [0; 32];
pub static mut PROP: &str = "";

pub fn reset() {
    unsafe {
        EVS = Vec::with_capacity(1024);
        COV = [0; 32];
    }
}
pub fn prop() -> &'static str {
    unsafe { PROP }
}
pub fn evs() -> &'static [Ev] {
    unsafe { &EVS }
}
pub fn cov(i: usize, n: u64) {
    unsafe { COV[i] += n }
}

/// A pending operation; `end` records it.
pub struct Pend {
    pub t: usize,
    pub i: usize,
    pub inv: u64,
}
pub fn begin(t: usize, i: usize) -> Pend {
    detrt::progress();
    Pend { t, i, inv: detrt::seq() }
}
impl Pend {
    pub fn end(self, k: &'static str, o: u64, a: u64, r: u64) {
        self.endv(k, o, a, r, &[])
    }
    pub fn endv(self, k: &'static str, o: u64, a: u64, r: u64, v: &[u64]) {
        let res = detrt::seq();
        detrt::progress();
        host_scope(|| unsafe {
            EVS.push(Ev { t: self.t, i: self.i, k, o, a, r, inv: self.inv, res, v: v.to_vec() });
        })
    }
}
/// A point event.
pub fn note(t: usize, k: &'static str, o: u64, a: u64) {
    let s = detrt::seq();
    host_scope(|| unsafe {
        EVS.push(Ev { t, i: 0, k, o, a, r: 0, inv: s, res: s, v: vec![] });
    })
}

pub fn hist_hash() -> u64 {
    let mut h = 0u64;
    let mut m = |x: u64| h = detrt::mix(h ^ x.wrapping_add(0x9E37));
    for e in evs() {
        m(e.t as u64);
        for b in e.k.bytes() {
            m(b as u64);
        }
        m(e.o);
        m(e.a);
        m(e.r);
        m(e.inv);
        m(e.res);
        for x in &e.v {
            m(*x);
        }
    }
    h
}

/// Two operations of different threads overlap somewhere in the history.
pub fn overlapped() -> bool {
    let e = evs();
    for i in 0..e.len() {
        for j in 0..i {
            if e[i].t != e[j].t && e[i].inv < e[j].res && e[j].inv < e[i].res {
                return true;
            }
        }
    }
    false
}

pub fn dump(max: usize) -> String {
    let mut s = String::new();
    let e = evs();
    let mut v: Vec<&Ev> = e.iter().collect();
    v.sort_by_key(|e| e.inv);
    for e in v.iter().skip(v.len().saturating_sub(max)) {
        s.push_str(&format!("  [{}..{}] thread {} {} obj={} arg={} ret={}", e.inv, e.res, e.t, e.k, e.o, e.a as i64, e.r as i64));
        if !e.v.is_empty() {
            s.push_str(&format!(" list={:?}", &e.v[..e.v.len().min(24)]));
        }
        s.push('\n');
    }
    s
}

pub fn bad(kind: &str, msg: String) -> ! {
    detrt::fail(kind, &msg)
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e))
}

/// Run every thread of the program, one simulated thread each; an operation
/// that panics where none is expected is a violation.
pub fn run_threads(p: &'static Prog, f: fn(usize, usize, &'static Op)) {
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..p.th.len() {
        bodies.push(Box::new(move || {
            for (i, op) in p.th[t].iter().enumerate() {
                if let Err(m) = guarded(|| f(t, i, op)) {
                    bad("panic", format!("thread {t}: `{}` panicked: {m}", op.text()));
                }
            }
        }));
    }
    detrt::run(bodies);
}

// ------------------------------------------------------------ linearizability
#[derive(Clone, Copy, Debug)]
pub enum F {
    Add(u64),
    Set(u64),
    Read,
    /// A write whose call returns nothing.
    Write(u64),
}
#[derive(Clone, Copy, Debug)]
pub struct L {
    pub inv: u64,
    pub res: u64,
    pub f: F,
    pub ret: u64,
}

/// A set of operations of one history.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Set([u64; 8]);
pub const MAXOPS: usize = 512;
impl Set {
    pub const EMPTY: Set = Set([0; 8]);
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn with(mut self, i: usize) -> Set {
        self.0[i / 64] |= 1 << (i % 64);
        self
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|w| w.count_ones() as usize).sum()
    }
    /// The first operation not in it.
    pub fn first_out(&self) -> usize {
        for (k, w) in self.0.iter().enumerate() {
            if *w != u64::MAX {
                return k * 64 + w.trailing_ones() as usize;
            }
        }
        MAXOPS
    }
}
/// How many operations a thread gets: mostly `n`, now and then many more.
pub fn ops(r: &mut detrt::Rng, n: u64, long: bool) -> u64 {
    if long {
        8 + r.below(40)
    } else {
        1 + r.below(n)
    }
}

/// Wing–Gong search: is there a total order of `ops`, consistent with real
/// time, in which each returns the register's previous value?
pub fn linearizable(init: u64, ops: &[L]) -> bool {
    let n = ops.len();
    assert!(n <= MAXOPS);
    let mut o = ops.to_vec();
    o.sort_by_key(|l| l.inv);
    let mut seen = std::collections::HashSet::new();
    let mut stack = vec![(Set::EMPTY, init)];
    while let Some((m, st)) = stack.pop() {
        let lo = m.first_out();
        if lo >= n {
            return true;
        }
        let mut min_res = u64::MAX;
        for (i, l) in o.iter().enumerate().skip(lo) {
            if l.inv > min_res {
                break;
            }
            if !m.has(i) && l.res < min_res {
                min_res = l.res;
            }
        }
        for (i, l) in o.iter().enumerate().skip(lo) {
            if l.inv > min_res {
                break;
            }
            if m.has(i) || l.ret != st && !matches!(l.f, F::Write(_)) {
                continue;
            }
            let ns = match l.f {
                F::Add(d) => st.wrapping_add(d),
                F::Set(v) | F::Write(v) => v,
                F::Read => st,
            };
            let nm = m.with(i);
            if seen.insert((nm, ns)) {
                stack.push((nm, ns));
            }
        }
    }
    false
}

/// Ops whose effect is a function of the set of ops applied (used with sets):
/// `reads[i]` for an op is checked against `state(mask)`.
pub fn linearizable_by<S>(
    iv: &[(u64, u64)],
    state: impl Fn(&Set) -> S,
    ok: impl Fn(usize, &S) -> bool,
) -> bool {
    let n = iv.len();
    assert!(n <= MAXOPS);
    let mut seen = std::collections::HashSet::new();
    let mut stack = vec![Set::EMPTY];
    while let Some(m) = stack.pop() {
        if m.len() == n {
            return true;
        }
        let mut min_res = u64::MAX;
        for (i, l) in iv.iter().enumerate() {
            if !m.has(i) && l.1 < min_res {
                min_res = l.1;
            }
        }
        let st = state(&m);
        for (i, l) in iv.iter().enumerate() {
            if m.has(i) || l.0 > min_res {
                continue;
            }
            if !ok(i, &st) {
                continue;
            }
            let nm = m.with(i);
            if seen.insert(nm) {
                stack.push(nm);
            }
        }
    }
    n == 0
}
