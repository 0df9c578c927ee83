//! What dropped metrics leave behind (C24): a program is run round after round, all its metrics being
//! dropped by the end of each, and what is still allocated then must not depend on the number of rounds.
use crate::h::{self, bad, begin, guarded};
use crate::prog::{Op, Prog};
use detrt::{host_scope, Rng};
use simshim as m;
use std::sync::{Condvar, Mutex};

pub const COV: &[&str] = &[
    "rounds", "metrics_dropped", "views", "snapshots", "entries_formatted", "panics_with_view_or_handle", "handed_over", "re_registrations",
    "never_registered", "destructors_run", "runs_extended_on_suspicion", "rounds_of_extension", "allocations_live_at_the_end", "uses_of_metrics_shared_by_all_threads",
];
pub const RULE: &str = "seeded programs of 1-3 threads x 1-6 operations (build one of 20 kinds of metric under a name never used before, boxed, pinned, never registered, owning another, with data, with data replaced before the build, after a builder that was abandoned; update, re-register, hand to another thread, drop, drop while unwinding; open views and format and inspect their entries; use histograms and lazies that all threads share; take snapshots with own and shared snapshotters), all run again in 9-20 rounds, every metric being dropped and every view closed at the end of a round. The simulated allocator counts what is allocated at that moment: if it grew in the later two thirds of the rounds the run is extended (until thousands of registrations), and continued growth with the number of rounds is a violation, as is a metric that is not destroyed exactly once. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";

const KINDS: u64 = 20;
pub fn gen(r: &mut Rng) -> Prog {
    let nt = 1 + r.below(3);
    let mut th = vec![];
    for t in 0..nt {
        let mut v = vec![];
        for i in 0..1 + r.below(6) {
            let s = r.below(3);
            v.push(if t == 0 && i == 0 {
                Op::new("new", &[s, r.below(KINDS), r.below(4)])
            } else {
                match r.below(17) {
                    0..=3 => Op::new("new", &[s, r.below(KINDS), r.below(4)]),
                    4 => Op::new("drop", &[s]),
                    5 => Op::new("give", &[s, r.below(2)]),
                    6 => Op::new("rereg", &[s]),
                    7 => Op::new("use", &[s, r.below(1000)]),
                    8 => Op::new("panic", &[s, r.below(4)]),
                    9 | 10 => Op::new("view", &[r.below(5)]),
                    11 => Op::new("lazy", &[r.below(5)]),
                    12..=14 => Op::new("both", &[r.below(6), r.below(1000)]),
                    _ => Op::new("snap", &[r.below(4)]),
                }
            });
        }
        th.push(v);
    }
    Prog { fam: "life".into(), p: vec![9 + r.below(12)], th }
}

static mut LOCAL: [[Option<m::Handle>; 3]; 3] = [const { [const { None }; 3] }; 3];
static mut SHARED: [Option<m::Handle>; 2] = [const { None }; 2];
/// Metrics all threads use, made anew for every round.
static mut BOTH: [Option<m::Handle>; 5] = [const { None }; 5];
static mut BOTHL: Option<m::LazyCounter> = None;
static mut SNAP: Vec<m::Snapshotter> = Vec::new();
/// Data with a destructor: built and destroyed.
static mut PARTING: u64 = 0;
static mut PARTED: u64 = 0;
static mut ROUND: u64 = 0;
static mut MADE: u64 = 0;
/// Probes that exist, by id.
static mut ALIVE: Vec<u64> = Vec::new();

fn on_value(_: u64) {}
fn on_drop(id: u64) {
    h::cov(9, 1);
    let known = host_scope(|| unsafe {
        match ALIVE.iter().position(|x| *x == id) {
            Some(i) => {
                ALIVE.swap_remove(i);
                true
            }
            None => false,
        }
    });
    if !known {
        bad("destroyed-twice", format!("the destructor of metric {id} ran although it is destroyed or was never built"));
    }
}
fn no_meta(e: &m::MetricEntry) -> bool {
    m::e_meta_len(e).0 == 0
}
fn fmt(e: &m::MetricEntry, _: m::Format) -> String {
    format!("<{}>", m::e_name(e))
}
fn bye() {
    unsafe { PARTED += 1 };
    let v = m::view();
    look(&v, 0);
    m::view_close(v);
}

fn fresh() -> u64 {
    unsafe {
        MADE += 1;
        MADE
    }
}
fn spec(id: u64, style: u64) -> m::Spec {
    let rich = style & 1 == 1;
    m::Spec {
        name: format!("life/{id}").into(),
        desc: if rich { Some(format!("description of {id}").into()) } else { None },
        meta: if rich { vec![("id".to_string(), format!("{id}")), (format!("key{id}"), "x".to_string())] } else { vec![] },
        fmt: if style & 2 == 2 { Some(fmt) } else { None },
        tag: if rich { Some(id) } else { None },
        note: if style & 2 == 2 { Some(format!("note {id}")) } else { None },
    }
}
fn probe(id: u64) -> m::Probe {
    host_scope(|| unsafe { ALIVE.push(id) });
    m::Probe::make(id)
}
fn nop() {}
fn zero() -> m::Counter {
    m::c_zero()
}
fn make(kind: u64, style: u64) -> m::Handle {
    let id = fresh();
    let s = spec(id, style);
    match kind {
        0 => m::build(s, m::Inner::P(probe(id))),
        1 => m::build_pinned(s, m::Inner::P(probe(id)), nop, true),
        2 => m::build(s, m::Inner::C(m::c_new(id))),
        3 => m::build_pinned(s, m::Inner::C(m::c_new(id)), nop, true),
        4 => m::build(s, m::Inner::G(m::g_new(id as i64))),
        5 => m::build(s, m::Inner::H(m::h_new(2, 10))),
        6 => m::build(s, m::Inner::B(m::b_new(1, 6))),
        7 => m::build_row([s, spec(fresh(), style), spec(fresh(), style)], [id; 3]),
        8 => m::build_old_boxed(s, m::c_new(id)),
        9 => m::build_old_pinned(s, probe(id)),
        10 => m::build(s, m::Inner::Z(m::Zero)),
        11 => m::build(s, m::Inner::A(m::Aligned(m::c_new(id)))),
        12 => m::build(s, m::Inner::LC(m::lcp_new(zero))),
        13 => {
            h::cov(8, 1);
            m::build_pinned(s, m::Inner::P(probe(id)), nop, false)
        }
        14 => {
            let part = fresh();
            m::build_owner([s, spec(part, style)], id, probe(part))
        }
        15 => {
            unsafe { PARTING += 1 };
            m::build_parting(s, id, bye)
        }
        18 => {
            unsafe { PARTING += 2 };
            m::build_parting_twice(s, id, bye)
        }
        19 => {
            unsafe { PARTING += 1 };
            m::abandon(s, bye, style & 1 == 0);
            m::build(spec(id, style), m::Inner::G(m::g_new(id as i64)))
        }
        16 => m::build(s, m::Inner::LH(m::lh_new(Box::new(move || m::h_new(2, 10))))),
        _ => m::build(s, m::Inner::LW(m::lw_new(Box::new(move || m::wide_make(id, nop))))),
    }
}

/// Look at every entry of a view.
fn look(v: &m::Metrics, how: u64) {
    let mut it = m::v_iter(v);
    while let Some(e) = m::i_next(&mut it) {
        match how {
            0 => drop(m::e_name(e).len()),
            1 => {
                h::cov(4, 1);
                drop((m::e_fmt(e, false), m::e_fmt(e, true)))
            }
            2 => drop((m::e_meta_get(e, "id").map(|x| x.len()), m::e_tag(e), m::e_note(e).map(|x| x.len()), m::e_desc(e).map(|x| x.len()))),
            3 => drop(m::e_value(e)),
            _ => drop((m::e_default_fmt(e, true), m::e_meta_len(e))),
        }
        detrt::progress();
    }
}

fn update(x: &'static m::Handle, v: u64) {
    let a = m::m_any(m::h_dyn(x, 0));
    if let Some(c) = a.and_then(|a| a.downcast_ref::<m::Counter>()) {
        m::c_add(c, 3);
    } else if let Some(c) = a.and_then(|a| a.downcast_ref::<m::AtomicHistogram>()) {
        let _ = m::h_inc(c, v);
    } else if let Some(c) = a.and_then(|a| a.downcast_ref::<m::RwLockHistogram>()) {
        let _ = m::b_upd(c, &[1; 12]);
        let _ = m::b_load(c);
    } else if let Some(l) = m::h_lazy_counter(x) {
        m::c_inc(m::lcp_deref(l));
    } else if let Some(l) = m::h_lazy_hist(x) {
        let _ = m::h_inc(m::lh_deref(l), v);
    } else if let Some(l) = m::h_lazy_wide(x) {
        drop(m::lw_deref(l).w[0]);
    }
}
/// What all threads use in the next round.
fn open_round() {
    unsafe {
        for (x, k) in BOTH.iter_mut().zip([5, 6, 16, 17, 12]) {
            *x = Some(make(k, ROUND % 4));
        }
        BOTHL = Some(m::lcp_new(zero));
    }
}

fn step(t: usize, i: usize, op: &'static Op) {
    let q = begin(t, i);
    let s = op.arg(0) as usize % 3;
    let mine = unsafe { &mut LOCAL[t][s] };
    let k: &'static str = match op.n.as_str() {
        "new" => {
            let old = mine.take();
            drop_it(old);
            let x = make(op.arg(1), op.arg(2));
            *mine = Some(x);
            "new"
        }
        "drop" => {
            drop_it(mine.take());
            "drop"
        }
        "give" => {
            h::cov(6, 1);
            let x = mine.take();
            let y = unsafe { std::mem::replace(&mut SHARED[op.arg(1) as usize % 2], x) };
            detrt::yield_point();
            *mine = y;
            "give"
        }
        "rereg" => {
            if let Some(x) = mine {
                if m::reregister(x, format!("again/{}", fresh())) {
                    h::cov(7, 1);
                }
            }
            "rereg"
        }
        "use" => {
            if let Some(x) = mine {
                update(x, op.arg(1));
            }
            "use"
        }
        "panic" => {
            h::cov(5, 1);
            let x = mine.take();
            let how = op.arg(1);
            let r = guarded(move || {
                if how < 2 {
                    let _x = x;
                    panic!("injected");
                }
                let v = m::view();
                let _c = Closing(Some(v));
                if how == 3 {
                    look(_c.0.as_ref().unwrap(), 1);
                }
                // a handle must not be dropped under the thread's own view
                host_keep(x, t, s);
                panic!("injected");
            });
            if r.is_ok() {
                bad("harness", "no panic".into());
            }
            "panic"
        }
        "view" => {
            h::cov(2, 1);
            let v = m::view();
            look(&v, op.arg(0));
            detrt::yield_point();
            m::view_close(v);
            "view"
        }
        "both" => {
            h::cov(13, 1);
            match unsafe { &BOTH }.get(op.arg(0) as usize) {
                Some(x) => update(x.as_ref().unwrap(), op.arg(1)),
                None => drop(m::c_inc(m::lcp_deref(unsafe { BOTHL.as_ref().unwrap() }))),
            }
            "both"
        }
        "lazy" => {
            match op.arg(0) {
                0 | 1 => {
                    let l = m::lcp_new(zero);
                    if op.arg(0) == 1 {
                        m::c_inc(m::lcp_deref(&l));
                    }
                    drop(l);
                }
                2 => {
                    // the initialiser owns something and is never run
                    let x = Box::new(op.arg(0));
                    drop(m::lw_new(Box::new(move || m::wide_make(*x, nop))));
                }
                3 => {
                    let x = Box::new(op.arg(0));
                    let l = m::lw_new(Box::new(move || m::wide_make(*x, nop)));
                    drop(m::lw_deref(&l).w[1]);
                    drop(l);
                }
                _ => {
                    let x = Box::new(op.arg(0));
                    let l = m::lw_new(Box::new(move || if *x == 4 { panic!("injected") } else { m::wide_make(0, nop) }));
                    if guarded(|| drop(m::lw_deref(&l).w[1])).is_ok() {
                        bad("no-panic", "a lazy whose initialiser panics gave a value".into());
                    }
                    drop(l);
                }
            }
            "lazy"
        }
        _ => {
            h::cov(3, 1);
            match op.arg(0) {
                0 => drop(m::snap(unsafe { &SNAP[0] })),
                1 => drop(m::snap(unsafe { &SNAP[1] })),
                k => {
                    let sn = m::snapshotter(if k == 2 { None } else { Some(no_meta) }, &[("a".to_string(), "b".to_string())]);
                    drop(m::snap(&sn));
                }
            }
            "snap"
        }
    };
    if unsafe { ROUND } < 2 {
        q.end(k, s as u64, 0, 0);
    }
}
struct Closing(Option<m::Metrics>);
impl Drop for Closing {
    fn drop(&mut self) {
        if let Some(v) = self.0.take() {
            m::view_close(v);
        }
    }
}
fn host_keep(x: Option<m::Handle>, t: usize, s: usize) {
    unsafe { LOCAL[t][s] = x }
}
fn drop_it(x: Option<m::Handle>) {
    if let Some(x) = x {
        h::cov(1, 1);
        m::drop_handle(x);
    }
}

// ------------------------------------------------------------ rounds
static GATE: (Mutex<(u64, u64)>, Condvar) = (Mutex::new((0, 0)), Condvar::new());
static mut STOP: bool = false;
static mut LIVE: Vec<(u64, u64, u64)> = Vec::new();
static mut SUSPECT: Option<usize> = None;

/// The last thread to finish a round closes it; the others wait for that.
fn barrier(nt: u64, f: impl FnOnce()) {
    let mut g = GATE.0.lock().unwrap();
    g.0 += 1;
    if g.0 == nt {
        g.0 = 0;
        f();
        g.1 += 1;
        detrt::progress();
        GATE.1.notify_all();
    } else {
        let at = g.1;
        while g.1 == at {
            g = GATE.1.wait(g).unwrap();
        }
    }
}

fn close_round(n: usize) {
    h::cov(0, 1);
    unsafe {
        let r = guarded(|| {
            // whatever is left goes
            for x in LOCAL.iter_mut().flatten().chain(SHARED.iter_mut()).chain(BOTH.iter_mut()) {
                drop_it(x.take());
            }
            drop(BOTHL.take());
            // a registry that puts off work has had its chance
            drop_it(Some(make(2, 0)));
            let v = m::view();
            let n = m::d_len(&m::v_dyn(&v));
            m::view_close(v);
            if PARTED != PARTING {
                bad("data-not-destroyed-once", format!("{PARTING} metrics with data were dropped, the destructor of their data ran {PARTED} times"));
            }
            if n != 0 {
                bad("left-registered", format!("{n} dynamic metrics are listed after the last one was dropped"));
            }
        });
        if let Err(e) = r {
            bad("panic", format!("dropping the last metrics panicked: {e}"));
        }
        ROUND += 1;
        let l = detrt::alloc::live();
        LIVE.push((l.0, l.1, MADE));
        if let Err(e) = guarded(open_round) {
            bad("panic", format!("building metrics panicked: {e}"));
        }
        let k = LIVE.len();
        if k == n {
            let a = LIVE[n / 3];
            if l.0 > a.0 || l.1 > a.1 {
                h::cov(10, 1);
                SUSPECT = Some(n);
            } else {
                STOP = true;
            }
        } else if k > n {
            h::cov(11, 1);
            // nothing grew any more while three times as much again was done
            if k == 4 * n && l.0 <= LIVE[n - 1].0 && l.1 <= LIVE[n - 1].1 {
                SUSPECT = None;
                STOP = true;
            }
            if MADE - LIVE[n - 1].2 >= 4000 || k >= 40_000 || detrt::steps() > MAX_STEPS / 4 * 3 {
                STOP = true;
            }
        }
    }
}

/// Did what is allocated keep growing after round `n`? Quarters of the extension are compared by their
/// least and most, so that something that fills and empties again is no growth.
fn verdict(n: usize) {
    unsafe {
        let len = LIVE.len() - n;
        let regs = LIVE[LIVE.len() - 1].2 - LIVE[n - 1].2;
        let q = |i: usize| &LIVE[n + len * i / 4..n + len * (i + 1) / 4];
        let least = |v: &[(u64, u64, u64)]| (v.iter().map(|x| x.0).min().unwrap_or(0), v.iter().map(|x| x.1).min().unwrap_or(0));
        let most = |v: &[(u64, u64, u64)]| (v.iter().map(|x| x.0).max().unwrap_or(0), v.iter().map(|x| x.1).max().unwrap_or(0));
        let blocks = len >= 32 && least(q(2)).0 >= most(q(0)).0 + 4 && least(q(3)).0 >= most(q(1)).0 + 4;
        let before = most(&LIVE[..n]);
        let bytes = len >= 32 && least(q(3)).1.saturating_sub(before.1) >= (2 * regs).max(2048) && least(q(3)).1 >= most(q(0)).1 + (regs / 2).max(512);
        if blocks || bytes {
            let s: Vec<String> = (0..4).map(|i| format!("{} ({})", least(q(i)).0, least(q(i)).1)).collect();
            bad("left-behind", format!("with no metric left and no view open, at most {} blocks ({} bytes) were allocated after each of the first {n} rounds, but at least {} in the four quarters of the {len} rounds ({regs} registrations) that followed", before.0, before.1, s.join(", ")));
        }
    }
}

const MAX_STEPS: u64 = 2_000_000;
pub fn exec(p: &'static Prog) {
    unsafe {
        m::HOOKS = m::Hooks { value: on_value, dropped: on_drop };
        host_scope(|| {
            LIVE = Vec::with_capacity(50_000);
            ALIVE = Vec::with_capacity(4096);
        });
        SNAP = vec![m::snapshotter(None, &[]), m::snapshotter(Some(no_meta), &[("k".to_string(), "v".to_string())])];
        open_round();
        let n = p.param(0).clamp(3, 100) as usize;
        let nt = p.th.len() as u64;
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..p.th.len() {
            bodies.push(Box::new(move || {
                while !STOP {
                    for (i, op) in p.th[t].iter().enumerate() {
                        if let Err(e) = guarded(|| step(t, i, op)) {
                            bad("panic", format!("thread {t}: `{}` panicked: {e}", op.text()));
                        }
                    }
                    barrier(nt, || close_round(n));
                }
            }));
        }
        detrt::run(bodies);
        h::cov(12, LIVE[LIVE.len() - 1].0);
        if let Some(n) = SUSPECT {
            verdict(n);
        }
        if let Some(id) = ALIVE.first() {
            bad("not-destroyed", format!("metric {id} was dropped but never destroyed"));
        }
    }
}
