//! C05, C06: lazily initialised metrics.
use crate::h::{self, bad, begin, F, L};
use crate::prog::{Op, Prog};
use detrt::Rng;
use simshim as m;

pub const RULE5: &str = "seeded programs of 2-4 threads racing to force, dereference, update and observe one or two lazies (bare or registered; single- or multi-word value; initialiser with 0-6 scheduling points); initialiser runs, instance identity, full construction and linearizability of the updates from the initialised value are checked. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";
pub const RULE6: &str = "as C05 with observers (get, Metric methods, registry, snapshot) in the majority and an initialiser that panics in half of the runs; observers must never start the initialiser, see nothing before it has completed, and always see the value afterwards. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";
pub const COV: &[&str] = &["initialisations", "initialiser_panics", "uses_after_failed_init", "observations_before_init", "observations_after_init", "waiters_during_init"];

const PANIC: &str = "injected initialiser panic";

/// params: objects, then (type, placement, panics?, pauses, key) per object
/// type: 0 Wide, 1 Counter, 2 Gauge, 3 Counter via fn pointer
pub fn gen(r: &mut Rng, observe: bool) -> Prog {
    let n = 1 + r.below(6) / 5;
    let mut p = vec![n];
    for _ in 0..n {
        let ty = r.below(4);
        let pl = r.below(2);
        let pan = if observe { r.below(2) } else { 0 };
        p.extend([ty, pl, pan, r.below(7), r.next() >> r.below(40)]);
    }
    let nt = if r.chance(1, 30) { 5 + r.below(2) } else { 2 + r.below(3) };
    let long = r.chance(1, 60);
    let mut th = vec![];
    for t in 0..nt {
        let mut v = vec![];
        let forcer = !observe || t == 0 || r.chance(1, 3);
        for _ in 0..h::ops(r, 6, long) {
            let o = r.below(n);
            let x = if forcer { r.below(10) } else { 4 + r.below(6) };
            v.push(match x {
                0 => Op::new("force", &[o]),
                1 => Op::new("deref", &[o]),
                2 | 3 => Op::new("add", &[o, 1 + r.below(1000)]),
                4 | 5 => Op::new("get", &[o]),
                6 | 7 => Op::new("mobs", &[o]),
                8 => Op::new("view", &[o]),
                _ => Op::new(if r.chance(1, 2) { "snap" } else { "get" }, &[o]),
            });
        }
        th.push(v);
    }
    Prog { fam: "lazy".into(), p, th }
}

enum Z {
    W(&'static m::LazyF<m::Wide>),
    C(&'static m::LazyF<m::Counter>),
    G(&'static m::LazyF<m::Gauge>),
    P(&'static m::LazyCounter),
}
struct Slot {
    z: Z,
    name: Option<String>,
    panics: bool,
    pauses: u64,
    key: u64,
    inits: u64,
    running: bool,
    init_end: u64, // 0 = not finished
    addr: usize,
}
static mut OBJ: Vec<Slot> = Vec::new();

fn enter(o: usize) {
    let s = unsafe { &mut OBJ[o] };
    s.inits += 1;
    s.running = true;
    h::note(detrt::cur(), "init-start", o as u64, s.inits);
    if s.inits > 1 {
        bad("initialised-twice", format!("object {o}: the initialiser ran {} times", s.inits));
    }
    for _ in 0..s.pauses {
        detrt::yield_point();
    }
    if s.panics {
        s.running = false;
        h::note(detrt::cur(), "init-panic", o as u64, 0);
        h::cov(1, 1);
        panic!("{}", PANIC);
    }
}
fn leave(o: usize) {
    let s = unsafe { &mut OBJ[o] };
    s.running = false;
    h::note(detrt::cur(), "init-end", o as u64, 0);
    s.init_end = detrt::seq();
    h::cov(0, 1);
}

fn init_fnptr() -> m::Counter {
    // the (only) function-pointer lazy of the run
    let o = unsafe { OBJ.iter().position(|s| matches!(s.z, Z::P(_))).unwrap() };
    enter(o);
    let c = m::c_new(unsafe { OBJ[o].key });
    leave(o);
    c
}

fn pause() {
    detrt::yield_point();
}
fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn spec(name: &str) -> m::Spec {
    m::Spec { name: name.to_string().into(), desc: None, meta: vec![], fmt: None, tag: None, note: None }
}

pub fn exec(p: &'static Prog) {
    unsafe {
        let n = p.param(0) as usize;
        let mut fnptr = false;
        for k in 0..n {
            let b = 1 + 5 * k;
            let (mut ty, pl, pan, pauses, key) = (p.param(b), p.param(b + 1), p.param(b + 2), p.param(b + 3), p.param(b + 4));
            if ty == 3 && fnptr {
                ty = 1;
            }
            let name = format!("lazy/{k}");
            let mut nm = None;
            let z = match ty {
                0 => {
                    let l = m::lw_new(Box::new(move || {
                        enter(k);
                        let w = m::wide_make(key, pause);
                        leave(k);
                        w
                    }));
                    if pl == 1 {
                        nm = Some(name.clone());
                        Z::W(m::h_lazy_wide(leak(m::build(spec(&name), m::Inner::LW(l)))).unwrap())
                    } else {
                        Z::W(leak(l))
                    }
                }
                2 => Z::G(leak(m::lg_new(Box::new(move || {
                    enter(k);
                    let g = m::g_new(key as i64);
                    leave(k);
                    g
                })))),
                3 => {
                    fnptr = true;
                    let l = m::lcp_new(init_fnptr);
                    if pl == 1 {
                        nm = Some(name.clone());
                        Z::P(m::h_lazy_counter(leak(m::build(spec(&name), m::Inner::LC(l)))).unwrap())
                    } else {
                        Z::P(leak(l))
                    }
                }
                _ => Z::C(leak(m::lc_new(Box::new(move || {
                    enter(k);
                    let c = m::c_new(key);
                    leave(k);
                    c
                })))),
            };
            OBJ.push(Slot { z, name: nm, panics: pan == 1, pauses, key, inits: 0, running: false, init_end: 0, addr: 0 });
        }
        detrt::run(vec![Box::new(move || {
            if let Err(e) = h::guarded(|| exclusive(p.param(5))) {
                bad("panic", format!("exclusive use of a lazy panicked: {e}"));
            }
        })]);
        h::run_threads(p, step);
        for k in 0..n {
            check(k);
        }
    }
}

/// One owner with exclusive access: `get_mut` observes, `deref_mut` uses.
fn exclusive(seed: u64) {
    static mut RUNS: u64 = 0;
    let runs = || unsafe { RUNS };
    unsafe { RUNS = 0 };
    let key = 3 + seed % 1000;
    let mut l = m::lw_new(Box::new(move || {
        unsafe { RUNS += 1 };
        m::wide_make(key, pause)
    }));
    let mut up = false;
    let mut now = key;
    for k in 0..4 {
        match (seed >> (8 + 3 * k)) % 6 {
            0 | 1 => {
                let r = m::lw_get_mut(&mut l);
                if r.is_some() != up {
                    bad("observer-initialised", format!("get_mut gives {} on a lazy that was{} used", if r.is_some() { "an instance" } else { "nothing" }, if up { "" } else { " never" }));
                }
            }
            2 | 3 => {
                up = true;
                let w = m::lw_deref_mut(&mut l);
                if !m::wide_ok(w, key) {
                    bad("half-built", "exclusive access got an instance that is not fully built".into());
                }
                w.n = m::c_new(now + 1);
                now += 1;
            }
            4 => {
                up = true;
                if m::c_add(&m::lw_deref(&l).n, 1) != now {
                    bad("update-lost", "an update made through exclusive access is lost".into());
                }
                now += 1;
            }
            _ => {
                if m::lw_get(&l).map(|w| m::c_val(&w.n)) != if up { Some(now) } else { None } {
                    bad("update-lost", "an update made through exclusive access is lost".into());
                }
            }
        }
        if runs() != up as u64 {
            bad(if up { "not-initialised" } else { "observer-initialised" }, format!("the initialiser ran {} times", runs()));
        }
    }
    let d = m::lcp_default();
    if m::lcp_get(&d).is_some() || m::c_val(m::lcp_deref(&d)) != 0 {
        bad("visible-before-init", "a default lazy does not start out uninitialised".into());
    }
}

/// Force; returns the address of the instance.
fn force(o: usize, how: &str) -> Result<(usize, Option<u64>), String> {
    let s = unsafe { &OBJ[o] };
    h::guarded(|| match s.z {
        Z::W(l) => {
            let w = if how == "deref" { m::lw_deref(l) } else { m::lw_force(l) };
            if !m::wide_ok(w, s.key) {
                bad("half-built", format!("object {o}: a caller got an instance that is not fully built"));
            }
            (w as *const _ as usize, None)
        }
        Z::C(l) => (if how == "deref" { m::lc_deref(l) } else { m::lc_force(l) } as *const _ as usize, None),
        Z::G(l) => (if how == "deref" { m::lg_deref(l) } else { m::lg_force(l) } as *const _ as usize, None),
        Z::P(l) => (m::lcp_deref(l) as *const _ as usize, None),
    })
}

fn instance(o: usize, addr: usize, what: &str) {
    let s = unsafe { &mut OBJ[o] };
    if s.init_end == 0 {
        bad("visible-before-init", format!("object {o}: {what} got an instance although the initialiser has not finished"));
    }
    if s.addr == 0 {
        s.addr = addr;
    } else if s.addr != addr {
        bad("two-instances", format!("object {o}: {what} got a different instance from an earlier caller"));
    }
}

fn step(t: usize, i: usize, op: &'static Op) {
    let o = op.arg(0) as usize;
    let s = unsafe { &OBJ[o] };
    match op.n.as_str() {
        k @ ("force" | "deref" | "add") => {
            if s.running {
                h::cov(5, 1);
            }
            let failed_before = s.panics && s.inits > 0 && !s.running;
            let ran = s.inits;
            let q = begin(t, i);
            match force(o, k) {
                Ok((addr, _)) => {
                    q.end("force", o as u64, 0, addr as u64);
                    instance(o, addr, "a user");
                    if s.panics {
                        bad("poison-ignored", format!("object {o}: a use succeeded although the initialiser panicked"));
                    }
                }
                Err(msg) => {
                    q.end("force-panic", o as u64, 0, 0);
                    if !s.panics {
                        bad("panic", format!("thread {t}: using object {o} panicked: {msg}"));
                    }
                    if failed_before {
                        h::cov(2, 1);
                    }
                    // the thread that ran the initialiser must get its panic
                    let mine = h::evs().iter().any(|e| e.k == "init-start" && e.o == o as u64 && e.t == t && e.a == ran + 1);
                    if mine && !failed_before && ran == 0 && msg != PANIC {
                        bad("panic-swallowed", format!("object {o}: the initialiser's panic did not reach its caller (got {msg:?})"));
                    }
                    return;
                }
            }
            if k == "add" {
                let d = op.arg(1);
                let q = begin(t, i);
                let r = match s.z {
                    Z::W(l) => m::c_add(&m::lw_deref(l).n, d),
                    Z::C(l) => m::c_add(m::lc_deref(l), d),
                    Z::G(l) => m::g_add(m::lg_deref(l), d as i64) as u64,
                    Z::P(l) => m::c_add(m::lcp_deref(l), d),
                };
                q.end("add", o as u64, d, r);
            }
        }
        "get" => {
            let q = begin(t, i);
            let r = match s.z {
                Z::W(l) => m::lw_get(l).map(|w| {
                    if !m::wide_ok(w, s.key) {
                        bad("half-built", format!("object {o}: an observer got an instance that is not fully built"));
                    }
                    w as *const _ as usize
                }),
                Z::C(l) => m::lc_get(l).map(|w| w as *const _ as usize),
                Z::G(l) => m::lg_get(l).map(|w| w as *const _ as usize),
                Z::P(l) => m::lcp_get(l).map(|w| w as *const _ as usize),
            };
            q.end("obs", o as u64, 0, r.is_some() as u64);
            if let Some(a) = r {
                instance(o, a, "an observer");
            }
        }
        "mobs" => {
            let mt: &dyn m::Metric = match s.z {
                Z::W(l) => m::dyn_lw(l),
                Z::C(l) => m::dyn_lc(l),
                Z::G(l) => m::dyn_lg(l),
                Z::P(l) => m::dyn_lcp(l),
            };
            let q = begin(t, i);
            let en = m::m_enabled(mt);
            q.end("obs", o as u64, 1, en as u64);
            let q = begin(t, i);
            let any = m::m_any(mt).is_some();
            q.end("obs", o as u64, 2, any as u64);
            let q = begin(t, i);
            value(q, o, m::m_value(mt));
        }
        "view" | "snap" => {
            let Some(name) = &s.name else { return };
            let q = begin(t, i);
            if op.n == "view" {
                let v = m::view();
                let mut it = m::v_iter(&v);
                let mut found = None;
                while let Some(e) = m::i_next(&mut it) {
                    if m::e_name(e) == name {
                        found = Some(m::e_value(e));
                    }
                }
                m::view_close(v);
                match found {
                    Some(x) => value(q, o, x),
                    None => bad("value-missing", format!("{name} is not in the registry")),
                }
            } else {
                let sn = m::snapshotter(None, &[]);
                let mut sh = m::snap(&sn);
                let x = match sh.counters().iter().find(|c| c.name == *name) {
                    Some(c) => m::Val::C(c.value),
                    None => m::Val::None,
                };
                value(q, o, x);
            }
        }
        _ => {}
    }
}

fn value(q: h::Pend, o: usize, v: m::Val) {
    let r = match v {
        m::Val::None => None,
        m::Val::C(v) => Some(v),
        m::Val::G(v) => Some(v as u64),
        _ => bad("value-kind", format!("object {o}: wrong kind of value")),
    };
    if let Some(x) = r {
        q.endv("obs", o as u64, 3, 1, &[x]);
    } else {
        q.end("obs", o as u64, 3, 0);
    }
}

fn check(o: usize) {
    let s = unsafe { &OBJ[o] };
    let evs: Vec<&h::Ev> = h::evs().iter().filter(|e| e.o == o as u64).collect();
    let forced = |e: &&&h::Ev| e.k == "force" || e.k == "force-panic";
    let uses = evs.iter().filter(forced).count();
    if s.inits > 0 && uses == 0 {
        bad("observer-initialised", format!("object {o}: the initialiser ran although the metric was only observed"));
    }
    if let Some(is) = evs.iter().find(|e| e.k == "init-start") {
        let by_use = evs.iter().any(|e| (e.k == "force" || e.k == "force-panic") && e.t == is.t && e.inv < is.inv && is.inv < e.res);
        if !by_use {
            bad("observer-initialised", format!("object {o}: the initialiser was started by an observation"));
        }
    }
    if s.inits == 0 && uses > 0 {
        bad("not-initialised", format!("object {o}: used without running its initialiser"));
    }
    let first_done = evs.iter().filter(|e| e.k == "force").map(|e| e.res).min().unwrap_or(u64::MAX);
    let mut ops: Vec<L> = vec![];
    let mut first_seen = u64::MAX;
    for e in &evs {
        match e.k {
            "obs" => {
                if e.r == 1 {
                    h::cov(4, 1);
                    if s.init_end == 0 || e.res < s.init_end {
                        bad("visible-before-init", format!("object {o}: an observation at [{}..{}] saw a value before the initialiser finished", e.inv, e.res));
                    }
                    first_seen = first_seen.min(e.res);
                    if !e.v.is_empty() {
                        ops.push(L { inv: e.inv, res: e.res, f: F::Read, ret: e.v[0] });
                    }
                } else {
                    h::cov(3, 1);
                    if e.inv > first_done {
                        bad("value-missing", format!("object {o}: an observation at [{}..{}] saw a disabled metric after it had been initialised", e.inv, e.res));
                    }
                }
            }
            "add" => ops.push(L { inv: e.inv, res: e.res, f: F::Add(e.a), ret: e.r }),
            _ => {}
        }
    }
    for e in &evs {
        if e.k == "obs" && e.r == 0 && e.inv > first_seen {
            bad("value-missing", format!("object {o}: an observation at [{}..{}] saw a disabled metric after an earlier one saw it enabled", e.inv, e.res));
        }
    }
    if !ops.is_empty() && !h::linearizable(s.key, &ops) {
        bad("update-lost", format!("object {o} (initialised to {}): no single order explains the updates and observations", s.key));
    }
}
