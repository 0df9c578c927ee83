//! C01, C02: counters and gauges against a sequential 64-bit register.
use crate::h::{self, bad, begin, F, L};
use crate::prog::{Op, Prog};
use detrt::Rng;
use simshim as m;

pub const RULE: &str = "seeded programs of 1-4 threads x 1-9 operations on one or two objects (bare, static, boxed, pinned or lazy; read directly, through the registry and through snapshots), operands biased to 32/63/64-bit boundaries; each run checked for linearizability against a sequential register. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";
pub const COV: &[&str] = &["modifying_operations", "direct_reads", "registry_reads", "snapshot_reads", "wraparounds", "single_steps_in_long_series"];

pub fn value(r: &mut Rng) -> u64 {
    let b = match r.below(9) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << 63,
        4 => 1 << 32,
        5 => 1 << 31,
        6 => 1 << r.below(64),
        7 => return r.next(),
        _ => return r.below(100),
    };
    (b as u64).wrapping_add(r.below(3)).wrapping_sub(1)
}

/// params: gauge?, objects, then (placement, initial) per object
pub fn gen(r: &mut Rng, gauge: bool) -> Prog {
    if r.chance(1, 150) {
        // many single steps in a row: one or more threads count up (or down)
        let down = gauge && r.chance(1, 2);
        let n = match r.below(20) {
            0 => 66_000,
            1..=4 => 4_200,
            5..=9 => 1_100,
            _ => 60 + r.below(300),
        };
        let nt = if n > 10_000 { 1 } else { 1 + r.below(3) };
        let th = (0..nt).map(|_| vec![Op::new("mill", &[0, n, down as u64])]).collect();
        return Prog { fam: "num".into(), p: vec![gauge as u64, 1, r.below(6), value(r)], th };
    }
    let n = 1 + r.below(2);
    let mut p = vec![gauge as u64, n];
    for _ in 0..n {
        p.push(r.below(6));
        p.push(value(r));
    }
    let nt = 1 + r.below(4) as usize;
    let nt = if nt == 1 && r.chance(3, 4) { 2 } else { nt };
    let nt = if r.chance(1, 40) { 5 + r.below(2) as usize } else { nt };
    let long = r.chance(1, 40);
    let reads = r.below(3);
    let mut th = vec![];
    for _ in 0..nt {
        let k = h::ops(r, 8, long);
        let mut v = vec![];
        for _ in 0..k {
            let o = r.below(n);
            let x = r.below(if reads == 0 { 9 } else { 14 });
            v.push(match x {
                0 | 1 => Op::new("inc", &[o]),
                2 if gauge => Op::new("dec", &[o]),
                2..=4 => Op::new("add", &[o, value(r)]),
                5 if gauge => Op::new("sub", &[o, value(r)]),
                5 | 6 => Op::new("set", &[o, value(r)]),
                7 => Op::new("reset", &[o]),
                8..=10 => Op::new("val", &[o]),
                11 => Op::new("mval", &[o]),
                12 => Op::new("view", &[o]),
                _ => Op::new(if r.chance(1, 3) { "snap" } else { "val" }, &[o]),
            });
        }
        th.push(v);
    }
    Prog { fam: "num".into(), p, th }
}

enum Obj {
    C(&'static m::Counter),
    G(&'static m::Gauge),
}
struct Slot {
    obj: Obj,
    dynm: Option<&'static dyn m::Metric>,
    name: Option<String>,
    init: u64,
}
static mut OBJ: Vec<Slot> = Vec::new();
static mut GAUGE: bool = false;

fn spec(name: &str) -> m::Spec {
    m::Spec { name: name.to_string().into(), desc: None, meta: vec![], fmt: None, tag: None, note: None }
}
fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn nop() {}
fn fresh(got: u64, want: u64) {
    if got != want {
        bad("value-invented", format!("a new metric starts at {} instead of {}", got as i64, want as i64));
    }
}

pub fn exec(p: &'static Prog) {
    unsafe {
        GAUGE = p.param(0) == 1;
        let n = p.param(1) as usize;
        let mut used_static = false;
        for k in 0..n {
            let mut pl = p.param(2 + 2 * k);
            let init = p.param(3 + 2 * k);
            let name = format!("num/{k}");
            if (pl == 1 || pl == 5) && used_static {
                pl = 2;
            }
            let s = if GAUGE {
                let i = init as i64;
                match pl {
                    1 => {
                        used_static = true;
                        fresh(m::g_set(&m::S_GAUGE, i) as u64, 0);
                        Slot { obj: Obj::G(&m::S_GAUGE), dynm: Some(m::dyn_g(&m::S_GAUGE)), name: Some("static/gauge".into()), init }
                    }
                    2 | 3 => {
                        let inner = m::Inner::G(m::g_new(i));
                        let h = leak(if pl == 2 { m::build(spec(&name), inner) } else { m::build_pinned(spec(&name), inner, nop, true) });
                        Slot { obj: Obj::G(m::h_gauge(h).unwrap()), dynm: None, name: Some(name), init }
                    }
                    4 => {
                        let h = leak(m::build(spec(&name), m::Inner::LG(m::lgp_new(m::Gauge::default))));
                        let g = m::lgp_deref(m::h_lazy_gauge(h).unwrap());
                        fresh(m::g_set(g, i) as u64, 0);
                        Slot { obj: Obj::G(g), dynm: Some(m::dyn_lgp(m::h_lazy_gauge(h).unwrap())), name: Some(name), init }
                    }
                    5 => {
                        used_static = true;
                        let g = m::lgp_deref(&m::S_LGAUGE);
                        fresh(m::g_set(g, i) as u64, 0);
                        Slot { obj: Obj::G(g), dynm: Some(m::dyn_lgp(&m::S_LGAUGE)), name: Some("static/lazy_gauge".into()), init }
                    }
                    _ => {
                        let g = leak(if init == 0 { if k == 0 { m::g_zero() } else { m::g_dflt() } } else { m::g_new(i) });
                        fresh(m::g_val(g) as u64, init);
                        Slot { obj: Obj::G(g), dynm: Some(m::dyn_g(g)), name: None, init }
                    }
                }
            } else {
                match pl {
                    1 => {
                        used_static = true;
                        fresh(m::c_set(&m::S_CTR, init), 0);
                        Slot { obj: Obj::C(&m::S_CTR), dynm: Some(m::dyn_c(&m::S_CTR)), name: Some("static/counter".into()), init }
                    }
                    2 | 3 => {
                        let inner = m::Inner::C(m::c_new(init));
                        let h = leak(if pl == 2 { m::build(spec(&name), inner) } else { m::build_pinned(spec(&name), inner, nop, true) });
                        Slot { obj: Obj::C(m::h_counter(h).unwrap()), dynm: None, name: Some(name), init }
                    }
                    4 => {
                        let h = leak(m::build(spec(&name), m::Inner::LC(m::lcp_new(m::Counter::default))));
                        let c = m::lcp_deref(m::h_lazy_counter(h).unwrap());
                        fresh(m::c_set(c, init), 0);
                        Slot { obj: Obj::C(c), dynm: Some(m::dyn_lcp(m::h_lazy_counter(h).unwrap())), name: Some(name), init }
                    }
                    5 => {
                        used_static = true;
                        let c = m::lcp_deref(&m::S_LCTR);
                        fresh(m::c_set(c, init), 0);
                        Slot { obj: Obj::C(c), dynm: Some(m::dyn_lcp(&m::S_LCTR)), name: Some("static/lazy_counter".into()), init }
                    }
                    _ => {
                        let c = leak(if init == 0 { if k == 0 { m::c_zero() } else { m::c_dflt() } } else { m::c_new(init) });
                        fresh(m::c_val(c), init);
                        Slot { obj: Obj::C(c), dynm: Some(m::dyn_c(c)), name: None, init }
                    }
                }
            };
            OBJ.push(s);
        }
        h::run_threads(p, step);
        for k in 0..n as u64 {
            check(k);
        }
    }
}

fn num(v: m::Val, what: &str) -> u64 {
    match v {
        m::Val::C(v) if unsafe { !GAUGE } => v,
        m::Val::G(v) if unsafe { GAUGE } => v as u64,
        m::Val::None => bad("value-missing", format!("{what} reports no value for a live metric")),
        _ => bad("value-kind", format!("{what} reports a value of the wrong kind")),
    }
}

fn step(t: usize, i: usize, op: &'static Op) {
    let o = op.arg(0);
    let s = unsafe { &OBJ[o as usize] };
    let a = op.arg(1);
    let name = op.n.as_str();
    if name == "mill" {
        mill(t, i, s, a, op.arg(2) == 1);
        return;
    }
    let q = begin(t, i);
    let k: &'static str;
    let r = match name {
        "val" => {
            k = "read";
            match s.obj {
                Obj::C(c) => m::c_val(c),
                Obj::G(g) => m::g_val(g) as u64,
            }
        }
        "mval" => {
            k = "read";
            match (s.dynm, &s.obj) {
                (Some(d), _) => num(m::m_value(d), "Metric::value"),
                (None, Obj::C(c)) => num(m::m_value(m::dyn_c(c)), "Metric::value"),
                (None, Obj::G(g)) => num(m::m_value(m::dyn_g(g)), "Metric::value"),
            }
        }
        "view" => {
            k = "vread";
            match &s.name {
                None => match s.obj {
                    Obj::C(c) => m::c_val(c),
                    Obj::G(g) => m::g_val(g) as u64,
                },
                Some(n) => {
                    let v = m::view();
                    let mut r = None;
                    let mut it = m::v_iter(&v);
                    while let Some(e) = m::i_next(&mut it) {
                        if m::e_name(e) == n {
                            r = Some(num(m::e_value(e), "the registry"));
                            break;
                        }
                    }
                    m::view_close(v);
                    match r {
                        Some(r) => r,
                        None => bad("value-missing", format!("{n} is not in the registry")),
                    }
                }
            }
        }
        "snap" => {
            k = "sread";
            match &s.name {
                None => match s.obj {
                    Obj::C(c) => m::c_val(c),
                    Obj::G(g) => m::g_val(g) as u64,
                },
                Some(n) => {
                    let sn = m::snapshotter(None, &[]);
                    let mut sh = m::snap(&sn);
                    let r = if unsafe { GAUGE } {
                        sh.gauges().iter().find(|g| g.name == *n).map(|g| g.value as u64)
                    } else {
                        sh.counters().iter().find(|g| g.name == *n).map(|g| g.value)
                    };
                    match r {
                        Some(r) => r,
                        None => bad("value-missing", format!("{n} is not in the snapshot")),
                    }
                }
            }
        }
        _ => {
            k = match name {
                "set" | "reset" => "set",
                _ => "add",
            };
            match s.obj {
                Obj::C(c) => match name {
                    "inc" => m::c_inc(c),
                    "add" => m::c_add(c, a),
                    "set" => m::c_set(c, a),
                    _ => m::c_reset(c),
                },
                Obj::G(g) => (match name {
                    "inc" => m::g_inc(g),
                    "dec" => m::g_dec(g),
                    "add" => m::g_add(g, a as i64),
                    "sub" => m::g_sub(g, a as i64),
                    "set" => m::g_set(g, a as i64),
                    _ => m::g_reset(g),
                }) as u64,
            }
        }
    };
    let arg = match name {
        "inc" => 1,
        "dec" => u64::MAX,
        "sub" => a.wrapping_neg(),
        "reset" => 0,
        _ => a,
    };
    q.end(k, o, arg, r);
}

/// How far each step of the milling threads has brought the value; every place is taken once.
static mut PLACES: Vec<bool> = Vec::new();

fn mill(t: usize, i: usize, s: &Slot, n: u64, down: bool) {
    let q = begin(t, i);
    let mut last = None;
    for k in 0..n {
        let r = match s.obj {
            Obj::C(c) => m::c_inc(c),
            Obj::G(g) if down => m::g_dec(g) as u64,
            Obj::G(g) => m::g_inc(g) as u64,
        };
        let at = if down { s.init.wrapping_sub(r) } else { r.wrapping_sub(s.init) };
        let taken = detrt::host_scope(|| unsafe {
            if at < 300_000 && PLACES.len() as u64 <= at {
                PLACES.resize(at as usize + 1, false);
            }
            at >= 300_000 || std::mem::replace(&mut PLACES[at as usize], true)
        });
        if taken || last.is_some_and(|l| l >= at) {
            bad("not-linearizable", format!("step {k} of thread {t} found the value {} (initially {}), which no order of single steps explains", r as i64, s.init as i64));
        }
        last = Some(at);
        if k % 64 == 0 {
            detrt::progress();
        }
    }
    h::cov(5, n);
    q.end("mill", 0, n, 0);
}

fn check(o: u64) {
    let s = unsafe { &OBJ[o as usize] };
    let mills: Vec<&h::Ev> = h::evs().iter().filter(|e| e.o == o && e.k == "mill").collect();
    if !mills.is_empty() {
        let n: u64 = mills.iter().map(|e| e.a).sum();
        let fin = match s.obj {
            Obj::C(c) => m::c_val(c),
            Obj::G(g) => m::g_val(g) as u64,
        };
        if fin != s.init.wrapping_add(n) && fin != s.init.wrapping_sub(n) {
            bad("not-linearizable", format!("{n} single steps from {} arrived at {}", s.init as i64, fin as i64));
        }
        return;
    }
    let fin = match s.obj {
        Obj::C(c) => m::c_val(c),
        Obj::G(g) => m::g_val(g) as u64,
    };
    let mut ops: Vec<L> = vec![];
    for e in h::evs().iter().filter(|e| e.o == o) {
        let f = match e.k {
            "add" => F::Add(e.a),
            "set" => F::Set(e.a),
            _ => F::Read,
        };
        match e.k {
            "read" => h::cov(1, 1),
            "vread" => h::cov(2, 1),
            "sread" => h::cov(3, 1),
            _ => {
                h::cov(0, 1);
                if e.k == "add" && e.r.checked_add(e.a).is_none() {
                    h::cov(4, 1)
                }
            }
        }
        ops.push(L { inv: e.inv, res: e.res, f, ret: e.r });
    }
    ops.push(L { inv: u64::MAX - 1, res: u64::MAX, f: F::Read, ret: fin });
    if !h::linearizable(s.init, &ops) {
        bad(
            "not-linearizable",
            format!("object {o} (initially {}, finally {}): no single order of the operations explains what they returned", s.init as i64, fin as i64),
        );
    }
}
