//! C03, C04: histograms.
use crate::h::{self, bad, begin, F, L};
use crate::prog::{Op, Prog};
use detrt::{mix, Rng};
use simshim as m;

pub const RULE_A: &str = "seeded programs of 1-4 threads x 1-9 operations (increment with values biased to bucket and range boundaries, including out-of-range ones; direct, registry and snapshot loads) on one or two atomic histograms of random configuration, bare, static, boxed or pinned, starting without storage. Every load is bounded per bucket by the increments completed before it and begun before its end, loads ordered in real time never go backwards, and the final load is exact. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";
pub const RULE_B: &str = "seeded programs of 1-4 threads x 1-8 operations (whole-histogram updates from distinct, sparse, equal or zero patterns, updates of the wrong length, direct, registry and snapshot loads) on one or two bulk histograms of random configuration; every loaded histogram must equal one whole update and the history must be linearizable against a register of updates. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";
pub const COV_A: &[&str] = &["values_recorded", "values_refused", "loads", "loads_before_any_recording", "registry_loads", "snapshot_loads", "range_edge_values"];
pub const COV_B: &[&str] = &["updates", "wrong_length_updates", "loads", "loads_before_any_update", "registry_loads", "snapshot_loads"];

fn config(r: &mut Rng) -> (u64, u64) {
    if r.chance(1, 80) {
        // thousands of buckets
        let g = 8 + r.below(5);
        return (g, (g + 1 + r.below(4)).min(64));
    }
    let g = if r.chance(1, 12) { 5 + r.below(3) } else { r.below(4) };
    let mx = match r.below(4) {
        0 => 64,
        1 => g + 1,
        2 => (g + 1 + r.below(8)).min(64),
        _ => g + 1 + r.below(64 - g),
    };
    (g, mx.max(1))
}

fn hval(r: &mut Rng, mp: u64) -> u64 {
    let edge = if mp >= 64 { 0u64 } else { 1u64 << mp };
    match r.below(10) {
        0 => r.below(4),
        1 => edge.wrapping_sub(1),
        2 => edge.wrapping_sub(1 + r.below(3)),
        3 => edge, // 2^max (or 0)
        4 => edge.wrapping_add(1 + r.below(5)),
        5 => r.next(),
        6 => 1u64 << r.below(64),
        7 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => {
            if mp >= 64 {
                r.next() >> r.below(64)
            } else {
                r.below(edge)
            }
        }
    }
}

/// params: bulk?, objects, then (placement, grouping, max) per object
pub fn gen(r: &mut Rng, bulk: bool) -> Prog {
    let n = 1 + r.below(8) / 7;
    let mut p = vec![bulk as u64, n];
    for _ in 0..n {
        let pl = r.below(4);
        let (g, x) = config(r);
        let (g, x) = if pl == 1 { if bulk { (0, 6) } else { (1, 8) } } else { (g, x) };
        p.extend([pl, g, x]);
    }
    let nt = 2 + r.below(3) as usize;
    let nt = if r.chance(1, 12) { 1 } else { nt };
    let nt = if r.chance(1, 40) { 5 + r.below(2) as usize } else { nt };
    let long = r.chance(1, 40);
    let narrow = r.chance(1, 2);
    let mill = !bulk && r.chance(1, 100);
    let pats = 1 + r.below(PATTERNS);
    let mut th = vec![];
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..h::ops(r, 8, long) {
            let o = r.below(n);
            let mp = p[2 + 3 * o as usize + 2];
            v.push(match r.below(12) {
                0..=1 if mill => Op::new("mill", &[o, r.below(1 << mp.min(16)), *r.pick(&[60, 300, 1100, 5000])]),
                0..=5 => {
                    if bulk {
                        if r.chance(1, 8) {
                            Op::new("bad", &[o, r.below(5)])
                        } else {
                            Op::new("upd", &[o, r.below(pats)])
                        }
                    } else if narrow && r.chance(2, 3) {
                        Op::new("inc", &[o, r.below(2)])
                    } else {
                        Op::new("inc", &[o, hval(r, mp)])
                    }
                }
                6..=9 => Op::new("load", &[o]),
                10 => Op::new("view", &[o]),
                _ => Op::new("snap", &[o]),
            });
        }
        th.push(v);
    }
    Prog { fam: "hist".into(), p, th }
}

enum Obj {
    A(&'static m::AtomicHistogram),
    B(&'static m::RwLockHistogram),
}
struct Slot {
    obj: Obj,
    name: Option<String>,
    g: u64,
    x: u64,
}
static mut OBJ: Vec<Slot> = Vec::new();

pub fn total(g: u64, x: u64) -> usize {
    ((1u64 << (g + 1)) + (x - g - 1) * (1 << g)) as usize
}
/// The bucket that covers `v` (None: outside the range).
pub fn index(g: u64, x: u64, v: u64) -> Option<usize> {
    if x < 64 && v >> x != 0 {
        return None;
    }
    if v < 1 << (g + 1) {
        return Some(v as usize);
    }
    let p = 63 - v.leading_zeros() as u64;
    let off = (v - (1 << p)) >> (p - g);
    Some((1usize << (g + 1)) + ((p - g - 1) as usize) * (1 << g) + off as usize)
}

/// Bulk pattern `k`.
pub const PATTERNS: u64 = 10;
pub fn pattern(k: u64, n: usize) -> Vec<u64> {
    match k {
        // the same counts in other buckets: equal totals, different contents
        5 | 9 => {
            let mut v = pattern(if k == 5 { 0 } else { 8 }, n);
            v.rotate_left(1);
            return v;
        }
        6 => return pattern(0, n).into_iter().rev().collect(),
        7 => {
            let mut v = pattern(2, n);
            v.swap(n - 1, n / 2 - 1);
            return v;
        }
        _ => {}
    }
    (0..n)
        .map(|i| match k {
            1 => 0,
            3 => {
                if i == (k as usize * 7) % n {
                    u64::MAX
                } else {
                    0
                }
            }
            8 => (i as u64 * 3 + 1) % 4,
            _ => mix(k * 1000 + 7 + ((i as u64) << 20)) | 1,
        })
        .collect()
}

fn spec(name: &str) -> m::Spec {
    m::Spec { name: name.to_string().into(), desc: None, meta: vec![], fmt: None, tag: None, note: None }
}
fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn nop() {}

pub fn exec(p: &'static Prog) {
    unsafe {
        let bulk = p.param(0) == 1;
        let n = p.param(1) as usize;
        let mut used = false;
        for k in 0..n {
            let pl = p.param(2 + 3 * k);
            let (g, x) = (p.param(3 + 3 * k), p.param(4 + 3 * k));
            let name = format!("hist/{k}");
            let (gp, mp) = (g as u8, x as u8);
            let st = pl == 1 && !used;
            used |= st;
            OBJ.push(if bulk {
                if st {
                    Slot { obj: Obj::B(&m::S_BULK), name: Some("static/bulk".into()), g, x }
                } else if pl >= 1 {
                    let h = leak(m::build(spec(&name), m::Inner::B(m::b_new(gp, mp))));
                    Slot { obj: Obj::B(m::h_bulk(h).unwrap()), name: Some(name), g, x }
                } else {
                    Slot { obj: Obj::B(leak(m::b_new(gp, mp))), name: None, g, x }
                }
            } else if st {
                Slot { obj: Obj::A(&m::S_HIST), name: Some("static/histogram".into()), g, x }
            } else if pl >= 1 {
                let inner = m::Inner::H(m::h_new(gp, mp));
                let h = leak(if pl == 3 { m::build_pinned(spec(&name), inner, nop, true) } else { m::build(spec(&name), inner) });
                Slot { obj: Obj::A(m::h_hist(h).unwrap()), name: Some(name), g, x }
            } else {
                Slot { obj: Obj::A(leak(m::h_new(gp, mp))), name: None, g, x }
            });
        }
        h::run_threads(p, step);
        for k in 0..n {
            if bulk {
                check_b(k)
            } else {
                check_a(k)
            }
        }
    }
}

fn direct(s: &Slot) -> Option<m::Hist> {
    match s.obj {
        Obj::A(h) => m::h_load(h),
        Obj::B(h) => m::b_load(h),
    }
}

fn step(t: usize, i: usize, op: &'static Op) {
    let o = op.arg(0);
    let s = unsafe { &OBJ[o as usize] };
    let a = op.arg(1);
    let n = total(s.g, s.x);
    match op.n.as_str() {
        "inc" => {
            let Obj::A(hh) = s.obj else { return };
            let q = begin(t, i);
            let r = m::h_inc(hh, a);
            q.end("inc", o, a, r.is_err() as u64);
        }
        "mill" => {
            let Obj::A(hh) = s.obj else { return };
            let q = begin(t, i);
            for k in 0..op.arg(2) {
                if m::h_inc(hh, a).is_err() {
                    bad("value-refused", format!("object {o}: value {a} is inside the range of ({}, {}) but was refused", s.g, s.x));
                }
                if k % 64 == 0 {
                    detrt::progress();
                }
            }
            q.end("mill", o, a, op.arg(2));
        }
        "upd" => {
            let Obj::B(hh) = s.obj else { return };
            let d = detrt::host_scope(|| pattern(a, n));
            let q = begin(t, i);
            let r = m::b_upd(hh, &d);
            q.end("upd", o, a, r.is_err() as u64);
            if r.is_err() {
                bad("update-refused", format!("object {o}: an update with the right number of buckets was refused"));
            }
        }
        "bad" => {
            let Obj::B(hh) = s.obj else { return };
            let len = [0, n - 1, n + 1, 2 * n, n / 2][a as usize % 5];
            let len = if len == n { n + 3 } else { len };
            let d = detrt::host_scope(|| vec![0xBAD; len]);
            h::cov(1, 1);
            let q = begin(t, i);
            let r = m::b_upd(hh, &d);
            q.end("bad", o, len as u64, r.is_err() as u64);
            if r.is_ok() {
                bad("bad-length-accepted", format!("object {o}: an update of {len} buckets was accepted for a histogram of {n}"));
            }
        }
        k => {
            let q = begin(t, i);
            let got: Option<m::Hist> = match (k, &s.name) {
                ("view", Some(name)) => {
                    let v = m::view();
                    let mut it = m::v_iter(&v);
                    let mut r = None;
                    let mut found = false;
                    while let Some(e) = m::i_next(&mut it) {
                        if m::e_name(e) == name {
                            found = true;
                            match m::e_value(e) {
                                m::Val::H(x) => r = x,
                                m::Val::None => r = None,
                                _ => bad("value-kind", format!("{name} reports a value of the wrong kind")),
                            }
                        }
                    }
                    m::view_close(v);
                    if !found {
                        bad("value-missing", format!("{name} is not in the registry"));
                    }
                    r
                }
                ("snap", Some(name)) => {
                    let sn = m::snapshotter(None, &[]);
                    let mut sh = m::snap(&sn);
                    sh.histograms().into_iter().find(|x| x.name == *name).map(|x| x.value)
                }
                _ => direct(s),
            };
            record(q, o, s, n, got, match k {
                "view" => "vload",
                "snap" => "sload",
                _ => "load",
            });
        }
    }
}

fn record(q: h::Pend, o: u64, s: &Slot, n: usize, got: Option<m::Hist>, k: &'static str) {
    match got {
        None => q.end(k, o, 0, 0),
        Some(x) => {
            let sl = x.as_slice();
            let c = x.config();
            if sl.len() != n || c.grouping_power() as u64 != s.g || c.max_value_power() as u64 != s.x {
                bad("config", format!("object {o}: loaded histogram has {} buckets and configuration ({}, {}) instead of {n} and ({}, {})", sl.len(), c.grouping_power(), c.max_value_power(), s.g, s.x));
            }
            let v = detrt::host_scope(|| {
                let mut v = vec![];
                for (i, c) in sl.iter().enumerate() {
                    if *c != 0 {
                        v.push(i as u64);
                        v.push(*c);
                    }
                }
                v
            });
            q.endv(k, o, 0, 1, &v);
        }
    }
}

fn get(v: &[u64], b: usize) -> u64 {
    v.chunks(2).find(|c| c[0] == b as u64).map_or(0, |c| c[1])
}

fn check_a(k: usize) {
    let s = unsafe { &OBJ[k] };
    let o = k as u64;
    let n = total(s.g, s.x);
    let q = begin(9, 0);
    record(q, o, s, n, direct(s), "load");
    let evs: Vec<&h::Ev> = h::evs().iter().filter(|e| e.o == o).collect();
    let mut incs: Vec<(usize, u64, u64)> = vec![];
    for e in evs.iter().filter(|e| e.k == "inc") {
        let ix = index(s.g, s.x, e.a);
        let edge = s.x < 64 && e.a == 1 << s.x;
        if edge {
            h::cov(6, 1);
        }
        match (ix, e.r) {
            (Some(b), 0) => incs.push((b, e.inv, e.res)),
            (Some(_), _) => bad("value-refused", format!("object {o}: value {} is inside the range of ({}, {}) but was refused", e.a, s.g, s.x)),
            // 2^max itself: either refused or counted in the last bucket
            (None, 0) if edge => incs.push((n - 1, e.inv, e.res)),
            (None, 0) => bad("out-of-range-accepted", format!("object {o}: value {} is outside the range of ({}, {}) but was accepted", e.a, s.g, s.x)),
            (None, _) => h::cov(1, 1),
        }
    }
    // many recordings of one value in a row
    let mut mills: Vec<(usize, u64, u64, u64)> = vec![];
    for e in evs.iter().filter(|e| e.k == "mill") {
        if let Some(b) = index(s.g, s.x, e.a) {
            mills.push((b, e.inv, e.res, e.r));
        }
    }
    let milled = |b: Option<u64>, f: &dyn Fn(&(usize, u64, u64, u64)) -> bool| -> u64 { mills.iter().filter(|m| b.is_none_or(|b| m.0 as u64 == b) && f(m)).map(|m| m.3).sum() };
    h::cov(0, incs.len() as u64 + milled(None, &|_| true));
    let loads: Vec<&&h::Ev> = evs.iter().filter(|e| e.k != "inc" && e.k != "mill").collect();
    for e in &loads {
        h::cov(match e.k {
            "vload" => 4,
            "sload" => 5,
            _ => 2,
        }, 1);
        let before = incs.iter().filter(|i| i.2 < e.inv).count() + milled(None, &|m| m.2 < e.inv) as usize;
        let begun = incs.iter().filter(|i| i.1 < e.res).count() + milled(None, &|m| m.1 < e.res) as usize;
        if e.r == 0 {
            if before > 0 {
                bad("recording-lost", format!("object {o}: a load at [{}..{}] reports nothing although {before} recordings had completed", e.inv, e.res));
            }
            h::cov(3, 1);
            continue;
        }
        if begun == 0 {
            bad("value-from-nowhere", format!("object {o}: a load at [{}..{}] reports a histogram although nothing was recorded", e.inv, e.res));
        }
        let mut tot = 0;
        for b in e.v.chunks(2) {
            let lo = incs.iter().filter(|i| i.0 as u64 == b[0] && i.2 < e.inv).count() as u64 + milled(Some(b[0]), &|m| m.2 < e.inv);
            let hi = incs.iter().filter(|i| i.0 as u64 == b[0] && i.1 < e.res).count() as u64 + milled(Some(b[0]), &|m| m.1 < e.res);
            if b[1] < lo || b[1] > hi {
                bad("wrong-count", format!("object {o}: a load at [{}..{}] counts {} in bucket {} where between {lo} and {hi} recordings are possible", e.inv, e.res, b[1], b[0]));
            }
            tot += b[1];
        }
        for i in &incs {
            if i.2 < e.inv && get(&e.v, i.0) == 0 {
                bad("recording-lost", format!("object {o}: a load at [{}..{}] misses a completed recording in bucket {}", e.inv, e.res, i.0));
            }
        }
        if tot < before as u64 {
            bad("recording-lost", format!("object {o}: a load at [{}..{}] counts {tot} of {before} completed recordings", e.inv, e.res));
        }
    }
    for a in &loads {
        for b in &loads {
            if a.res < b.inv {
                if a.r > b.r {
                    bad("went-backwards", format!("object {o}: a load at [{}..{}] reports nothing after one at [{}..{}] reported a histogram", b.inv, b.res, a.inv, a.res));
                }
                for c in a.v.chunks(2) {
                    if get(&b.v, c[0] as usize) < c[1] {
                        bad("went-backwards", format!("object {o}: bucket {} counts {} at [{}..{}] but {} later at [{}..{}]", c[0], c[1], a.inv, a.res, get(&b.v, c[0] as usize), b.inv, b.res));
                    }
                }
            }
        }
    }
}

fn check_b(k: usize) {
    let s = unsafe { &OBJ[k] };
    let o = k as u64;
    let n = total(s.g, s.x);
    let q = begin(9, 0);
    record(q, o, s, n, direct(s), "load");
    let evs: Vec<&h::Ev> = h::evs().iter().filter(|e| e.o == o).collect();
    let sparse = |p: u64| -> Vec<u64> {
        let mut v = vec![];
        for (i, c) in pattern(p, n).iter().enumerate() {
            if *c != 0 {
                v.extend([i as u64, *c]);
            }
        }
        v
    };
    let mut pats: Vec<Vec<u64>> = vec![];
    let mut id = |v: &Vec<u64>, add: bool| -> Option<u64> {
        if let Some(i) = pats.iter().position(|p| p == v) {
            return Some(i as u64 + 1);
        }
        if add {
            pats.push(v.clone());
            return Some(pats.len() as u64);
        }
        None
    };
    let mut ops: Vec<L> = vec![];
    for e in evs.iter().filter(|e| e.k == "upd") {
        h::cov(0, 1);
        let i = id(&sparse(e.a), true).unwrap();
        ops.push(L { inv: e.inv, res: e.res, f: F::Write(i), ret: 0 });
    }
    for e in evs.iter().filter(|e| e.k.ends_with("load")) {
        h::cov(match e.k {
            "vload" => 4,
            "sload" => 5,
            _ => 2,
        }, 1);
        let ret = if e.r == 0 {
            h::cov(3, 1);
            0
        } else {
            match id(&e.v, false) {
                Some(i) => i,
                None => bad("torn-load", format!("object {o}: a load at [{}..{}] returned buckets that match no single update", e.inv, e.res)),
            }
        };
        ops.push(L { inv: e.inv, res: e.res, f: F::Read, ret });
    }
    if !h::linearizable(0, &ops) {
        bad("not-linearizable", format!("object {o}: no single order of updates and loads explains what the loads returned"));
    }
}
