//! C12, C13: snapshots taken while metrics are registered, removed, first used
//! and updated.
use crate::h::{self, bad, begin, F, L};
use crate::hist::{index, pattern, total, PATTERNS};
use crate::prog::{Op, Prog};
use detrt::{host_scope, mix, Rng};
use simshim as m;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::time::UNIX_EPOCH;

pub const COV: &[&str] = &[
    "snapshots", "records", "filtered_snapshots", "registrations", "removals", "updates", "first_uses", "snapshots_overlapping_registration_or_removal",
    "snapshots_overlapping_updates", "records_of_static_metrics", "histogram_records", "lazies_left_out", "empty_histograms_left_out", "filter_calls",
    "snapshots_before_1970", "bystanders",
];
macro_rules! rule {
    ($x:expr) => {
        concat!("seeded programs of 1-4 threads x 1-6 (now and then 50) operations (register and drop metrics of 13 kinds, update shared and static metrics, first use of lazies and histograms, snapshots through shared or own snapshotters with 6 filters and own metadata, with scheduling points inside the filter) over the 9 static metrics and 1-90 shared dynamic ones; ", $x, " Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.")
    };
}
pub const RULE12: &str = rule!("every snapshot's records must be exactly those of the metrics live and accepted at one instant of the call, in one order of all registrations, removals and snapshots, each with its own kind, formatted name and metadata.");
pub const RULE13: &str = rule!("every recorded value must fit one order of all updates and snapshot reads of that metric (counters and gauges exactly, histograms per bucket, bulk histograms as whole updates), and the timestamp must be a clock reading handed out during the call, with the clock advancing, frozen, jumping or stepping back, also across 1970.");

/// ..., 12 a lazy histogram
const KINDS: u64 = 13;
const SLOTS: u64 = 4;
/// Operands from here on mean the static metrics.
const STAT: u64 = 500;

struct Look {
    kind: u64,
    name: Cow<'static, str>,
    simple: String,
    desc: Option<String>,
    meta: BTreeMap<String, String>,
    fmt: bool,
}

const STATIC_IDS: std::ops::Range<u64> = 1001..1001 + m::STATICS.len() as u64;

fn style_of(id: u64) -> u64 {
    unsafe { STYLE.iter().find(|s| s.0 == id).map_or(0, |s| s.1) }
}

fn look(id: u64, style: u64) -> Look {
    if id > 1000 {
        let s = &m::STATICS[id as usize - 1001];
        return Look {
            kind: match s.4 {
                'c' => 0,
                'g' => 2,
                'h' => 4,
                'b' => 6,
                'C' => 8,
                'G' => 9,
                _ => 7,
            },
            name: Cow::Borrowed(s.0),
            simple: s.3.to_string(),
            desc: s.1.map(|d| d.to_string()),
            meta: s.2.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            fmt: false,
        };
    }
    let kind = style % KINDS;
    let b = mix(id ^ (style << 24) ^ 0x51);
    let mut meta = BTreeMap::new();
    let mut name: Cow<'static, str> = format!("m/{id}").into();
    let mut desc = None;
    let mut fmt = false;
    if style / KINDS % 2 == 1 {
        if b % 3 == 0 {
            name = Cow::Borrowed(["dup/a", "", "static/gauge", "dup/ß"][(b >> 4) as usize % 4]);
            meta.insert("uid".to_string(), id.to_string());
        }
        for k in 0..(b >> 8) % 4 {
            let key = ["unit", "metric", "grouping_power", "x", "max_value_power", "description", "", "uidx"][((b >> 12) + k * (1 + (b >> 40) % 3)) as usize % 8];
            meta.insert(key.to_string(), format!("v{id}.{k}"));
        }
        desc = match (b >> 20) % 4 {
            0 => None,
            1 => Some(String::new()),
            _ => Some(format!("about {id}")),
            // (a description replaces a metadata entry of that name)
        };
        fmt = (b >> 24) % 2 == 0;
    }
    let simple = if fmt { format!("F:{name}") } else { name.to_string() };
    Look { kind, name, simple, desc, meta, fmt }
}
fn config(id: u64, style: u64) -> (u64, u64) {
    if id > 1000 {
        return if look(id, 0).kind == 6 { (0, 6) } else { (1, 8) };
    }
    let b = mix(id ^ 0x77 ^ (style << 8));
    let g = b % 3;
    (g, g + 1 + (b >> 8) % 5)
}
fn fmt_fn(e: &m::MetricEntry, f: m::Format) -> String {
    match f {
        m::Format::Simple => format!("F:{}", m::e_name(e)),
        _ => "prometheus".into(),
    }
}
fn nop() {}
fn make(id: u64, style: u64) -> m::Inner {
    let (g, x) = config(id, style);
    match look(id, style).kind {
        0 | 1 => m::Inner::C(m::c_new(id)),
        2 | 3 => m::Inner::G(m::g_new(-(id as i64))),
        4 | 5 => m::Inner::H(m::h_new(g as u8, x as u8)),
        6 => m::Inner::B(m::b_new(g as u8, x as u8)),
        7 => m::Inner::O(m::Opaque(id)),
        8 => m::Inner::LC(m::lcp_new(init_c)),
        9 => m::Inner::LG(m::lgp_new(init_g)),
        10 => m::Inner::LW(m::lw_new(Box::new(move || m::wide_make(id, detrt::yield_point)))),
        12 => m::Inner::LH(m::lh_new(Box::new(move || {
            detrt::yield_point();
            m::h_new(g as u8, x as u8)
        }))),
        _ => m::Inner::P(m::Probe::make(id)),
    }
}
fn register(id: u64, style: u64, inner: m::Inner) -> m::Handle {
    let l = look(id, style);
    let spec = m::Spec { name: l.name, desc: l.desc.map(|d| d.into()), meta: l.meta.into_iter().collect(), fmt: if l.fmt { Some(fmt_fn) } else { None }, tag: None, note: None };
    if matches!(l.kind, 1 | 3 | 5) {
        m::build_pinned(spec, inner, nop, true)
    } else {
        m::build(spec, inner)
    }
}
fn init_c() -> m::Counter {
    detrt::yield_point();
    m::c_new(5)
}
fn init_g() -> m::Gauge {
    detrt::yield_point();
    m::g_new(-5)
}

// ------------------------------------------------------------ filters
fn namehash(n: &str) -> u64 {
    n.bytes().fold(7u64, |h, b| mix(h ^ b as u64))
}
fn tick() {
    h::cov(13, 1);
    detrt::yield_point();
}
fn f_all(_: &m::MetricEntry) -> bool {
    tick();
    true
}
fn f_half(e: &m::MetricEntry) -> bool {
    tick();
    namehash(m::e_name(e)) & 1 == 0
}
fn f_desc(e: &m::MetricEntry) -> bool {
    m::e_desc(e).is_some()
}
fn f_none(_: &m::MetricEntry) -> bool {
    false
}
fn f_meta(e: &m::MetricEntry) -> bool {
    m::e_meta_has(e, "unit")
}
fn filter(k: u64) -> Option<fn(&m::MetricEntry) -> bool> {
    match k {
        0 => None,
        1 => Some(f_all),
        2 => Some(f_half),
        3 => Some(f_desc),
        4 => Some(f_none),
        _ => Some(f_meta),
    }
}
fn accepts(k: u64, l: &Look) -> bool {
    match k {
        0 | 1 => true,
        2 => namehash(&l.name) & 1 == 0,
        3 => l.desc.is_some(),
        4 => false,
        _ => l.meta.contains_key("unit"),
    }
}

// ------------------------------------------------------------ programs
/// params: shared metrics, their styles
pub fn gen(r: &mut Rng, values: bool) -> Prog {
    let n = 1 + r.below(if values { 4 } else { 6 });
    let n = if r.chance(1, 50) { 10 + r.below(80) } else { n };
    let long = n < 10 && r.chance(1, 50);
    // bystanders that are there all the time
    let crowd = if n < 10 && !long && r.chance(1, 300) { *r.pick(&[130, 260, 520, 1030, 1100, 2060]) } else { 0 };
    let mut p = vec![n];
    let decorated = r.chance(1, 2) || !values;
    let sty = |r: &mut Rng| r.below(KINDS) + if decorated && r.chance(2, 3) { KINDS } else { 0 };
    for _ in 0..n {
        p.push(sty(r));
    }
    p.push(crowd);
    if !values && r.chance(1, 3) {
        return churn(r, p, decorated);
    }
    if values && r.chance(1, 4) {
        return series(r, p);
    }
    let nt = if r.chance(1, 14) { 1 } else { 2 + r.below(3) };
    let statics = r.chance(1, 3);
    let mut th = vec![];
    for t in 0..nt {
        let mut v = vec![];
        let taker = t > 0 && r.chance(1, 2);
        for i in 0..h::ops(r, 6, long) {
            let id = (t + 1) * 100 + i;
            let x = r.below(20);
            let x = if taker { 12 + x % 8 } else { x };
            let target = if statics && r.chance(1, 3) { STAT + r.below(m::STATICS.len() as u64) } else { r.below(n) };
            v.push(match x {
                0..=2 => Op::new("new", &[r.below(SLOTS), id, sty(r), if r.chance(1, 3) { r.next() >> 40 } else { 0 }]),
                3 | 4 => Op::new("drop", &[r.below(SLOTS)]),
                5 | 6 => Op::new("own", &[r.below(SLOTS), r.next() >> 40]),
                7..=12 => Op::new("act", &[target, r.next() >> 40]),
                _ => Op::new("snap", &[if values && r.chance(2, 3) { r.below(2) } else { r.below(6) }, r.below(3)]),
            });
        }
        th.push(v);
    }
    Prog { fam: "snap".into(), p, th }
}

/// A recorder's view of life: one snapshotter taking snapshot after snapshot
/// while the same one or two metrics keep changing.
fn series(r: &mut Rng, p: Vec<u64>) -> Prog {
    let n = p[0];
    let hot: Vec<u64> = (0..1 + r.below(2)).map(|_| r.below(n)).collect();
    let act = |r: &mut Rng| Op::new("act", &[hot[r.below(hot.len() as u64) as usize], r.next() >> 40]);
    let f = r.below(2);
    let sn = r.below(2);
    let mut th = vec![];
    for t in 0..1 + r.below(3) {
        let mut v = vec![];
        for _ in 0..2 + r.below(6) {
            // in the first thread everything is in program order
            if t == 0 && r.chance(1, 2) {
                v.push(Op::new("snap", &[f, sn]));
            } else {
                v.push(act(r));
            }
        }
        th.push(v);
    }
    Prog { fam: "snap".into(), p, th }
}

/// One or two threads register and remove metrics of different kinds in turn
/// while another takes snapshots: any cut that is not one instant shows.
fn churn(r: &mut Rng, p: Vec<u64>, decorated: bool) -> Prog {
    let movers = 1 + r.below(2);
    let mut th = vec![];
    for t in 0..movers {
        let slots: Vec<u64> = if movers == 1 { vec![0, 1, 2, 3] } else { vec![t * 2, t * 2 + 1] };
        let mut v = vec![];
        let mut full: Vec<u64> = vec![];
        let mut id = (t + 1) * 100;
        for _ in 0..4 + r.below(6) {
            let empty: Vec<u64> = slots.iter().copied().filter(|s| !full.contains(s)).collect();
            if !empty.is_empty() && (full.is_empty() || r.chance(1, 2)) {
                let s = empty[r.below(empty.len() as u64) as usize];
                let k = [0, 0, 2, 4, 5, 6, 4, 1][r.below(8) as usize];
                v.push(Op::new("new", &[s, id, k + if decorated && r.chance(1, 3) { KINDS } else { 0 }, r.below(1 << 24)]));
                full.push(s);
                id += 1;
            } else {
                let s = full.remove(r.below(full.len() as u64) as usize);
                v.push(Op::new("drop", &[s]));
            }
        }
        th.push(v);
    }
    for _ in 0..1 + r.below(2) {
        th.push((0..1 + r.below(3)).map(|_| Op::new("snap", &[if r.chance(2, 3) { r.below(2) } else { r.below(6) }, r.below(3)])).collect());
    }
    Prog { fam: "snap".into(), p, th }
}

// ------------------------------------------------------------ world
static mut SLOT: Vec<Option<(u64, m::Handle)>> = Vec::new();
static mut FIX: Vec<(u64, &'static m::Handle)> = Vec::new();
static mut STYLE: Vec<(u64, u64)> = Vec::new();
static mut SHARED: Vec<m::Snapshotter> = Vec::new();
static mut CROWD: u64 = 0;
static mut SNAPS: Vec<Snap> = Vec::new();

enum V {
    C(u64),
    G(i64),
    H(m::Hist),
}
struct Rec {
    kind: char,
    name: String,
    meta: BTreeMap<String, String>,
    v: V,
    id: u64,
}
struct Snap {
    f: u64,
    sn: u64,
    inv: u64,
    res: u64,
    ts: i128,
    meta: BTreeMap<String, String>,
    recs: Vec<Rec>,
}

/// The metadata of shared snapshotter `k`.
fn own_meta(k: u64) -> Vec<(String, String)> {
    (0..k).map(|i| (format!("src{i}"), format!("node {k}"))).collect()
}

pub fn exec(p: &'static Prog) {
    unsafe {
        host_scope(|| {
            SLOT = Vec::with_capacity(16);
            SNAPS = Vec::with_capacity(256);
            STYLE = Vec::with_capacity(512);
        });
        for _ in 0..SLOTS {
            SLOT.push(None);
        }
        for f in 0..6 {
            SHARED.push(m::snapshotter(filter(f), &own_meta(f % 3)));
        }
        for k in 0..p.param(0) {
            let st = p.param(1 + k as usize);
            STYLE.push((1 + k, st));
            FIX.push((1 + k, Box::leak(Box::new(register(1 + k, st, make(1 + k, st))))));
        }
        CROWD = p.param(1 + p.param(0) as usize).min(4000);
        h::cov(15, CROWD);
        for k in 0..CROWD {
            let s = m::Spec { name: format!("crowd/{k}").into(), desc: None, meta: vec![], fmt: None, tag: None, note: None };
            std::mem::forget(m::build(s, if k % 3 == 2 { m::Inner::G(m::g_new(-(k as i64))) } else { m::Inner::C(m::c_new(k)) }));
        }
        for t in &p.th {
            for o in t.iter().filter(|o| o.n == "new") {
                STYLE.push((o.arg(1), o.arg(2)));
            }
        }
        h::run_threads(p, step);
        detrt::run(vec![Box::new(|| {
            if let Err(e) = h::guarded(|| snap_op(0, 990, 0, 0)) {
                bad("panic", format!("the last snapshot panicked: {e}"));
            }
        })]);
        check(p.param(0));
    }
}

fn step(t: usize, i: usize, op: &'static Op) {
    match op.n.as_str() {
        "new" => {
            let (slot, id, st) = (op.arg(0) as usize, op.arg(1), op.arg(2));
            if unsafe { SLOT[slot].is_some() } {
                return;
            }
            h::cov(3, 1);
            let inner = make(id, st);
            if op.arg(3) > 0 {
                pre_use(t, i, id, &inner, op.arg(3));
            }
            let q = begin(t, i);
            let hd = register(id, st, inner);
            q.end("reg", id, 0, 0);
            if unsafe { SLOT[slot].is_some() } {
                destroy(t, i, (id, hd));
            } else {
                detrt::hb_release(slot);
                unsafe { SLOT[slot] = Some((id, hd)) };
            }
        }
        "drop" => {
            let s = op.arg(0) as usize;
            if let Some(x) = unsafe { SLOT[s].take() } {
                detrt::hb_acquire(s);
                destroy(t, i, x);
            }
        }
        "own" => {
            let s = op.arg(0) as usize;
            if let Some(x) = unsafe { SLOT[s].take() } {
                detrt::hb_acquire(s);
                act(t, i, x.0, &x.1, op.arg(1));
                if unsafe { SLOT[s].is_some() } {
                    destroy(t, i, x);
                } else {
                    detrt::hb_release(s);
                    unsafe { SLOT[s] = Some(x) };
                }
            }
        }
        "act" => {
            let k = op.arg(0);
            if k >= STAT {
                act_static(t, i, k - STAT, op.arg(1));
            } else {
                let (id, hd) = unsafe { FIX[k as usize] };
                act(t, i, id, hd, op.arg(1));
            }
        }
        "snap" => snap_op(t, i, op.arg(0), op.arg(1)),
        _ => {}
    }
}

fn destroy(t: usize, i: usize, x: (u64, m::Handle)) {
    h::cov(4, 1);
    let q = begin(t, i);
    m::drop_handle(x.1);
    q.end("del", x.0, 0, 0);
}

fn act_c(q: h::Pend, id: u64, c: &m::Counter, a: u64) {
    match a % 6 {
        0 => {
            let r = m::c_set(c, a >> 3);
            q.end("set", id, a >> 3, r);
        }
        2 if a & 8 != 0 => {
            let r = m::c_set(c, mix(a));
            q.end("set", id, mix(a), r);
        }
        1 => {
            let r = m::c_add(c, u64::MAX - (a >> 3));
            q.end("add", id, u64::MAX - (a >> 3), r);
        }
        _ => {
            let r = m::c_add(c, a >> 3);
            q.end("add", id, a >> 3, r);
        }
    }
}
fn act_g(q: h::Pend, id: u64, c: &m::Gauge, a: u64) {
    match a % 5 {
        0 => {
            let r = m::g_set(c, -((a >> 3) as i64));
            q.end("set", id, -((a >> 3) as i64) as u64, r as u64);
        }
        3 if a & 8 != 0 => {
            let r = m::g_set(c, mix(a) as i64);
            q.end("set", id, mix(a), r as u64);
        }
        1 | 2 => {
            let r = m::g_sub(c, (a >> 3) as i64);
            q.end("add", id, ((a >> 3) as i64).wrapping_neg() as u64, r as u64);
        }
        _ => {
            let r = m::g_add(c, (a >> 3) as i64);
            q.end("add", id, a >> 3, r as u64);
        }
    }
}
fn act_h(q: h::Pend, id: u64, hh: &m::AtomicHistogram, a: u64) {
    let (g, x) = config(id, style_of(id));
    let v = if a % 2 == 0 { 0 } else { (a >> 1) % (1 << x) };
    if m::h_inc(hh, v).is_ok() {
        q.end("inc", id, index(g, x, v).unwrap() as u64, 0);
    } else {
        bad("value-refused", format!("metric {id}: value {v} is inside the range of ({g}, {x}) but was refused"));
    }
}
fn act_b(q: h::Pend, id: u64, hh: &m::RwLockHistogram, a: u64) {
    let (g, x) = config(id, style_of(id));
    let d = host_scope(|| pattern(a % PATTERNS, total(g, x)));
    if m::b_upd(hh, &d).is_ok() {
        q.end("upd", id, a % PATTERNS, 0);
    } else {
        bad("update-refused", format!("metric {id}: an update with the right number of buckets was refused"));
    }
}
/// Use a metric before it is registered.
fn pre_use(t: usize, i: usize, id: u64, x: &m::Inner, a: u64) {
    h::cov(5, 1);
    let q = begin(t, i);
    match x {
        m::Inner::C(c) => act_c(q, id, c, a),
        m::Inner::G(g) => act_g(q, id, g, a),
        m::Inner::H(x) => act_h(q, id, x, a),
        m::Inner::B(x) => act_b(q, id, x, a),
        m::Inner::LC(l) => act_c(q, id, m::lcp_deref(l), a),
        m::Inner::LG(l) => act_g(q, id, m::lgp_deref(l), a),
        m::Inner::LW(l) => act_c(q, id, &m::lw_deref(l).n, a),
        m::Inner::LH(l) => act_h(q, id, m::lh_deref(l), a),
        _ => {}
    }
}
fn act(t: usize, i: usize, id: u64, hd: &m::Handle, a: u64) {
    h::cov(5, 1);
    let q = begin(t, i);
    if let Some(c) = m::h_counter(hd) {
        act_c(q, id, c, a);
    } else if let Some(g) = m::h_gauge(hd) {
        act_g(q, id, g, a);
    } else if let Some(x) = m::h_hist(hd) {
        act_h(q, id, x, a);
    } else if let Some(x) = m::h_bulk(hd) {
        act_b(q, id, x, a);
    } else if let Some(l) = m::h_lazy_counter(hd) {
        act_c(q, id, m::lcp_deref(l), a);
    } else if let Some(l) = m::h_lazy_gauge(hd) {
        act_g(q, id, m::lgp_deref(l), a);
    } else if let Some(l) = m::h_lazy_wide(hd) {
        act_c(q, id, &m::lw_deref(l).n, a);
    } else if let Some(l) = m::h_lazy_hist(hd) {
        act_h(q, id, m::lh_deref(l), a);
    }
}
fn act_static(t: usize, i: usize, k: u64, a: u64) {
    h::cov(5, 1);
    let id = 1001 + k;
    let q = begin(t, i);
    match k {
        0 => act_c(q, id, &m::S_PLAIN, a),
        1 => act_c(q, id, &m::S_CTR, a),
        2 => act_g(q, id, &m::S_GAUGE, a),
        3 => act_c(q, id, m::lcp_deref(&m::S_LCTR), a),
        4 => act_g(q, id, m::lgp_deref(&m::S_LGAUGE), a),
        5 => act_h(q, id, &m::S_HIST, a),
        6 => act_b(q, id, &m::S_BULK, a),
        7 => act_c(q, id, &m::S_FMT, a),
        9 => act_g(q, id, &m::S_CONST, a),
        10 => act_g(q, id, &m::S_FMTNAME, a),
        11 => act_c(q, id, m::inner::s_inner(), a),
        12 => act_c(q, id, m::inner::local(), a),
        _ => {}
    }
}

fn snap_op(t: usize, i: usize, f: u64, sn: u64) {
    h::cov(0, 1);
    if f > 0 {
        h::cov(2, 1);
    }
    let own = if sn == 2 { Some(m::snapshotter(filter(f), &[("own".into(), "1".into())])) } else { None };
    let q = begin(t, i);
    let mut s = match &own {
        Some(x) => m::snap(x),
        None => m::snap(unsafe { &SHARED[f as usize] }),
    };
    let inv = q.inv;
    let res = begin(t, i).inv;
    let ts: i128 = match s.systemtime().duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    };
    if ts < 0 {
        h::cov(14, 1);
    }
    let mut flat: Vec<u64> = vec![];
    let mut recs = vec![];
    let mut crowd = vec![];
    let mut push = |kind: char, name: String, meta: std::collections::HashMap<String, String>, v: V| {
        if let Some(k) = name.strip_prefix("crowd/") {
            crowd.push((k.parse::<u64>().unwrap_or(u64::MAX), v));
            return;
        }
        let meta: BTreeMap<String, String> = meta.into_iter().collect();
        let id = ident(&name, &meta);
        flat.push(id);
        flat.push(match &v {
            V::C(x) => *x,
            V::G(x) => *x as u64,
            V::H(x) => x.as_slice().iter().fold(1, |h, b| mix(h ^ *b)),
        });
        recs.push(Rec { kind, name, meta, v, id });
    };
    for c in s.counters() {
        push('c', c.name, c.metadata, V::C(c.value));
    }
    for c in s.gauges() {
        push('g', c.name, c.metadata, V::G(c.value));
    }
    for c in s.histograms() {
        push('h', c.name, c.metadata, V::H(c.value));
    }
    bystanders(f, crowd);
    let meta: BTreeMap<String, String> = s.metadata().into_iter().collect();
    h::cov(1, recs.len() as u64);
    let q = h::Pend { t, i, inv };
    q.endv("snap", f, sn, ts as u64, &flat);
    host_scope(|| unsafe { SNAPS.push(Snap { f, sn, inv, res, ts, meta, recs }) });
}

/// The bystanders of a snapshot: all that pass, once each, with the values they have had all along.
fn bystanders(f: u64, mut got: Vec<(u64, V)>) {
    if unsafe { CROWD } == 0 && got.is_empty() {
        return;
    }
    got.sort_by_key(|x| x.0);
    let want: Vec<u64> = (0..unsafe { CROWD }).filter(|k| f < 2 || f == 2 && namehash(&format!("crowd/{k}")) & 1 == 0).collect();
    if h::prop() == "C12" && !got.iter().map(|x| x.0).eq(want.iter().copied()) {
        let odd = want.iter().find(|k| got.iter().filter(|x| x.0 == **k).count() != 1);
        bad("wrong-set", format!("a snapshot (filter {f}) has {} records of the {} metrics named crowd/k that are registered all the time and pass; {odd:?} is not there once", got.len(), want.len()));
    }
    for (k, v) in got {
        let ok = match v {
            V::C(x) => k % 3 != 2 && x == k,
            V::G(x) => k % 3 == 2 && x == -(k as i64),
            _ => false,
        };
        if !ok {
            bad("wrong-value", format!("a snapshot's record of crowd/{k} does not have the value it has had all along"));
        }
    }
}

fn ident(name: &str, meta: &BTreeMap<String, String>) -> u64 {
    if let Some(u) = meta.get("uid") {
        return u.parse().unwrap_or(0);
    }
    if let Some(k) = m::STATICS.iter().position(|s| s.3 == name) {
        return 1001 + k as u64;
    }
    name.strip_prefix("F:").unwrap_or(name).strip_prefix("m/").and_then(|x| x.parse().ok()).unwrap_or(0)
}

// ------------------------------------------------------------ checks
fn check(n: u64) {
    let evs = h::evs();
    let snaps = unsafe { &SNAPS };
    for s in snaps {
        if evs.iter().any(|e| matches!(e.k, "reg" | "del") && e.inv < s.res && s.inv < e.res) {
            h::cov(7, 1);
        }
        if evs.iter().any(|e| matches!(e.k, "add" | "set" | "inc" | "upd") && e.inv < s.res && s.inv < e.res) {
            h::cov(8, 1);
        }
    }
    for s in unsafe { STYLE.iter() }.map(|s| s.0).chain(STATIC_IDS) {
        if matches!(look(s, style_of(s)).kind, 4..=6 | 8..=10 | 12) && evs.iter().any(|e| e.o == s && matches!(e.k, "add" | "set" | "inc" | "upd")) {
            h::cov(6, 1);
        }
    }
    match h::prop() {
        "C12" => {
            for s in snaps {
                shape(s);
            }
            membership(n, evs, snaps);
        }
        "C13" => {
            for s in snaps {
                stamp(s);
            }
            let mut ids: Vec<u64> = (1..=n).chain(STATIC_IDS).collect();
            ids.extend(evs.iter().filter(|e| e.k == "reg").map(|e| e.o));
            for id in ids {
                values(id, evs, snaps);
            }
        }
        _ => {}
    }
}

fn known(id: u64) -> bool {
    (STATIC_IDS).contains(&id) || unsafe { STYLE.iter().any(|s| s.0 == id) }
}

/// Each record on its own: identity, kind, name, metadata; the snapshot's own metadata.
fn shape(s: &Snap) {
    let at = format!("the snapshot at [{}..{}]", s.inv, s.res);
    let want: BTreeMap<String, String> = if s.sn == 2 { [("own".to_string(), "1".to_string())].into() } else { own_meta(s.f % 3).into_iter().collect() };
    if s.meta != want {
        bad("snapshot-metadata", format!("{at} carries metadata {:?} instead of {want:?}", s.meta));
    }
    let mut seen: Vec<u64> = vec![];
    for r in &s.recs {
        if !known(r.id) {
            bad("unknown-record", format!("{at} has a record {:?} {:?} that belongs to no metric", r.name, r.meta));
        }
        let l = look(r.id, style_of(r.id));
        if seen.contains(&r.id) {
            bad("recorded-twice", format!("{at} records metric {} ({:?}) twice", r.id, r.name));
        }
        seen.push(r.id);
        let kind = match l.kind {
            0 | 1 | 8 | 10 | 11 => 'c',
            2 | 3 | 9 => 'g',
            4 | 5 | 6 | 12 => 'h',
            _ => 'o',
        };
        if kind != r.kind {
            bad("wrong-kind", format!("{at} records metric {} ({:?}) as kind {:?} instead of {kind:?}", r.id, r.name, r.kind));
        }
        if r.name != l.simple {
            bad("wrong-name", format!("{at} names metric {} {:?} instead of {:?}", r.id, r.name, l.simple));
        }
        if !accepts(s.f, &l) {
            bad("filter-ignored", format!("{at} records metric {} ({:?}), which its filter rejects", r.id, r.name));
        }
        let mut want = l.meta.clone();
        if let Some(d) = &l.desc {
            want.insert("description".into(), d.clone());
        }
        if let V::H(x) = &r.v {
            let (g, mx) = config(r.id, style_of(r.id));
            want.insert("grouping_power".into(), g.to_string());
            want.insert("max_value_power".into(), mx.to_string());
            if x.config().grouping_power() as u64 != g || x.config().max_value_power() as u64 != mx || x.as_slice().len() != total(g, mx) {
                bad("wrong-configuration", format!("{at} records histogram {} with a different configuration", r.id));
            }
            h::cov(10, 1);
        }
        if r.id > 1000 {
            h::cov(9, 1);
        }
        if want != r.meta {
            bad("wrong-metadata", format!("{at} records metric {} ({:?}) with metadata {:?} instead of {want:?}", r.id, r.name, r.meta));
        }
    }
}

fn always(kind: u64) -> bool {
    matches!(kind, 0..=3 | 11)
}

fn membership(n: u64, evs: &[h::Ev], snaps: &[Snap]) {
    // operations: registrations, removals, snapshots
    enum O<'a> {
        Reg(u64),
        Del(u64),
        Snap(&'a Snap),
    }
    let mut ops: Vec<(u64, u64, O)> = vec![];
    for e in evs {
        match e.k {
            "reg" => ops.push((e.inv, e.res, O::Reg(e.o))),
            "del" => ops.push((e.inv, e.res, O::Del(e.o))),
            _ => {}
        }
    }
    for s in snaps {
        ops.push((s.inv, s.res, O::Snap(s)));
    }
    ops.sort_by_key(|o| o.0);
    let iv: Vec<(u64, u64)> = ops.iter().map(|o| (o.0, o.1)).collect();
    let all: Vec<u64> = ops.iter().filter_map(|o| if let O::Reg(i) = o.2 { Some(i) } else { None }).collect();
    // first use of each metric: (earliest begin, earliest end)
    let used = |id: u64| -> (u64, u64) {
        let it = || evs.iter().filter(|e| e.o == id && matches!(e.k, "add" | "set" | "inc" | "upd"));
        (it().map(|e| e.inv).min().unwrap_or(u64::MAX), it().map(|e| e.res).min().unwrap_or(u64::MAX))
    };
    let one = |s: &Snap, id: u64, live: bool| -> Result<(), String> {
        let l = look(id, style_of(id));
        let there = s.recs.iter().any(|r| r.id == id);
        if !accepts(s.f, &l) {
            return Ok(()); // presence already ruled out
        }
        if there && !live {
            return Err(format!("records metric {id} ({:?}), which was not registered", l.simple));
        }
        if !live {
            return Ok(());
        }
        let (ub, ue) = used(id);
        let must = always(l.kind) || l.kind != 7 && ue < s.inv;
        let may = always(l.kind) || l.kind != 7 && ub < s.res;
        if must && !there {
            return Err(format!("misses metric {id} ({:?})", l.simple));
        }
        if there && !may {
            return Err(format!("records metric {id} ({:?}), which has no value yet", l.simple));
        }
        if !there {
            h::cov(if matches!(l.kind, 8..=10 | 12) { 11 } else { 12 }, 1);
        }
        Ok(())
    };
    for s in snaps {
        for id in (1..=n).chain(STATIC_IDS) {
            if let Err(e) = one(s, id, true) {
                bad("wrong-membership", format!("the snapshot at [{}..{}] {e}", s.inv, s.res));
            }
        }
    }
    let state = |mask: &h::Set| -> Vec<u64> {
        let mut v = vec![];
        for (i, o) in ops.iter().enumerate() {
            if mask.has(i) {
                match o.2 {
                    O::Reg(id) => v.push(id),
                    O::Del(id) => v.retain(|x| *x != id),
                    _ => {}
                }
            }
        }
        // removals sort after their registration by begin time
        v
    };
    let ok = |i: usize, st: &Vec<u64>| match ops[i].2 {
        O::Snap(s) => all.iter().all(|id| one(s, *id, st.contains(id)).is_ok()),
        _ => true,
    };
    if !h::linearizable_by(&iv, state, ok) {
        let mut hint = String::new();
        for s in snaps {
            for id in &all {
                let reg = evs.iter().find(|e| e.k == "reg" && e.o == *id).unwrap();
                let del = evs.iter().find(|e| e.k == "del" && e.o == *id);
                let throughout = reg.res < s.inv && !del.is_some_and(|d| d.inv < s.res);
                let never = reg.inv > s.res || del.is_some_and(|d| d.res < s.inv);
                if throughout || never {
                    if let Err(e) = one(s, *id, throughout) {
                        hint = format!("; the snapshot at [{}..{}] {e}", s.inv, s.res);
                    }
                }
            }
        }
        bad("membership-not-linearizable", format!("no single order of registrations, removals and snapshots explains the records{hint}"));
    }
}

fn stamp(s: &Snap) {
    let log = detrt::clock_log();
    if !log.iter().any(|(q, ns)| *q >= s.inv && *q <= s.res && *ns as i64 as i128 == s.ts) {
        let near: Vec<i64> = log.iter().filter(|(q, _)| *q >= s.inv && *q <= s.res).map(|x| x.1 as i64).collect();
        bad("wrong-timestamp", format!("the snapshot at [{}..{}] carries time {} ns but the clock read {near:?} during the call", s.inv, s.res, s.ts));
    }
}

fn values(id: u64, evs: &[h::Ev], snaps: &[Snap]) {
    let st = style_of(id);
    let l = look(id, st);
    let reads: Vec<(&Snap, &Rec)> = snaps.iter().flat_map(|s| s.recs.iter().filter(|r| r.id == id).map(move |r| (s, r))).collect();
    let ups: Vec<&h::Ev> = evs.iter().filter(|e| e.o == id && matches!(e.k, "add" | "set" | "inc" | "upd")).collect();
    match l.kind {
        0..=3 | 8..=10 => {
            let stat = id > 1000;
            let init = match l.kind {
                _ if stat => 0,
                0 | 1 | 10 => id,
                2 | 3 => -(id as i64) as u64,
                8 => 5,
                _ => -5i64 as u64,
            };
            let mut ops: Vec<L> = vec![];
            for e in &ups {
                ops.push(L { inv: e.inv, res: e.res, f: if e.k == "add" { F::Add(e.a) } else { F::Set(e.a) }, ret: e.r });
            }
            for (s, r) in &reads {
                let v = match r.v {
                    V::C(x) => x,
                    V::G(x) => x as u64,
                    _ => continue,
                };
                ops.push(L { inv: s.inv, res: s.res, f: F::Read, ret: v });
            }
            if !h::linearizable(init, &ops) {
                let vals: Vec<i64> = ops.iter().filter(|o| matches!(o.f, F::Read)).map(|o| o.ret as i64).collect();
                bad("value-not-linearizable", format!("metric {id} ({:?}): no single order of updates and snapshots explains the recorded values {vals:?}", l.simple));
            }
        }
        11 => {
            for (s, r) in &reads {
                if !matches!(r.v, V::C(x) if x == id) {
                    bad("wrong-value", format!("the snapshot at [{}..{}] records a wrong value for metric {id}", s.inv, s.res));
                }
            }
        }
        4 | 5 | 12 => {
            for (s, r) in &reads {
                let V::H(x) = &r.v else { continue };
                for (b, c) in x.as_slice().iter().enumerate() {
                    let lo = ups.iter().filter(|e| e.a == b as u64 && e.res < s.inv).count() as u64;
                    let hi = ups.iter().filter(|e| e.a == b as u64 && e.inv < s.res).count() as u64;
                    if *c < lo || *c > hi {
                        bad("wrong-count", format!("the snapshot at [{}..{}] counts {c} in bucket {b} of metric {id} where between {lo} and {hi} are possible", s.inv, s.res));
                    }
                }
                for (s2, r2) in &reads {
                    if let V::H(y) = &r2.v {
                        if s.res < s2.inv && x.as_slice().iter().zip(y.as_slice()).any(|(a, b)| a > b) {
                            bad("went-backwards", format!("metric {id}: a bucket counts less in the snapshot at [{}..{}] than in the earlier one at [{}..{}]", s2.inv, s2.res, s.inv, s.res));
                        }
                    }
                }
            }
        }
        6 => {
            let (g, mx) = config(id, st);
            let nb = total(g, mx);
            let mut pats: Vec<Vec<u64>> = vec![];
            let mut ops: Vec<L> = vec![];
            for e in &ups {
                let v = pattern(e.a, nb);
                let i = pats.iter().position(|p| *p == v).unwrap_or_else(|| {
                    pats.push(v);
                    pats.len() - 1
                });
                ops.push(L { inv: e.inv, res: e.res, f: F::Write(i as u64 + 1), ret: 0 });
            }
            for s in snaps {
                let l = look(id, st);
                if !accepts(s.f, &l) {
                    continue;
                }
                let Some(r) = s.recs.iter().find(|r| r.id == id) else { continue };
                let V::H(x) = &r.v else { continue };
                match pats.iter().position(|p| p.as_slice() == x.as_slice()) {
                    Some(i) => ops.push(L { inv: s.inv, res: s.res, f: F::Read, ret: i as u64 + 1 }),
                    None => bad("torn-value", format!("the snapshot at [{}..{}] records buckets for metric {id} that match no single update", s.inv, s.res)),
                }
            }
            if !h::linearizable(0, &ops) {
                bad("value-not-linearizable", format!("metric {id}: no single order of updates and snapshots explains the recorded histograms"));
            }
        }
        _ => {}
    }
}
