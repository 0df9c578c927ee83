//! C07-C11: the registry of dynamic metrics, views and entries.
use crate::h::{self, bad, begin, Pend};
use crate::prog::{Op, Prog};
use detrt::{host_scope, mix, Rng};
use simshim as m;
use std::borrow::Cow;

pub const COV: &[&str] = &[
    "registrations", "removals", "views_opened", "view_relistings", "snapshots", "panics_in_value", "panics_in_filter", "panics_in_formatter",
    "panics_holding_view", "panics_holding_handle", "destructors_run", "handles_moved_between_threads", "re_registrations", "walks", "walk_steps",
    "entries_inspected", "runs_with_large_registry", "view_opened_during_registration_or_removal", "filter_calls",
    "dropped_without_registration", "entries_formatted", "texts_compared", "short_lived_metrics",
    "metrics_of_the_past", "destructors_looking_at_the_registry",
];
macro_rules! rule {
    ($x:expr) => {
        concat!("seeded programs of 1-4 threads x 1-6 (now and then 50) registry operations (register boxed/pinned metrics of 16 kinds, also never registered ones, drop handles - also on another thread -, open views, hold them across scheduling points, list them in different ways, snapshot) over 0-300 metrics registered beforehand; ", $x, " Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.")
    };
}
pub const RULE7: &str = rule!("every listing must equal the live set at one instant of the opening call, in one order of all registrations, removals and openings consistent with real time, and stay unchanged while the view is open.");
pub const RULE8: &str = rule!("destructors report to the harness, freed memory is poisoned and quarantined, and every instrumented access to freed memory, every destructor started under an open view and every dead metric reached is a violation.");
pub const RULE9: &str = rule!("panics are injected in value(), formatters, filters and threads holding views or handles; any deadlock, lost wake-up or step-budget exhaustion under a fair schedule is a violation, and a final phase must be able to register, list, snapshot and drop.");
pub const RULE10: &str = rule!("each view is walked by random mixes of next, next_back, nth, nth_back, size_hint, len, fold, rfold, count and last against a double-ended-queue model.");
pub const RULE23: &str = rule!("every entry of a view is formatted in both formats, several times and from several threads, and the text compared, label by label in any order, with the name and metadata its metric was built with; the hash order of the labels follows the seed of the run, and addresses are reused last-in-first-out in half of the runs.");
pub const RULE11: &str = rule!("every entry is compared with what its metric was built with: name (static, owned, empty, duplicate, long or unicode), description, metadata, custom formatter, typed data and value, with addresses reused last-in-first-out in half of the runs.");

const SLOTS: u64 = 5;

// ------------------------------------------------------------ metric styles
/// 0 probe boxed, 1 probe pinned, 2 counter boxed, 3 counter pinned, 4 gauge, 5 histogram, 6 opaque,
/// 7 three pinned counters in one allocation, 8 counter and 9 pinned probe through the deprecated constructors,
/// 10 of zero size, 11 strictly aligned, 12 lazy and never used, 13 zero size and pinned,
/// 14 owner of another (probe), 15 with data whose destructor looks at the registry
const KINDS: u64 = 16;
/// The further metrics of a row have these ids plus the first one's.
const ROW: [u64; 3] = [0, 50_000, 100_000];
fn ids_of(id: u64, style: u64) -> &'static [u64] {
    let _ = id;
    if style % KINDS == 7 {
        &ROW
    } else if style % KINDS == 14 {
        &ROW[..2]
    } else {
        &ROW[..1]
    }
}
/// Short-lived metrics have ids from here on (below a row's further ids).
const CHURN: u64 = 200_000;
/// The metric registered at the very end.
const LAST: u64 = 900_000;
/// What the metric with this id is built like: a pure function of (id, style).
pub struct Look {
    pub kind: u64, // see KINDS
    pub name: Cow<'static, str>,
    pub desc: Option<Cow<'static, str>>,
    pub meta: Vec<(String, String)>,
    pub fmt: bool,
    pub tag: bool,
    pub note: Option<String>,
}
static NAMES: [&str; 4] = ["pool/a", "pool/b", "", "pool/größe"];

pub fn look(id: u64, style: u64) -> Look {
    let mut kind = style % KINDS;
    if kind == 14 && (ROW[1]..ROW[2]).contains(&(id % CHURN)) {
        kind = 0;
    }
    let b = mix(id ^ (style << 32));
    let plain = style / KINDS % 2 == 0;
    let old = kind == 8 || kind == 9;
    // only its data tells it apart
    let bare = matches!(kind, 5 | 6 | 10 | 12 | 13);
    if plain {
        return Look { kind, name: format!("dyn/{id}").into(), desc: None, meta: vec![], fmt: false, tag: !old, note: None };
    }
    let name: Cow<'static, str> = match b % 6 {
        0 => Cow::Borrowed(NAMES[(b >> 8) as usize % 4]),
        1 => format!("dup/{}", b >> 60).into(),
        2 => "x".repeat(1 + (b >> 8) as usize % if b >> 60 == 0 { 5000 } else { 200 }).into(),
        3 => String::new().into(),
        _ => format!("dyn/{id}").into(),
    };
    let desc: Option<Cow<'static, str>> = match (b >> 16) % 4 {
        0 => None,
        1 => Some(Cow::Borrowed("a static description")),
        2 => Some("".into()),
        _ => Some(format!("description of {id}").into()),
    };
    let mut meta = vec![];
    for k in 0..if (b >> 56) % 16 == 1 { 10 + (b >> 24) % 40 } else { (b >> 24) % 5 } {
        let key = match (b >> (28 + k % 5)) % 3 {
            0 => format!("key{k}"),
            1 => "unit".to_string(),
            _ => format!("k{id}"),
        };
        let value = match (b >> (44 + k % 12)) % 16 {
            0 => String::new(),
            1 => "with space".to_string(),
            2 => "größe/µ".to_string(),
            3 => "a, b={c}".to_string(),
            4 => "w".repeat(1 + (id % 300) as usize),
            _ => format!("v{id}-{k}"),
        };
        meta.push((key, value));
    }
    if old {
        return Look { kind, name, desc, meta: vec![], fmt: false, tag: false, note: None };
    }
    Look { kind, name, desc, meta, fmt: (b >> 40) % 2 == 0, tag: bare || (b >> 41) % 2 == 0, note: if (b >> 42) % 2 == 0 { Some(format!("note {id}")) } else { None } }
}

pub fn dyn_fmt(e: &m::MetricEntry, f: m::Format) -> String {
    let i = id_of(e).unwrap_or(0);
    if pan_fmt(i) {
        panic!("injected formatter panic");
    }
    match f {
        m::Format::Simple => format!("fmt:{}:{i}", m::e_name(e)),
        _ => format!("prom_{i}"),
    }
}

fn nop() {}

fn spec_of(id: u64, style: u64) -> m::Spec {
    let l = look(id, style);
    m::Spec {
        name: l.name,
        desc: l.desc,
        meta: l.meta,
        fmt: if l.fmt { Some(dyn_fmt) } else { None },
        tag: if l.tag { Some(id) } else { None },
        note: l.note,
    }
}
/// Where the live metrics are, as their owners see them.
static mut AT: Vec<(u64, *const dyn m::Metric)> = Vec::new();

pub fn build(id: u64, style: u64) -> m::Handle {
    let h = build_it(id, style);
    for (i, d) in ids_of(id, style).iter().enumerate() {
        let p = m::h_dyn(&h, i) as *const dyn m::Metric;
        host_scope(|| unsafe { AT.push((id + d, p)) });
    }
    h
}
fn build_it(id: u64, style: u64) -> m::Handle {
    let spec = spec_of(id, style);
    match style % KINDS {
        0 => m::build(spec, m::Inner::P(m::Probe::make(id))),
        1 => m::build_pinned(spec, m::Inner::P(m::Probe::make(id)), nop, true),
        2 => m::build(spec, m::Inner::C(m::c_new(id))),
        3 => m::build_pinned(spec, m::Inner::C(m::c_new(id)), nop, true),
        4 => m::build(spec, m::Inner::G(m::g_new(id as i64))),
        5 => m::build(spec, m::Inner::H(m::h_new(1, 5))),
        7 => m::build_row([spec, spec_of(id + ROW[1], style), spec_of(id + ROW[2], style)], [id, id + ROW[1], id + ROW[2]]),
        8 => m::build_old_boxed(spec, m::c_new(id)),
        9 => m::build_old_pinned(spec, m::Probe::make(id)),
        10 => m::build(spec, m::Inner::Z(m::Zero)),
        11 => m::build(spec, m::Inner::A(m::Aligned(m::c_new(id)))),
        12 => m::build(spec, m::Inner::LC(m::lcp_new(m::Counter::default))),
        13 => m::build_pinned(spec, m::Inner::Z(m::Zero), nop, true),
        14 => m::build_owner([spec, spec_of(id + ROW[1], style)], id, m::Probe::make(id + ROW[1])),
        15 => m::build_parting(spec, id, parting),
        _ => m::build(spec, m::Inner::O(m::Opaque(id))),
    }
}
/// In the destructor of a metric's data.
fn parting() {
    h::cov(24, 1);
    let v = m::view();
    reach(&list(&v, 0));
    m::view_close(v);
}

/// Which dynamic metric an entry leads to, from the metric itself.
pub fn id_of(e: &m::MetricEntry) -> Option<u64> {
    if let Some(p) = m::e_probe(e) {
        return Some(p);
    }
    match m::m_any(m::e_metric(e)) {
        Some(a) => {
            if let Some(c) = a.downcast_ref::<m::Counter>() {
                return Some(m::c_val(c));
            }
            if let Some(c) = a.downcast_ref::<m::Gauge>() {
                return Some(m::g_val(c) as u64);
            }
            if let Some(c) = a.downcast_ref::<m::Opaque>() {
                return Some(c.0);
            }
            if let Some(c) = a.downcast_ref::<m::Aligned>() {
                return Some(m::c_val(&c.0));
            }
            if let Some(c) = a.downcast_ref::<m::Owner>() {
                return Some(m::c_val(&c.n));
            }
        }
        // zero-sized or an unused lazy
        None => {}
    }
    m::e_tag(e)
}

// ------------------------------------------------------------ generation
/// params: preregistered count, style of those, metrics that came and went before, their seed
pub fn gen(r: &mut Rng, prop: u64) -> Prog {
    let plain = !matches!(prop, 11 | 23) && r.chance(3, 4);
    let mut sty = |r: &mut Rng| r.below(KINDS) + if plain { 0 } else { KINDS };
    let pre = match r.below(10) {
        0 | 1 => 0,
        2 if r.chance(1, 12) => 100 + if r.chance(1, 6) { 420 + r.below(300) } else { r.below(200) },
        2 => 12 + r.below(48),
        _ => 1 + r.below(4),
    };
    let mut p = vec![pre];
    for _ in 0..pre {
        p.push(sty(r));
    }
    // metrics registered and dropped again before the program starts
    let past = match r.below(600) {
        0 if pre < 12 => 66_000 + r.below(3000),
        1..=8 => 300 + r.below(2000),
        9..=60 => 1 + r.below(200),
        _ => 0,
    };
    p.extend([past, r.next()]);
    let nt = if r.chance(1, 12) { 1 } else { 2 + r.below(3) };
    let nt = if prop == 10 && r.chance(1, 4) { 1 } else { nt };
    let long = pre < 100 && r.chance(1, 50);
    let nt = if long { nt.min(3) } else { nt };
    let mut th = vec![];
    for t in 0..nt {
        let mut v = vec![];
        let reader = t > 0 && r.chance(1, 3);
        for i in 0..h::ops(r, 6, long) {
            let id = (t + 1) * 1000 + i;
            let slot = if pre > 0 && r.chance(1, 3) { SLOTS + r.below(pre) } else { r.below(SLOTS) };
            let own = r.below(SLOTS);
            let x = r.below(20);
            let x = if reader { 11 + x % 9 } else { x };
            v.push(match x {
                0..=5 => Op::new("new", &[own, id, sty(r)]),
                6..=9 => Op::new("drop", &[slot]),
                10 => match prop {
                    7 | 9 => Op::new("hpanic", &[slot]),
                    8 if r.chance(1, 2) => Op::new("hpanic", &[slot]),
                    11 => Op::new("rereg", &[slot, id]),
                    _ => Op::new("use", &[slot]),
                },
                11..=13 => Op::new("view", &[r.below(6), r.below(3), r.below(8)]),
                14 | 15 => match prop {
                    10 => Op::new("walk", &[r.next() >> 16]),
                    11 => Op::new("inspect", &[r.below(4)]),
                    23 => Op::new("format", &[r.below(4), r.below(3)]),
                    9 => Op::new("vpanic", &[r.below(4), r.below(3)]),
                    8 => Op::new("inspect", &[1 + r.below(5)]),
                    7 if r.chance(1, 4) => Op::new("vpanic", &[r.below(4), r.below(3)]),
                    _ => Op::new("view", &[r.below(6), r.below(3), r.below(8)]),
                },
                16 | 17 => match prop {
                    10 => Op::new("walk", &[r.next() >> 16]),
                    11 => Op::new("inspect", &[r.below(4)]),
                    23 => Op::new("format", &[r.below(4), r.below(3)]),
                    9 => Op::new("spanic", &[r.below(3), r.below(12)]),
                    _ => Op::new("view", &[r.below(6), r.below(3), r.below(8)]),
                },
                18 => Op::new("snap", &[r.below(3)]),
                19 if r.chance(1, 3) => Op::new("unreg", &[id, r.below(3)]),
                19 if r.chance(1, 2) => Op::new("churn", &[CHURN + id * 8, sty(r), 2 + r.below(3), if prop == 23 { 2 + r.below(2) } else { r.below(2) }]),
                _ => Op::new("use", &[slot]),
            });
        }
        th.push(v);
    }
    Prog { fam: "reg".into(), p, th }
}

// ------------------------------------------------------------ world
struct Open {
    view: u64,
    ids: Vec<u64>,
}
static mut SLOT: Vec<Option<(u64, u64, m::Handle)>> = Vec::new(); // id, style, handle
static mut PRE: Vec<u64> = Vec::new();
static mut STYLE: Vec<(u64, u64)> = Vec::new();
static mut OPEN: Vec<Open> = Vec::new();
static mut DEAD: Vec<u64> = Vec::new();
static mut NVIEW: u64 = 0;
/// Snapshotters shared by all threads: without a filter, and with one.
static mut SHARED: Vec<m::Snapshotter> = Vec::new();
/// What must panic, per thread: 1 = value(), 2 = formatter, 3 = filter; countdown.
static mut ARM: [(u64, u64); 8] = [(0, 0); 8];
static mut RENAMED: Vec<(u64, u64, u64, u64)> = Vec::new(); // id, new id (name), inv, res

fn fire(kind: u64) -> bool {
    unsafe {
        let a = &mut ARM[detrt::cur()];
        if a.0 != kind {
            return false;
        }
        if a.1 > 0 {
            a.1 -= 1;
            return false;
        }
        a.0 = 0;
        true
    }
}
fn pan_fmt(_id: u64) -> bool {
    detrt::yield_point();
    if fire(2) {
        h::cov(7, 1);
        return true;
    }
    false
}

fn on_value(id: u64) {
    if id == u64::MAX {
        bad("corrupted-metric", "a view reached a metric whose contents are no longer those it was built with".into());
    }
    if host_scope(|| unsafe { DEAD.contains(&id) }) {
        bad("dead-metric-reached", format!("a view reached metric {id} after its destructor had started"));
    }
    detrt::yield_point();
    if fire(1) {
        h::cov(5, 1);
        panic!("injected value() panic");
    }
}
fn on_drop(id: u64) {
    h::cov(10, 1);
    unsafe {
        for o in OPEN.iter() {
            if o.ids.contains(&id) {
                bad("destroyed-under-view", format!("the destructor of metric {id} started while view {} that lists it is open", o.view));
            }
        }
        if DEAD.contains(&id) {
            bad("destroyed-twice", format!("the destructor of metric {id} ran twice"));
        }
        host_scope(|| DEAD.push(id));
    }
    detrt::yield_point();
}
fn filter_yield(_e: &m::MetricEntry) -> bool {
    h::cov(18, 1);
    detrt::yield_point();
    if fire(3) {
        h::cov(6, 1);
        panic!("injected filter panic");
    }
    true
}

pub fn exec(p: &'static Prog) {
    unsafe {
        m::HOOKS = m::Hooks { value: on_value, dropped: on_drop };
        host_scope(|| {
            SLOT = Vec::with_capacity(1024);
            OPEN = Vec::with_capacity(16);
            DEAD = Vec::with_capacity(2048);
            STYLE = Vec::with_capacity(2048);
            PRE = Vec::with_capacity(2048);
            AT = Vec::with_capacity(2048);
            RENAMED = Vec::with_capacity(512);
        });
        for _ in 0..SLOTS {
            SLOT.push(None);
        }
        for f in [None, Some(filter_yield as fn(&m::MetricEntry) -> bool)] {
            SHARED.push(m::snapshotter(f, &[("node".to_string(), "a".to_string())]));
        }
        let pre = p.param(0);
        if pre >= 12 {
            h::cov(16, 1);
        }
        let past = p.param(1 + pre as usize).min(if detrt::alloc::reusing() { 100_000 } else { 3_000 });
        h::cov(23, past);
        let mut r = Rng::new(p.param(2 + pre as usize));
        let mut live: Vec<m::Handle> = Vec::with_capacity(64);
        let mut k = 0;
        while k < past {
            if live.len() >= 60 || !live.is_empty() && r.chance(1, 2) {
                let x = r.below(live.len() as u64) as usize;
                m::drop_handle(live.swap_remove(x));
                continue;
            }
            if k == past.min(40) / 2 {
                prereg(p, pre);
            }
            live.push(m::build(m::Spec { name: "past".into(), desc: None, meta: vec![], fmt: None, tag: Some(0), note: None }, m::Inner::C(m::c_new(k))));
            k += 1;
        }
        drop(live);
        if past == 0 {
            prereg(p, pre);
        }
        for t in &p.th {
            for o in t.iter().filter(|o| o.n == "churn") {
                for id in o.arg(0)..o.arg(0) + o.arg(2) {
                    for d in ids_of(id, o.arg(1)) {
                        STYLE.push((id + d, o.arg(1)));
                    }
                }
            }
            for o in t.iter().filter(|o| o.n == "new") {
                for d in ids_of(o.arg(1), o.arg(2)) {
                    STYLE.push((o.arg(1) + d, o.arg(2)));
                }
            }
        }
        h::run_threads(p, step);
        detrt::run(vec![Box::new(|| {
            if let Err(e) = h::guarded(epilogue) {
                bad("panic", format!("a registry operation after the run panicked: {e}"));
            }
        })]);
        check();
    }
}

fn prereg(p: &'static Prog, pre: u64) {
    unsafe {
        for k in 0..pre {
            let st = p.param(1 + k as usize);
            let id = 1 + k;
            for d in ids_of(id, st) {
                STYLE.push((id + d, st));
                PRE.push(id + d);
            }
            SLOT.push(Some((id, st, build(id, st))));
        }
    }
}

fn epilogue() {
    let (t, i) = (0, 900);
    view_op(t, i, 0, 0, 0);
    unsafe { STYLE.push((LAST, 0)) };
    let q = begin(t, i);
    let hd = build(LAST, 0);
    q.end("reg", LAST, 0, 0);
    view_op(t, i, 0, 0, 2);
    let sn = m::snapshotter(None, &[]);
    let _ = m::snap(&sn);
    for sn in unsafe { SHARED.iter() } {
        let _ = m::snap(sn);
    }
    let q = begin(t, i);
    m::drop_handle(hd);
    q.end("del", LAST, 0, 0);
    view_op(t, i, 0, 0, 1);
}

fn take(slot: u64) -> Option<(u64, u64, m::Handle)> {
    let s = unsafe { SLOT.get_mut(slot as usize)? };
    let x = s.take();
    if x.is_some() {
        detrt::hb_acquire(slot as usize);
    }
    x
}
fn put(slot: u64, x: (u64, u64, m::Handle)) -> Option<(u64, u64, m::Handle)> {
    unsafe {
        if SLOT[slot as usize].is_some() {
            return Some(x);
        }
        detrt::hb_release(slot as usize);
        SLOT[slot as usize] = Some(x);
    }
    None
}
fn destroy(t: usize, i: usize, x: (u64, u64, m::Handle)) {
    h::cov(1, 1);
    if x.0 / 1000 != t as u64 + 1 {
        h::cov(11, 1);
    }
    let q = begin(t, i);
    m::drop_handle(x.2);
    ends(t, i, q.inv, "del", x.0, x.1);
}
/// Record that the metrics of a handle were registered or removed.
fn ends(t: usize, i: usize, inv: u64, k: &'static str, id: u64, style: u64) {
    for d in ids_of(id, style) {
        let p = Pend { t, i, inv };
        p.end(k, id + d, 0, 0);
    }
}

struct ViewGuard {
    view: Option<m::Metrics>,
    n: u64,
}
fn open(t: usize, i: usize) -> (ViewGuard, Pend) {
    h::cov(2, 1);
    let q = begin(t, i);
    let v = m::view();
    let n = unsafe {
        NVIEW += 1;
        NVIEW
    };
    (ViewGuard { view: Some(v), n }, q)
}
impl Drop for ViewGuard {
    fn drop(&mut self) {
        // From here on the view is being closed: it lists nothing any more.
        unsafe { OPEN.retain(|o| o.view != self.n) };
        m::view_close(self.view.take().unwrap());
    }
}
fn is_static(v: &m::Metrics, e: &m::MetricEntry) -> bool {
    let s = m::v_statics(v);
    let r = s.as_ptr_range();
    let p = e as *const m::MetricEntry;
    r.start <= p && p < r.end
}
/// The dynamic metrics of a view, by one way of listing it.
fn list(v: &m::Metrics, mode: u64) -> Vec<u64> {
    let mut ids: Vec<u64> = host_scope(|| Vec::with_capacity(512));
    let mut statics = 0usize;
    let mut seen = |e: &m::MetricEntry, ids: &mut Vec<u64>| {
        if is_static(v, e) {
            statics += 1;
            return;
        }
        match id_of(e) {
            Some(id) => host_scope(|| ids.push(id)),
            None => bad("anonymous-entry", format!("an entry named {:?} leads to no known metric", m::e_name(e))),
        }
    };
    let mut all = true;
    match mode {
        0 => {
            let mut it = m::v_iter(v);
            while let Some(e) = m::i_next(&mut it) {
                seen(e, &mut ids);
            }
        }
        1 => m::v_for(v, &mut |e| seen(e, &mut ids)),
        2 => m::i_fold(m::v_iter(v), &mut |e| seen(e, &mut ids)),
        3 => {
            m::i_rfold(m::v_iter(v), &mut |e| seen(e, &mut ids));
            ids.reverse();
        }
        4 => {
            let mut it = m::v_iter(v);
            while let Some(e) = m::i_next_back(&mut it) {
                seen(e, &mut ids);
            }
            ids.reverse();
        }
        5 => {
            all = false;
            let mut it = m::v_dyn(v);
            while let Some(e) = m::d_next(&mut it) {
                seen(e, &mut ids);
            }
        }
        6 => {
            all = false;
            m::d_fold(m::v_dyn(v), &mut |e| seen(e, &mut ids));
        }
        _ => {
            all = false;
            m::d_rfold(m::v_dyn(v), &mut |e| seen(e, &mut ids));
            ids.reverse();
        }
    }
    let want = if all { m::STATICS.len() } else { 0 };
    if statics != want {
        bad("statics", format!("a listing yields {statics} static metrics instead of {want}"));
    }
    ids
}
fn reach(ids: &[u64]) {
    for id in ids {
        if unsafe { DEAD.contains(id) } {
            bad("dead-metric-reached", format!("a view lists metric {id} whose destructor has started"));
        }
    }
}

fn view_op(t: usize, i: usize, hold: u64, relist: u64, mode: u64) {
    let (g, q) = open(t, i);
    let end = begin(t, i).inv; // the opening ended here
    let v = g.view.as_ref().unwrap();
    let ids = list(v, mode);
    reach(&ids);
    host_scope(|| unsafe { OPEN.push(Open { view: g.n, ids: ids.clone() }) });
    q.endv("view", g.n, end, 0, &ids);
    for k in 0..relist + 1 {
        for _ in 0..hold {
            detrt::yield_point();
        }
        if k == relist && hold == 0 {
            break;
        }
        h::cov(3, 1);
        let again = list(v, (mode + 3 * k + 1) % 8);
        reach(&again);
        if again != ids {
            bad("view-changed", format!("view {} first listed {:?} and later {:?}", g.n, ids, again));
        }
    }
    drop(g);
    host_scope(|| drop(ids));
}

fn step(t: usize, i: usize, op: &'static Op) {
    match op.n.as_str() {
        "new" => {
            let (slot, id, st) = (op.arg(0), op.arg(1), op.arg(2));
            if unsafe { SLOT[slot as usize].is_some() } {
                return;
            }
            h::cov(0, 1);
            let q = begin(t, i);
            let hd = build(id, st);
            ends(t, i, q.inv, "reg", id, st);
            if let Some(x) = put(slot, (id, st, hd)) {
                destroy(t, i, x);
            }
        }
        "drop" => {
            if let Some(x) = take(op.arg(0)) {
                destroy(t, i, x);
            }
        }
        "use" => {
            if let Some(x) = take(op.arg(0)) {
                if let Some(c) = m::h_counter(&x.2) {
                    if m::c_val(c) != x.0 {
                        bad("corrupted-metric", format!("metric {} reports {} to its owner", x.0, m::c_val(c)));
                    }
                }
                if let Some(c) = m::h_probe(&x.2) {
                    if c.id != x.0 {
                        bad("corrupted-metric", format!("metric {} is {} to its owner", x.0, c.id));
                    }
                }
                detrt::yield_point();
                if let Some(x) = put(op.arg(0), x) {
                    destroy(t, i, x);
                }
            }
        }
        "rereg" => {
            if let Some(x) = take(op.arg(0)) {
                let nid = op.arg(1);
                let name = format!("renamed/{nid}");
                let k = look(x.0, x.1).kind;
                if matches!(k, 1 | 3 | 9 | 13) {
                    h::cov(12, 1);
                    let at = host_scope(|| unsafe {
                        RENAMED.push((x.0, nid, detrt::seq(), u64::MAX));
                        RENAMED.len() - 1
                    });
                    m::reregister(&x.2, name);
                    unsafe { RENAMED[at].3 = detrt::seq() };
                }
                if let Some(x) = put(op.arg(0), x) {
                    destroy(t, i, x);
                }
            }
        }
        "hpanic" => {
            if let Some(x) = take(op.arg(0)) {
                h::cov(9, 1);
                let (id, st) = (x.0, x.1);
                let q = begin(t, i);
                let r = h::guarded(move || {
                    let _held = x;
                    detrt::yield_point();
                    panic!("injected panic holding a handle");
                });
                ends(t, i, q.inv, "del", id, st);
                assert!(r.is_err());
            }
        }
        "view" => view_op(t, i, op.arg(0), op.arg(1), op.arg(2)),
        "vpanic" => {
            h::cov(8, 1);
            let _ = h::guarded(|| {
                let (g, q) = open(t, i);
                let end = begin(t, i).inv;
                let v = g.view.as_ref().unwrap();
                let ids = list(v, op.arg(1));
                reach(&ids);
                host_scope(|| unsafe { OPEN.push(Open { view: g.n, ids: ids.clone() }) });
                q.endv("view", g.n, end, 0, &ids);
                for _ in 0..op.arg(0) {
                    detrt::yield_point();
                }
                panic!("injected panic holding a view");
            });
        }
        "snap" => {
            h::cov(4, 1);
            let own = if op.arg(0) < 2 { None } else { Some(m::snapshotter(Some(filter_yield), &[])) };
            let q = begin(t, i);
            let s = m::snap(own.as_ref().unwrap_or_else(|| unsafe { &SHARED[op.arg(0) as usize] }));
            q.end("snap", 0, 0, 0);
            drop(s);
        }
        "spanic" => {
            h::cov(4, 1);
            unsafe { ARM[t] = (1 + op.arg(0), op.arg(1)) };
            let own = if op.arg(1) % 3 == 0 { Some(m::snapshotter(Some(filter_yield), &[])) } else { None };
            let _ = h::guarded(|| m::snap(own.as_ref().unwrap_or_else(|| unsafe { &SHARED[1] })));
            unsafe { ARM[t] = (0, 0) };
        }
        "unreg" => {
            // built, never registered, dropped: nobody may notice
            let id = op.arg(0);
            let inner = match op.arg(1) {
                0 => m::Inner::C(m::c_new(id)),
                1 => m::Inner::P(m::Probe::make(id)),
                _ => m::Inner::Z(m::Zero),
            };
            let hd = m::build_pinned(spec_of(id, 3), inner, detrt::yield_point, false);
            detrt::yield_point();
            m::drop_handle(hd);
            h::cov(19, 1);
        }
        "churn" => {
            // metrics that live only as long as one look at the registry
            for id in op.arg(0)..op.arg(0) + op.arg(2) {
                let st = op.arg(1);
                h::cov(22, 1);
                let q = begin(t, i);
                let hd = build(id, st);
                ends(t, i, q.inv, "reg", id, st);
                match op.arg(3) {
                    0 => view_op(t, i, 0, 0, id % 6),
                    1 => inspect_op(t, i, 0),
                    2 => format_op(t, i, 0, id % 3),
                    _ => format_one(t, i, id, id % 3),
                }
                let q = begin(t, i);
                m::drop_handle(hd);
                ends(t, i, q.inv, "del", id, st);
            }
        }
        "walk" => walk_op(t, i, op.arg(0)),
        "inspect" => inspect_op(t, i, op.arg(0)),
        "format" => format_op(t, i, op.arg(0), op.arg(1)),
        _ => {}
    }
}

// ------------------------------------------------------------ membership
fn check() {
    let pre: &[u64] = unsafe { &PRE };
    let evs = h::evs();
    // Every metric is registered once and removed at most once, so the live set
    // is a function of which operations have taken effect.
    let mut ops: Vec<&h::Ev> = evs.iter().filter(|e| matches!(e.k, "reg" | "del" | "view")).collect();
    ops.sort_by_key(|e| e.inv);
    let dedup = h::prop() == "C11";
    let mut iv = vec![];
    for e in &ops {
        // a view's place in the order is within its opening call
        iv.push(if e.k == "view" { (e.inv, e.a) } else { (e.inv, e.res) });
    }
    for v in ops.iter().filter(|e| e.k == "view") {
        if ops.iter().any(|o| o.k != "view" && o.inv < v.a && v.inv < o.res) {
            h::cov(17, 1);
        }
    }
    let want: Vec<Option<Vec<u64>>> = ops
        .iter()
        .map(|e| {
            if e.k != "view" {
                return None;
            }
            let mut v = e.v.clone();
            v.sort_unstable();
            let n = v.len();
            v.dedup();
            if v.len() != n && !dedup {
                bad("listed-twice", format!("view {} lists a metric twice: {:?}", e.o, e.v));
            }
            Some(v)
        })
        .collect();
    let state = |mask: &h::Set| -> Vec<u64> {
        let mut s: Vec<u64> = pre.to_vec();
        for (i, e) in ops.iter().enumerate() {
            if mask.has(i) && e.k == "reg" {
                s.push(e.o);
            }
        }
        for (i, e) in ops.iter().enumerate() {
            if mask.has(i) && e.k == "del" {
                s.retain(|x| *x != e.o);
            }
        }
        s.sort_unstable();
        s
    };
    let ok = |i: usize, s: &Vec<u64>| want[i].as_ref().is_none_or(|w| w == s);
    if !h::linearizable_by(&iv, state, ok) {
        // name the first view that cannot be explained on its own, if any
        let mut hint = String::new();
        for v in ops.iter().filter(|e| e.k == "view") {
            for id in &v.v {
                let del = ops.iter().find(|e| e.k == "del" && e.o == *id);
                let reg = ops.iter().find(|e| e.k == "reg" && e.o == *id);
                if del.is_some_and(|d| d.res < v.inv) || reg.is_some_and(|r| r.inv > v.a) {
                    hint = format!("; view {} at [{}..{}] lists {id}, which was not live then", v.o, v.inv, v.a);
                }
            }
            let born: Vec<(u64, u64)> = pre.iter().map(|i| (*i, 0)).chain(ops.iter().filter(|e| e.k == "reg").map(|e| (e.o, e.res))).collect();
            for (id, at) in born {
                let del = ops.iter().find(|e| e.k == "del" && e.o == id);
                if at < v.inv && !del.is_some_and(|d| d.inv < v.a) && !v.v.contains(&id) {
                    hint = format!("; view {} at [{}..{}] misses {id}, which was live throughout", v.o, v.inv, v.a);
                }
            }
        }
        bad("registry-not-linearizable", format!("no single order of registrations, removals and view openings explains the listings{hint}"));
    }
}

// ------------------------------------------------------------ walks
fn walk_op(t: usize, i: usize, seed: u64) {
    h::cov(13, 1);
    let mut r = Rng::new(seed);
    let (g, q) = open(t, i);
    let end = begin(t, i).inv;
    let v = g.view.as_ref().unwrap();
    let ids = list(v, 5);
    host_scope(|| unsafe { OPEN.push(Open { view: g.n, ids: ids.clone() }) });
    q.endv("view", g.n, end, 0, &ids);
    // the reference sequence: static slice, then the dynamic metrics in order
    type P = *const m::MetricEntry;
    let mut refd: Vec<P> = host_scope(|| Vec::with_capacity(512));
    let mut it = m::v_dyn(v);
    while let Some(e) = m::d_next(&mut it) {
        host_scope(|| refd.push(e));
    }
    let mut refa: Vec<P> = host_scope(|| Vec::with_capacity(512));
    let statics = m::v_statics(v);
    host_scope(|| {
        refa.extend(statics.iter().map(|e| e as P));
        refa.extend(refd.iter());
    });
    let fail = |what: &str, lo: usize, hi: usize| -> ! {
        bad("walk-differs", format!("{what} disagrees with the plain forward walk ({} static and {} dynamic metrics; {} items left, positions {lo}..{hi})", refa.len() - refd.len(), refd.len(), hi - lo))
    };
    macro_rules! walk {
        ($it:expr, $seq:expr, $next:path, $nb:path, $nth:path, $nthb:path, $size:path, $count:path, $fold:path, $rfold:path, $last:path) => {{
            let seq: &[P] = $seq;
            let mut it = $it;
            let (mut lo, mut hi) = (0usize, seq.len());
            let steps = r.below(2 + seq.len() as u64);
            for _ in 0..steps {
                h::cov(14, 1);
                let n = hi - lo;
                let (a, b) = $size(&it);
                if a > n || b.is_some_and(|b| b < n) {
                    fail(&format!("size_hint ({a}, {b:?})"), lo, hi);
                }
                let k = match r.below(8) {
                    0 => n + r.below(3) as usize,
                    1 | 2 => r.below(1 + n as u64) as usize,
                    3 => n.saturating_sub(1),
                    _ => r.below(3) as usize,
                };
                match r.below(6) {
                    0 | 1 => {
                        let w = if n > 0 { Some(seq[lo]) } else { None };
                        lo += (n > 0) as usize;
                        if $next(&mut it).map(|e| e as P) != w {
                            fail("next", lo, hi);
                        }
                    }
                    2 | 3 => {
                        let w = if n > 0 { Some(seq[hi - 1]) } else { None };
                        hi -= (n > 0) as usize;
                        if $nb(&mut it).map(|e| e as P) != w {
                            fail("next_back", lo, hi);
                        }
                    }
                    4 => {
                        let w = if k < n { Some(seq[lo + k]) } else { None };
                        let got = $nth(&mut it, k).map(|e| e as P);
                        if got != w {
                            fail(&format!("nth({k})"), lo, hi);
                        }
                        lo = (lo + k + 1).min(hi);
                    }
                    _ => {
                        let w = if k < n { Some(seq[hi - 1 - k]) } else { None };
                        let got = $nthb(&mut it, k).map(|e| e as P);
                        if got != w {
                            fail(&format!("nth_back({k})"), lo, hi);
                        }
                        hi = hi.saturating_sub(k + 1).max(lo);
                    }
                }
            }
            let n = hi - lo;
            let (a, b) = $size(&it);
            if a > n || b.is_some_and(|b| b < n) {
                fail(&format!("size_hint ({a}, {b:?})"), lo, hi);
            }
            match r.below(6) {
                0 => {
                    let mut p = lo;
                    $fold(it, &mut |e| {
                        if p >= hi || seq[p] != e as P {
                            fail("fold", lo, hi);
                        }
                        p += 1;
                    });
                    if p != hi {
                        fail("fold", lo, hi);
                    }
                }
                1 => {
                    let mut p = hi;
                    $rfold(it, &mut |e| {
                        if p <= lo || seq[p - 1] != e as P {
                            fail("rfold", lo, hi);
                        }
                        p -= 1;
                    });
                    if p != lo {
                        fail("rfold", lo, hi);
                    }
                }
                2 => {
                    let c = $count(it);
                    if c != n {
                        fail(&format!("count {c}"), lo, hi);
                    }
                }
                3 => {
                    let w = if n > 0 { Some(seq[hi - 1]) } else { None };
                    if $last(it).map(|e| e as P) != w {
                        fail("last", lo, hi);
                    }
                }
                _ => {
                    while lo < hi {
                        if r.chance(1, 2) {
                            if $next(&mut it).map(|e| e as P) != Some(seq[lo]) {
                                fail("next", lo, hi);
                            }
                            lo += 1;
                        } else {
                            if $nb(&mut it).map(|e| e as P) != Some(seq[hi - 1]) {
                                fail("next_back", lo, hi);
                            }
                            hi -= 1;
                        }
                    }
                    for k in 0..4 {
                        let x = match (k + seed) % 4 {
                            0 => $next(&mut it),
                            1 => $nb(&mut it),
                            2 => $nth(&mut it, (seed >> 7) as usize % 3),
                            _ => $nthb(&mut it, (seed >> 9) as usize % 3),
                        };
                        if x.is_some() {
                            fail("an exhausted walk", lo, hi);
                        }
                        let (a, b) = $size(&it);
                        if a > 0 || b.is_some_and(|b| b > 1_000_000) {
                            fail(&format!("size_hint ({a}, {b:?}) of an exhausted walk"), lo, hi);
                        }
                    }
                }
            }
        }};
    }
    for _ in 0..2 {
        walk!(m::v_iter(v), &refa, m::i_next, m::i_next_back, m::i_nth, m::i_nth_back, m::i_size, m::i_count, m::i_fold, m::i_rfold, m::i_last);
    }
    if m::d_len(&m::v_dyn(v)) != refd.len() {
        fail("len of the dynamic walk", 0, refd.len());
    }
    walk!(m::v_dyn(v), &refd, m::d_next, m::d_next_back, m::d_nth, m::d_nth_back, m::d_size, m::d_count, m::d_fold, m::d_rfold, m::d_last);
    drop(g);
}

// ------------------------------------------------------------ entries
fn inspect_op(t: usize, i: usize, hold: u64) {
    let (g, q) = open(t, i);
    let open_inv = q.inv;
    let end = begin(t, i).inv;
    let v = g.view.as_ref().unwrap();
    let ids = list(v, 5);
    reach(&ids);
    host_scope(|| unsafe { OPEN.push(Open { view: g.n, ids: ids.clone() }) });
    q.endv("view", g.n, end, 0, &ids);
    for _ in 0..hold {
        detrt::yield_point();
    }
    // statics
    for (k, e) in m::v_statics(v).iter().enumerate() {
        if k as u64 % 3 == hold % 3 {
            static_entry(e);
        }
    }
    let mut it = m::v_dyn(v);
    let mut named: Vec<(u64, String)> = vec![];
    while let Some(e) = m::d_next(&mut it) {
        h::cov(15, 1);
        if named.len() <= 2 * ids.len() {
            detrt::progress();
        }
        let Some(id) = id_of(e) else { bad("anonymous-entry", "an entry leads to no known metric".into()) };
        let Some(st) = (unsafe { STYLE.iter().find(|s| s.0 == id).map(|s| s.1) }) else {
            bad("unknown-metric", format!("an entry leads to metric {id}, which was never built"))
        };
        let l = look(id, st);
        // every (name, description) the metric may be registered under here
        let mut may: Vec<(String, Option<String>)> = vec![];
        let ren: Vec<(u64, u64, u64, u64)> = unsafe { RENAMED.iter().filter(|x| x.0 == id && x.2 < end).copied().collect() };
        let last_done = ren.iter().filter(|x| x.3 < open_inv).map(|x| x.3).max();
        if last_done.is_none() {
            may.push((l.name.to_string(), l.desc.as_ref().map(|d| d.to_string())));
        }
        for x in &ren {
            if last_done.is_none_or(|d| x.3 >= d) {
                may.push((format!("renamed/{}", x.1), None));
            }
        }
        let name = m::e_name(e);
        let desc = m::e_desc(e);
        let multi = unsafe { RENAMED.iter().any(|x| x.0 == id) };
        named.push((id, name.to_string()));
        if !multi && !may.iter().any(|x| x.0 == name && x.1.as_deref() == desc) {
            bad("wrong-identity", format!("the entry of metric {id} has name {name:?} and description {desc:?} instead of {:?} and {:?}", l.name, l.desc));
        }
        if multi {
            // the metric may keep older names as well: only insist on known ones
            let known = name == l.name && desc == l.desc.as_deref() || ren.iter().any(|x| name == format!("renamed/{}", x.1) && desc.is_none());
            if !known {
                bad("wrong-identity", format!("the entry of metric {id} has name {name:?} and description {desc:?}, which it was never registered under"));
            }
        }
        if l.kind == 9 {
            meta_entry(e, id, &[("own".to_string(), "probe".to_string())]);
        } else {
            meta_entry(e, id, &l.meta);
        }
        let probe = matches!(l.kind, 0 | 1 | 9);
        if m::e_tag(e) != if l.tag { Some(id) } else if probe { Some(id + 1_000_000) } else { None } {
            bad("wrong-data", format!("metric {id} provides typed data {:?}", m::e_tag(e)));
        }
        if m::e_note(e) != l.note.as_deref() {
            bad("wrong-data", format!("metric {id} provides typed data {:?} instead of {:?}", m::e_note(e), l.note));
        }
        if m::e_own(e) != if probe { Some(id) } else { None } {
            bad("wrong-data", format!("metric {id} provides {:?} by value", m::e_own(e)));
        }
        if m::e_slice(e).map(|s| s[0]) != if probe { Some(id) } else { None } {
            bad("wrong-data", format!("metric {id} provides the slice {:?}", m::e_slice(e)));
        }
        let at = unsafe { host_scope(|| AT.clone()) };
        let stride = 1 + at.len() / 24;
        for (x, (o, p)) in at.into_iter().enumerate() {
            if o != id && (x + named.len()) % stride != 0 {
                continue;
            }
            // others that this view keeps alive
            if ids.contains(&o) && (o == id) != m::e_is(e, unsafe { &*p }) {
                bad("wrong-identity", format!("the entry of metric {id} is{} that of metric {o} by MetricEntry::is", if o == id { " not" } else { "" }));
            }
        }
        if m::e_is_part(e) == Some(true) {
            bad("wrong-identity", format!("the entry of metric {id} is that of a counter inside metric {id} by MetricEntry::is"));
        }
        let f = m::e_fmt(e, false);
        let want = if l.fmt { format!("fmt:{name}:{id}") } else { name.to_string() };
        if f != want {
            bad("wrong-format", format!("metric {id} formats as {f:?} instead of {want:?}"));
        }
        if l.fmt {
            let f = m::e_fmt(e, true);
            if f != format!("prom_{id}") {
                bad("wrong-format", format!("metric {id} formats for Prometheus as {f:?} instead of \"prom_{id}\""));
            }
        }
        let okv = match (m::e_value(e), l.kind) {
            (m::Val::C(x), 0..=3 | 7..=9 | 11 | 14 | 15) => x == id,
            (m::Val::C(x), 10 | 13) => x == 77,
            (m::Val::None, 12) => true,
            (m::Val::G(x), 4) => x == id as i64,
            (m::Val::H(None), 5) => true,
            (m::Val::Other, 6) => true,
            _ => false,
        };
        if !okv || m::e_enabled(e) != (l.kind != 12) {
            bad("wrong-value", format!("the entry of metric {id} reports a value that is not its own"));
        }
    }
    // the latest completed name must be there
    for x in unsafe { RENAMED.iter() } {
        if x.3 < open_inv && ids.contains(&x.0) {
            let newer = unsafe { RENAMED.iter().any(|y| y.0 == x.0 && y.2 > x.2 && y.2 < end) };
            let want = format!("renamed/{}", x.1);
            if !newer && !named.iter().any(|n| n.0 == x.0 && n.1 == want) {
                bad("wrong-identity", format!("metric {} was last registered as {want:?} but no entry carries that name", x.0));
            }
        }
    }
    drop(g);
}

// ------------------------------------------------------------ text
fn format_one(t: usize, i: usize, id: u64, way: u64) {
    let (g, q) = open(t, i);
    let end = begin(t, i).inv;
    let v = g.view.as_ref().unwrap();
    let ids = list(v, 5);
    reach(&ids);
    host_scope(|| unsafe { OPEN.push(Open { view: g.n, ids: ids.clone() }) });
    q.endv("view", g.n, end, 0, &ids);
    let mut it = m::v_dyn(v);
    while let Some(e) = m::d_next(&mut it) {
        if id_of(e) == Some(id) {
            text_dyn(e, id, way);
        }
    }
    drop(g);
}

fn text_dyn(e: &m::MetricEntry, id: u64, way: u64) {
    let Some(st) = (unsafe { STYLE.iter().find(|s| s.0 == id).map(|s| s.1) }) else {
        bad("unknown-metric", format!("an entry leads to metric {id}, which was never built"))
    };
    let l = look(id, st);
    if l.kind == 9 {
        text_entry(e, &format!("metric {id}"), &l.name, &[("own".to_string(), "probe".to_string())], l.fmt, way);
    } else {
        text_entry(e, &format!("metric {id}"), &l.name, &l.meta, l.fmt, way);
    }
}

fn format_op(t: usize, i: usize, hold: u64, way: u64) {
    let (g, q) = open(t, i);
    let end = begin(t, i).inv;
    let v = g.view.as_ref().unwrap();
    let ids = list(v, 5);
    reach(&ids);
    host_scope(|| unsafe { OPEN.push(Open { view: g.n, ids: ids.clone() }) });
    q.endv("view", g.n, end, 0, &ids);
    for round in 0..1 + (hold == 3) as u64 {
        for _ in 0..hold {
            detrt::yield_point();
        }
        for (k, e) in m::v_statics(v).iter().enumerate() {
            let n = m::e_name(e);
            let Some(s) = m::STATICS.iter().find(|s| s.0 == n) else { bad("statics", format!("unknown static metric {n:?}")) };
            if (k as u64 + round) % 3 == hold % 3 {
                let meta: Vec<(String, String)> = s.2.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                text_entry(e, n, s.0, &meta, s.0 != s.3, way);
            }
        }
        let mut it = m::v_dyn(v);
        let mut n = 0;
        while let Some(e) = m::d_next(&mut it) {
            h::cov(20, 1);
            n += 1;
            if n <= 2 * ids.len() {
                detrt::progress();
            }
            let Some(id) = id_of(e) else { bad("anonymous-entry", "an entry leads to no known metric".into()) };
            text_dyn(e, id, way);
        }
    }
    drop(g);
}

/// Both formats of an entry against its name and metadata.
fn text_entry(e: &m::MetricEntry, who: &str, name: &str, meta: &[(String, String)], custom: bool, way: u64) {
    let mut want: Vec<(String, String)> = vec![];
    for (k, v) in meta {
        want.retain(|x| x.0 != *k);
        want.push((k.clone(), v.clone()));
    }
    want.sort();
    for w in 0..2 {
        // 0: as the entry formats itself, 1: the default formatter asked directly
        if w == 0 && custom || w == 1 && !custom && way != 0 {
            continue;
        }
        for prom in if way == 1 { [true, false] } else { [false, true] } {
            let f = if w == 0 { m::e_fmt(e, prom) } else { m::e_default_fmt(e, prom) };
            h::cov(21, 1);
            if !prom {
                if f != name {
                    bad("wrong-text", format!("{who} formats as {f:?} instead of {name:?}"));
                }
                continue;
            }
            let Some(mut got) = labels(&f, name) else {
                bad("wrong-text", format!("{who}, named {name:?} with metadata {want:?}, formats for Prometheus as {f:?}"));
            };
            got.sort();
            if got != want {
                bad("wrong-text", format!("{who}, named {name:?}, formats for Prometheus with the labels {got:?} instead of {want:?}"));
            }
        }
    }
}
/// The labels of `name{key="value", ...}` (or of a bare `name`: none). Values contain no quotes.
fn labels(s: &str, name: &str) -> Option<Vec<(String, String)>> {
    let s = s.strip_prefix(name)?;
    if s.is_empty() {
        return Some(vec![]);
    }
    let mut s = s.strip_prefix('{')?;
    let mut v = vec![];
    loop {
        let (k, rest) = s.split_once("=\"")?;
        let (val, rest) = rest.split_once('"')?;
        v.push((k.to_string(), val.to_string()));
        if rest == "}" {
            return Some(v);
        }
        s = rest.strip_prefix(',')?.trim_start_matches(' ');
    }
}

fn meta_entry(e: &m::MetricEntry, id: u64, meta: &[(String, String)]) {
    let mut want: Vec<(String, String)> = vec![];
    for (k, v) in meta {
        want.retain(|x| x.0 != *k);
        want.push((k.clone(), v.clone()));
    }
    want.sort();
    let mut got: Vec<(String, String)> = vec![];
    m::e_meta(e, &mut |k, v| got.push((k.to_string(), v.to_string())));
    got.sort();
    if got != want {
        bad("wrong-metadata", format!("metric {id} carries metadata {got:?} instead of {want:?}"));
    }
    match m::e_meta_ways(e) {
        None => bad("wrong-metadata", format!("metric {id}: stepping through the metadata disagrees with its length")),
        Some(w) => {
            for mut w in w {
                w.sort();
                if w != want {
                    bad("wrong-metadata", format!("metric {id}: another way of walking its metadata gives {w:?} instead of {want:?}"));
                }
            }
        }
    }
    let (n, em, c) = m::e_meta_len(e);
    if n != want.len() || em != want.is_empty() || c != want.len() {
        bad("wrong-metadata", format!("metric {id} reports {n} metadata entries (is_empty {em}, counted {c}) instead of {}", want.len()));
    }
    for (k, v) in &want {
        if m::e_meta_get(e, k) != Some(v.as_str()) || !m::e_meta_has(e, k) {
            bad("wrong-metadata", format!("metric {id}: looking up {k:?} gives {:?} instead of {v:?}", m::e_meta_get(e, k)));
        }
    }
    if m::e_meta_get(e, "no such key").is_some() || m::e_meta_has(e, "no such key") {
        bad("wrong-metadata", format!("metric {id} has a value for a key it was not given"));
    }
}

fn static_entry(e: &m::MetricEntry) {
    let n = m::e_name(e);
    let Some(s) = m::STATICS.iter().find(|s| s.0 == n) else { bad("statics", format!("unknown static metric {n:?}")) };
    if m::e_desc(e) != s.1 {
        bad("wrong-identity", format!("static metric {n:?} has description {:?}", m::e_desc(e)));
    }
    let meta: Vec<(String, String)> = s.2.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    meta_entry(e, 0, &meta);
    let f = m::e_fmt(e, false);
    if f != s.3 {
        bad("wrong-format", format!("static metric {n:?} formats as {f:?} instead of {:?}", s.3));
    }
    let ok = match (m::e_value(e), s.4) {
        (m::Val::C(_), 'c') | (m::Val::G(_), 'g') | (m::Val::H(_), 'h' | 'b') | (m::Val::Other, 'o') => m::e_enabled(e),
        (m::Val::None, 'C' | 'G') => !m::e_enabled(e),
        _ => false,
    };
    if !ok {
        bad("wrong-value", format!("static metric {n:?} reports a value of the wrong kind"));
    }
}
