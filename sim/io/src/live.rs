//! C21: a process that updates metrics, takes snapshots on a simulated clock
//! and appends them to a simulated disk, crashing and restarting; then the
//! intact part of the recording is converted.
use crate::dev::{self, cov, perturb, plan, st, Clock};
use crate::props::{check_good, convert_bytes};
use crate::rng::Rng;
use crate::run::{fail, with_seed};
use crate::scen::*;
use metriken::*;
use metriken_exposition as mx;

#[metric(name = "static/counter", description = "a static counter", metadata = { unit = "ops" })]
static S_COUNTER: Counter = Counter::new();
#[metric(name = "static/gauge")]
static S_GAUGE: Gauge = Gauge::new();
#[metric(name = "static/lazy", metadata = { metric = "lazyname", id = "7", op = "read" })]
static S_LAZY: LazyCounter = LazyCounter::new(Counter::default);

enum Live {
    C(DynBoxedMetric<Counter>),
    G(DynBoxedMetric<Gauge>),
    H(DynBoxedMetric<AtomicHistogram>),
    R(DynBoxedMetric<RwLockHistogram>),
    P(std::pin::Pin<Box<DynPinnedMetric<Counter>>>),
}

struct Slot {
    live: Live,
    model: Met,
    hist: Vec<u64>,
    recorded: bool,
}

const SLOTS: usize = 120;

pub fn gen21(r: &mut Rng) -> Scen {
    let mut s = base(r, "C21");
    s.snaps.clear();
    s.extra.clear();
    s.mode = "live".into();
    s.aux = vec![r.next() >> 8];
    let (n, k) = match r.below(60) {
        0 => (400 + r.below(2000), 6),
        1 => (200 + r.below(300), SLOTS as u64),
        2 => (400, 20),
        _ => (5 + r.below(60), 6),
    };
    if n > 100 {
        for f in [&mut s.inp, &mut s.out] {
            f.max = if f.seed == 0 { 0 } else { f.max.max(300) };
        }
        s.batch = s.batch.max(*r.pick(&[50, 1000]));
    }
    for _ in 0..n {
        let slot = r.below(k);
        let op = match r.below(20) {
            0..=3 => ("new", slot, r.next() >> 8),
            4..=9 => ("upd", slot, r.next() >> 8),
            10 => ("drop", slot, 0),
            11 => ("supd", r.below(3), r.next() >> 8),
            12 => ("tick", r.below(1 << 36), r.below(8)),
            13..=16 => ("snap", 0, 0),
            17 | 18 => ("sync", 0, 0),
            _ if n > 100 && r.chance(3, 4) => ("snap", 0, 0),
            _ => ("crash", r.next() >> 8, 0),
        };
        s.ops.push((op.0.to_string(), op.1, op.2));
    }
    s
}

fn build(slot: u64, x: u64) -> Slot {
    let mut r = Rng::new(x);
    let kind = r.below(5);
    let name = format!("m/{slot}");
    let mut meta: Meta = vec![];
    let mut b = MetricBuilder::new(name.clone());
    for k in ["unit", "alpha", "op", "id"] {
        if r.chance(1, 4) {
            let v = format!("{k}{}", r.below(2));
            b = b.metadata(k, v.clone());
            meta.push((k.into(), v));
        }
    }
    if r.chance(1, 4) {
        let v = format!("named{slot}");
        b = b.metadata("metric", v.clone());
        meta.push(("metric".into(), v));
    }
    if r.chance(1, 2) {
        let d = format!("described {}", r.below(2));
        b = b.description(d.clone());
        meta.push(("description".into(), d));
    }
    let mut mk = 0;
    let mut h = None;
    let live = match kind {
        0 => Live::C(b.build(Counter::new())),
        1 => {
            mk = 1;
            Live::G(b.build(Gauge::new()))
        }
        2 | 3 => {
            mk = 2;
            let (g, m) = [(0u8, 4u8), (2, 8), (3, 64)][r.below(3) as usize];
            h = Some((g, m, vec![]));
            meta.push(("grouping_power".into(), g.to_string()));
            meta.push(("max_value_power".into(), m.to_string()));
            if kind == 2 {
                Live::H(b.build(AtomicHistogram::new(g, m)))
            } else {
                Live::R(b.build(RwLockHistogram::new(g, m)))
            }
        }
        _ => {
            let (p, e) = b.build_pinned(Counter::new());
            let p = Box::pin(p);
            p.as_ref().register(e);
            Live::P(p)
        }
    };
    let n = h.as_ref().map_or(0, |(g, m, _): &(u8, u8, Vec<(usize, u64)>)| total(*g, *m));
    Slot { live, model: Met { kind: mk, name, meta, v: 0, h }, hist: vec![0; n], recorded: false }
}

/// Which bucket covers a value.
fn bucket(g: u8, v: u64) -> usize {
    let lin = 1u64 << (g + 1);
    if v < lin {
        return v as usize;
    }
    let p = 63 - v.leading_zeros() as u64;
    (lin + (p - g as u64 - 1) * (1 << g) + ((v - (1 << p)) >> (p - g as u64))) as usize
}

fn update(s: &mut Slot, x: u64) {
    let mut r = Rng::new(x);
    match &s.live {
        Live::C(_) | Live::P(_) => {
            let c: &Counter = match &s.live {
                Live::C(c) => c,
                Live::P(p) => p,
                _ => unreachable!(),
            };
            if r.chance(1, 4) {
                s.model.v = big(&mut r);
                c.set(s.model.v);
            } else {
                let d = big(&mut r);
                c.add(d);
                s.model.v = s.model.v.wrapping_add(d);
            }
        }
        Live::G(g) => {
            let d = big(&mut r);
            match r.below(3) {
                0 => {
                    g.set(d as i64);
                    s.model.v = d
                }
                1 => {
                    g.add(d as i64);
                    s.model.v = s.model.v.wrapping_add(d)
                }
                _ => {
                    g.sub(d as i64);
                    s.model.v = s.model.v.wrapping_sub(d)
                }
            }
        }
        Live::H(h) => {
            let (g, m, _) = s.model.h.clone().unwrap();
            let (g, m) = (&g, &m);
            let v = big(&mut r);
            let max = if *m == 64 { u64::MAX } else { (1u64 << m) - 1 };
            let v = v.min(max);
            h.increment(v).unwrap_or_else(|e| fail("update", &format!("value {v} refused: {e}")));
            let i = bucket(*g, v);
            s.hist[i] += 1;
            s.recorded = true;
        }
        Live::R(h) => {
            for b in s.hist.iter_mut() {
                if r.chance(1, 5) {
                    *b = big(&mut r);
                }
            }
            h.update_from(&s.hist).unwrap_or_else(|e| fail("update", &format!("bulk update refused: {e}")));
            s.recorded = true;
        }
    }
}

pub fn exec21(sc: &Scen) {
    plan(&sc.inp, &sc.out, &[]);
    let mut r = Rng::new(sc.aux[0]);
    let t0 = 1_600_000_000_000_000_000 + r.below(1 << 55);
    st().clock = Some(Clock { now: t0, log: vec![] });
    let recording = with_seed(sc.hseed ^ 1, || record(sc, &mut r));
    st().clock = None;
    let (data, want) = recording;
    let mut sc2 = sc.clone();
    sc2.snaps = want;
    plan(&sc.inp, &sc.out, &[]);
    let (res, w) = convert_bytes(&sc2, data);
    check_good("conversion of what survived", &res, &w.bytes(), &sc2.snaps, &sc2);
}

fn record(sc: &Scen, r: &mut Rng) -> (Vec<u8>, Vec<Snap>) {
    let mut slots: Vec<Option<Slot>> = (0..SLOTS).map(|_| None).collect();
    let mut stat = [0u64; 3];
    let mut lazy = false;
    // the disk: synced bytes, and what was written since
    let mut durable: Vec<u8> = vec![];
    let mut dirty: Vec<u8> = vec![];
    // every snapshot in the file, with the offset of its end
    let mut written: Vec<(usize, Snap)> = vec![];
    let mut snapper = snapshotter(sc);
    let mut ops = sc.ops.clone();
    ops.push(("sync".into(), 0, 0));
    for (op, a, b) in &ops {
        dev::trace(*a ^ b.rotate_left(32));
        {
            let mut s = st();
            let d = r.below(1_000_000);
            s.cnt[dev::name("simulated_ns")] += d;
            s.clock.as_mut().unwrap().now += d;
        }
        match op.as_str() {
            "new" => {
                slots[*a as usize] = None;
                slots[*a as usize] = Some(build(*a, *b));
                cov("metrics_created", 1);
            }
            "upd" => {
                if let Some(s) = &mut slots[*a as usize] {
                    update(s, *b)
                }
            }
            "drop" => {
                if slots[*a as usize].take().is_some() {
                    cov("metrics_dropped", 1);
                }
            }
            "supd" => {
                let i = *a as usize;
                stat[i] = stat[i].wrapping_add(*b);
                match i {
                    0 => drop(S_COUNTER.add(*b)),
                    1 => drop(S_GAUGE.add(*b as i64)),
                    _ => {
                        S_LAZY.add(*b);
                        lazy = true;
                    }
                }
            }
            "tick" => {
                let mut s = st();
                if *b == 0 {
                    s.cnt[dev::name("clock_steps_back")] += 1;
                    let c = s.clock.as_mut().unwrap();
                    c.now -= (*a).min(c.now / 2);
                } else {
                    s.cnt[dev::name("simulated_ns")] += *a;
                    s.clock.as_mut().unwrap().now += *a;
                }
            }
            "snap" => {
                st().clock.as_mut().unwrap().log.clear();
                let sn = snapper.snapshot();
                let log = st().clock.as_ref().unwrap().log.clone();
                let got = unreal(&sn).unwrap_or_else(|e| fail("snapshot", &e));
                let t = got.ts.0 * 1_000_000_000 + got.ts.1 as u64;
                if !log.contains(&t) {
                    fail("timestamp", &format!("a snapshot is stamped {t}, the clock was read as {log:?}"));
                }
                let mut want = Snap { v2: got.v2, ts: got.ts, dur: got.dur, meta: vec![("source".into(), "simio".into()), ("boot".into(), format!("{}", sc.aux[0] % 7))], mets: vec![] };
                for s in slots.iter().flatten() {
                    let mut m = s.model.clone();
                    if let Some(h) = &mut m.h {
                        if !s.recorded {
                            continue;
                        }
                        h.2 = s.hist.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i, *c)).collect();
                    }
                    want.mets.push(m);
                }
                want.mets.push(Met { kind: 0, name: "static/counter".into(), meta: vec![("unit".into(), "ops".into()), ("description".into(), "a static counter".into())], v: stat[0], h: None });
                want.mets.push(Met { kind: 1, name: "static/gauge".into(), v: stat[1], ..Default::default() });
                if lazy {
                    want.mets.push(Met { kind: 0, name: "static/lazy".into(), meta: vec![("metric".into(), "lazyname".into()), ("id".into(), "7".into()), ("op".into(), "read".into())], v: stat[2], h: None });
                }
                let bytes = mx::Snapshot::to_msgpack(&sn).unwrap_or_else(|e| fail("encode", &e.to_string()));
                dirty.extend(&bytes);
                written.push((durable.len() + dirty.len(), want));
                cov("snapshots_written", 1);
            }
            "sync" => {
                durable.append(&mut dirty);
            }
            "crash" => {
                perturb();
                cov("process_crashes", 1);
                // only a prefix of what was not synced survives
                let keep = if dirty.is_empty() { 0 } else { *a as usize % (dirty.len() + 1) };
                cov("bytes_lost_unsynced", (dirty.len() - keep) as u64);
                durable.extend(&dirty[..keep]);
                dirty.clear();
                for s in &mut slots {
                    *s = None;
                }
                stat = [0; 3];
                S_COUNTER.set(0);
                S_GAUGE.set(0);
                if lazy {
                    S_LAZY.set(0);
                }
                // restart: find the intact part and continue after it
                let mut at = &durable[..];
                let mut n = 0;
                let mut end = 0;
                while !at.is_empty() {
                    match rmp_serde::from_read::<_, mx::Snapshot>(&mut at) {
                        Ok(_) => {
                            n += 1;
                            end = durable.len() - at.len();
                        }
                        Err(_) => {
                            cov("torn_tails", 1);
                            break;
                        }
                    }
                }
                let whole = written.iter().filter(|w| w.0 <= durable.len()).count();
                if n != whole {
                    fail("survivors", &format!("{whole} snapshots are complete on disk after the crash, {n} decode"));
                }
                if whole > 0 && end != written[whole - 1].0 {
                    fail("survivors", "the intact part does not end where the last whole snapshot ends");
                }
                written.truncate(whole);
                durable.truncate(end);
                snapper = snapshotter(sc);
                cov("process_restarts", 1);
            }
            x => fail("harness", x),
        }
    }
    (durable, written.into_iter().map(|w| w.1).collect())
}

fn snapshotter(sc: &Scen) -> mx::Snapshotter {
    mx::SnapshotterBuilder::new().metadata("source".into(), "simio".into()).metadata("boot".into(), format!("{}", sc.aux[0] % 7)).build()
}
