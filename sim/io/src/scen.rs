//! A scenario: everything one simulated run depends on. It is what the
//! generator produces, what the minimiser shrinks and what a replay file holds.
use crate::rng::Rng;
use metriken_exposition as mx;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime};

pub type Meta = Vec<(String, String)>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Met {
    /// 0 counter, 1 gauge, 2 histogram
    pub kind: u8,
    pub name: String,
    pub meta: Meta,
    pub v: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub h: Option<(u8, u8, Vec<(usize, u64)>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Snap {
    pub v2: bool,
    pub ts: (u64, u32),
    pub dur: (u64, u32),
    pub meta: Meta,
    pub mets: Vec<Met>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Frag {
    /// 0: whole transfers
    pub seed: u64,
    pub max: usize,
    /// one in `eintr` calls is interrupted (0: never)
    pub eintr: u64,
}

/// A fault at the `op`-th call of its class.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub class: String,
    pub op: u64,
    pub kind: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scen {
    pub prop: String,
    pub mode: String,
    pub snaps: Vec<Snap>,
    /// snapshots placed before the start position, or appended while running
    pub extra: Vec<Snap>,
    /// zstd level, or -100 for none
    pub level: i32,
    pub batch: usize,
    pub sparse: bool,
    pub cmeta: Meta,
    pub hseed: u64,
    pub inp: Frag,
    pub out: Frag,
    pub faults: Vec<Fault>,
    pub cut: Option<usize>,
    pub flips: Vec<(usize, u8)>,
    pub aux: Vec<u64>,
    pub ops: Vec<(String, u64, u64)>,
}

// ------------------------------------------------------------ values
fn hm(m: &Meta) -> HashMap<String, String> {
    m.iter().cloned().collect()
}

pub fn total(g: u8, x: u8) -> usize {
    histogram::Config::new(g, x).unwrap().total_buckets()
}

impl Met {
    pub fn hist(&self) -> histogram::Histogram {
        let (g, x, b) = self.h.as_ref().unwrap();
        let mut v = vec![0u64; total(*g, *x)];
        let n = v.len();
        for (i, c) in b {
            v[*i % n] = *c;
        }
        histogram::Histogram::from_buckets(*g, *x, v).unwrap()
    }
}

impl Snap {
    pub fn time(&self) -> SystemTime {
        SystemTime::UNIX_EPOCH + Duration::new(self.ts.0, self.ts.1)
    }
    pub fn real(&self) -> mx::Snapshot {
        let mut c = vec![];
        let mut g = vec![];
        let mut h = vec![];
        for m in &self.mets {
            match m.kind {
                0 => c.push(mx::Counter { name: m.name.clone(), value: m.v, metadata: hm(&m.meta) }),
                1 => g.push(mx::Gauge { name: m.name.clone(), value: m.v as i64, metadata: hm(&m.meta) }),
                _ => h.push(mx::Histogram { name: m.name.clone(), value: m.hist(), metadata: hm(&m.meta) }),
            }
        }
        if self.v2 {
            mx::Snapshot::V2(mx::SnapshotV2 { systemtime: self.time(), duration: Duration::new(self.dur.0, self.dur.1), metadata: hm(&self.meta), counters: c, gauges: g, histograms: h })
        } else {
            mx::Snapshot::V1(mx::SnapshotV1 { systemtime: self.time(), metadata: hm(&self.meta), counters: c, gauges: g, histograms: h })
        }
    }
    /// The comparable form: maps sorted, histogram buckets by index.
    pub fn norm(&self) -> Snap {
        let srt = |m: &Meta| -> Meta { m.iter().cloned().collect::<BTreeMap<_, _>>().into_iter().collect() };
        let mut mets: Vec<Met> = vec![];
        for k in 0..3u8 {
            for m in self.mets.iter().filter(|m| m.kind.min(2) == k) {
                let h = m.h.as_ref().map(|(g, x, _)| {
                    let hh = m.hist();
                    (*g, *x, hh.as_slice().iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i, *c)).collect())
                });
                mets.push(Met { kind: k, name: m.name.clone(), meta: srt(&m.meta), v: if k == 2 { 0 } else { m.v }, h });
            }
        }
        Snap { v2: self.v2, ts: self.ts, dur: if self.v2 { self.dur } else { (0, 0) }, meta: srt(&self.meta), mets }
    }
}

pub fn srt(m: &HashMap<String, String>) -> Meta {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>().into_iter().collect()
}

/// Back from a real snapshot. A histogram whose bucket count does not fit its
/// configuration (only possible after corruption) is an error.
pub fn unreal(s: &mx::Snapshot) -> Result<Snap, String> {
    let (v2, ts, dur, meta, c, g, h) = match s {
        mx::Snapshot::V1(s) => (false, s.systemtime, Duration::ZERO, &s.metadata, &s.counters, &s.gauges, &s.histograms),
        mx::Snapshot::V2(s) => (true, s.systemtime, s.duration, &s.metadata, &s.counters, &s.gauges, &s.histograms),
    };
    let t = ts.duration_since(SystemTime::UNIX_EPOCH).map_err(|_| "before 1970")?;
    let mut mets = vec![];
    for x in c {
        mets.push(Met { kind: 0, name: x.name.clone(), meta: srt(&x.metadata), v: x.value, h: None });
    }
    for x in g {
        mets.push(Met { kind: 1, name: x.name.clone(), meta: srt(&x.metadata), v: x.value as u64, h: None });
    }
    for x in h {
        let cf = x.value.config();
        let ok = histogram::Config::new(cf.grouping_power(), cf.max_value_power()).is_ok_and(|c| c == cf && c.total_buckets() == x.value.as_slice().len());
        if !ok {
            return Err("inconsistent histogram".into());
        }
        let b = x.value.as_slice().iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i, *c)).collect();
        mets.push(Met { kind: 2, name: x.name.clone(), meta: srt(&x.metadata), v: 0, h: Some((cf.grouping_power(), cf.max_value_power(), b)) });
    }
    Ok(Snap { v2, ts: (t.as_secs(), t.subsec_nanos()), dur: (dur.as_secs(), dur.subsec_nanos()), meta: srt(meta), mets })
}

// ------------------------------------------------------------ an independent encoder of the recording format
fn mp_uint(o: &mut Vec<u8>, v: u64) {
    if v < 128 {
        o.push(v as u8)
    } else if v < 1 << 8 {
        o.extend([0xcc, v as u8])
    } else if v < 1 << 16 {
        o.push(0xcd);
        o.extend((v as u16).to_be_bytes())
    } else if v < 1 << 32 {
        o.push(0xce);
        o.extend((v as u32).to_be_bytes())
    } else {
        o.push(0xcf);
        o.extend(v.to_be_bytes())
    }
}
fn mp_int(o: &mut Vec<u8>, v: i64) {
    if v >= 0 {
        return mp_uint(o, v as u64);
    }
    if v >= -32 {
        o.push(v as u8)
    } else if v >= i8::MIN as i64 {
        o.extend([0xd0, v as u8])
    } else if v >= i16::MIN as i64 {
        o.push(0xd1);
        o.extend((v as i16).to_be_bytes())
    } else if v >= i32::MIN as i64 {
        o.push(0xd2);
        o.extend((v as i32).to_be_bytes())
    } else {
        o.push(0xd3);
        o.extend(v.to_be_bytes())
    }
}
fn mp_len(o: &mut Vec<u8>, n: usize, fix: u8, max: usize, m16: u8) {
    if n < max {
        o.push(fix | n as u8)
    } else if n < 1 << 16 {
        o.push(m16);
        o.extend((n as u16).to_be_bytes())
    } else {
        o.push(m16 + 1);
        o.extend((n as u32).to_be_bytes())
    }
}
fn mp_arr(o: &mut Vec<u8>, n: usize) {
    mp_len(o, n, 0x90, 16, 0xdc)
}
fn mp_str(o: &mut Vec<u8>, s: &str) {
    let n = s.len();
    if n < 32 {
        o.push(0xa0 | n as u8)
    } else if n < 256 {
        o.extend([0xd9, n as u8])
    } else if n < 1 << 16 {
        o.push(0xda);
        o.extend((n as u16).to_be_bytes())
    } else {
        o.push(0xdb);
        o.extend((n as u32).to_be_bytes())
    }
    o.extend(s.as_bytes())
}
fn mp_map(o: &mut Vec<u8>, m: &Meta) {
    let m: BTreeMap<&String, &String> = m.iter().map(|(k, v)| (k, v)).collect();
    mp_len(o, m.len(), 0x80, 16, 0xde);
    for (k, v) in m {
        mp_str(o, k);
        mp_str(o, v);
    }
}
/// The eight configuration fields as recorded: max, grouping power, max value
/// power, cutoff power, cutoff value, lower bins, upper divisions, upper bins.
fn cfg_fields(g: u8, x: u8) -> [u64; 8] {
    let max = if x == 64 { u64::MAX } else { 1u64 << x };
    let up = 1u64 << g;
    [max, g as u64, x as u64, g as u64 + 1, 1u64 << (g + 1), 1u64 << (g + 1), up, (x - g - 1) as u64 * up]
}

impl Snap {
    pub fn golden_msgpack(&self) -> Vec<u8> {
        let mut o = vec![];
        mp_arr(&mut o, if self.v2 { 6 } else { 5 });
        mp_arr(&mut o, 2);
        mp_uint(&mut o, self.ts.0);
        mp_uint(&mut o, self.ts.1 as u64);
        if self.v2 {
            mp_arr(&mut o, 2);
            mp_uint(&mut o, self.dur.0);
            mp_uint(&mut o, self.dur.1 as u64);
        }
        mp_map(&mut o, &self.meta);
        for k in 0..3u8 {
            let ms: Vec<&Met> = self.mets.iter().filter(|m| m.kind.min(2) == k).collect();
            mp_arr(&mut o, ms.len());
            for m in ms {
                mp_arr(&mut o, 3);
                mp_str(&mut o, &m.name);
                match k {
                    0 => mp_uint(&mut o, m.v),
                    1 => mp_int(&mut o, m.v as i64),
                    _ => {
                        let (g, x, _) = m.h.as_ref().unwrap();
                        let hh = m.hist();
                        mp_arr(&mut o, 2);
                        mp_arr(&mut o, 8);
                        for f in cfg_fields(*g, *x) {
                            mp_uint(&mut o, f);
                        }
                        mp_arr(&mut o, hh.as_slice().len());
                        for c in hh.as_slice() {
                            mp_uint(&mut o, *c);
                        }
                    }
                }
                mp_map(&mut o, &m.meta);
            }
        }
        o
    }
    pub fn golden_json(&self, keep_empty: bool) -> Vec<u8> {
        use serde_json::{json, Map, Value};
        let mm = |m: &Meta| Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<Map<_, _>>());
        let mut o = Map::new();
        o.insert("systemtime".into(), json!({"secs_since_epoch": self.ts.0, "nanos_since_epoch": self.ts.1}));
        if self.v2 {
            o.insert("duration".into(), json!({"secs": self.dur.0, "nanos": self.dur.1}));
        }
        if keep_empty || !self.meta.is_empty() {
            o.insert("metadata".into(), mm(&self.meta));
        }
        for (k, n) in ["counters", "gauges", "histograms"].iter().enumerate() {
            let v: Vec<Value> = self
                .mets
                .iter()
                .filter(|m| m.kind.min(2) == k as u8)
                .map(|m| {
                    let v = match k {
                        0 => json!(m.v),
                        1 => json!(m.v as i64),
                        _ => {
                            let (g, x, _) = m.h.as_ref().unwrap();
                            let f = cfg_fields(*g, *x);
                            json!({"config": {"max": f[0], "grouping_power": f[1], "max_value_power": f[2], "cutoff_power": f[3], "cutoff_value": f[4], "lower_bin_count": f[5], "upper_bin_divisions": f[6], "upper_bin_count": f[7]}, "buckets": m.hist().as_slice()})
                        }
                    };
                    json!({"name": m.name, "value": v, "metadata": mm(&m.meta)})
                })
                .collect();
            o.insert((*n).into(), Value::Array(v));
        }
        let mut b = serde_json::to_vec(&Value::Object(o)).unwrap();
        b.push(b'\n');
        b
    }
}

// ------------------------------------------------------------ which column a metric belongs to
const ORDERED: [&str; 4] = ["name", "op", "state", "direction"];
const IGNORED: [&str; 5] = ["metric", "unit", "grouping_power", "max_value_power", "id"];

/// Identity of a metric's column and every column name the documentation allows
/// for it (the order of the remaining metadata values is left open).
pub fn column(m: &Met) -> (String, Vec<String>) {
    let md: BTreeMap<&str, &str> = m.meta.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let Some(base) = md.get("metric") else {
        return (format!("N{}", m.name), vec![m.name.clone()]);
    };
    let mut head = base.to_string();
    for k in ORDERED {
        if let Some(v) = md.get(k) {
            head = head + "/" + v;
        }
    }
    let rest: Vec<(&str, &str)> = md.iter().filter(|(k, _)| !ORDERED.contains(k) && !IGNORED.contains(k)).map(|(k, v)| (*k, *v)).collect();
    let tail = md.get("id").map(|v| format!("/{v}")).unwrap_or_default();
    let mut names = vec![];
    let mut idx: Vec<usize> = (0..rest.len()).collect();
    permute(&mut idx, 0, &mut |p| {
        let mut s = head.clone();
        for i in p {
            s = s + "/" + rest[*i].1;
        }
        names.push(s + &tail);
    });
    names.sort();
    names.dedup();
    (format!("M{head}|{rest:?}|{tail}"), names)
}
fn permute(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k == v.len() {
        return f(v);
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, f);
        v.swap(k, i);
    }
}

// ------------------------------------------------------------ generation
const WORDS: [&str; 14] = ["cpu", "usage", "tcp", "latency", "reads", "x", "", "µs", "a:b", "with space", "blockio/ops", "q\"uote", "0", "Zz"];

fn word(r: &mut Rng) -> String {
    if r.chance(1, 40) {
        return "long".repeat(r.below(90) as usize + 1);
    }
    r.pick(&WORDS).to_string()
}

/// The metrics of one recording: stable identities, varying presence.
pub struct Pool {
    pub base: Vec<Met>,
}

pub fn pool(r: &mut Rng, max: u64, rich: bool) -> Pool {
    let mut base: Vec<Met> = vec![];
    let mut used: Vec<(u8, String)> = vec![];
    let n = if r.chance(1, 12) { r.below(4 * max + 1) } else { r.below(max + 1) };
    for i in 0..n {
        let kind = [0, 0, 1, 1, 2][r.below(5) as usize];
        let mut m = Met { kind, name: word(r), ..Default::default() };
        if r.chance(1, 2) {
            m.name += &format!("/{i}");
        }
        if r.chance(1, 50) {
            m.name = r.pick(&["timestamp", "duration", "a:buckets"]).to_string();
        }
        if r.chance(1, if rich { 1 } else { 3 }) && r.chance(4, 5) {
            m.meta.push(("metric".into(), word(r)));
            m.name = if r.chance(1, 2) { format!("{i}x{i}") } else { m.name };
            for k in ORDERED {
                if r.chance(1, 3) {
                    m.meta.push((k.into(), word(r)));
                }
            }
            if r.chance(1, 3) {
                m.meta.push(("id".into(), r.below(3).to_string()));
            }
            for k in ["alpha", "zone", "Metric", "cgroup"] {
                if r.chance(1, 4) {
                    m.meta.push((k.into(), word(r)));
                }
            }
        } else {
            for k in ["unit", "op", "id", "k", "metric_type", "name"] {
                if r.chance(1, 6) {
                    m.meta.push((k.into(), word(r)));
                }
            }
        }
        if kind == 2 {
            let (g, x) = [(0, 2), (1, 3), (2, 5), (3, 8), (0, 64), (2, 64), (0, 1)][r.below(7) as usize];
            m.h = Some((g, x, vec![]));
        }
        let names = column(&m).1;
        if names.iter().any(|n| used.contains(&(kind, n.clone()))) {
            continue;
        }
        used.extend(names.into_iter().map(|n| (kind, n)));
        base.push(m);
    }
    Pool { base }
}

pub fn big(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX - r.below(3),
        2 => i64::MAX as u64,
        3 => i64::MIN as u64,
        4 => 1u64 << r.below(64),
        5 => (1u64 << r.below(64)).wrapping_sub(1),
        6 => r.next(),
        _ => r.below(200),
    }
}

pub fn snap(r: &mut Rng, p: &Pool, ts: &mut u64, wide: bool) -> Snap {
    *ts = match r.below(10) {
        0 => *ts,
        1 => ts.saturating_sub(r.below(5_000_000_000)),
        2 => ts.saturating_add(r.below(1 << 50)).min(18_446_744_073_000_000_000),
        _ => ts.saturating_add(r.below(2_000_000_000)).min(18_446_744_073_000_000_000),
    };
    let v2 = r.chance(1, 2);
    let mut t = (*ts / 1_000_000_000, (*ts % 1_000_000_000) as u32);
    if wide && r.chance(1, 10) {
        t = (r.below(1 << 40), r.below(1_000_000_000) as u32);
    }
    let mut d = (r.below(3), r.below(1_000_000_000) as u32);
    if r.chance(1, 8) {
        d = [(0, 0), (18_446_744_073, 709_551_615), (0, 999_999_999), (4_294_967_296, 1)][r.below(4) as usize];
    }
    let mut s = Snap { v2, ts: t, dur: if v2 { d } else { (0, 0) }, ..Default::default() };
    if r.chance(1, 4) {
        for _ in 0..r.below(4) {
            let k = word(r);
            if !s.meta.iter().any(|x| x.0 == k) {
                s.meta.push((k, word(r)));
            }
        }
    }
    let dens = [0, 1, 2, 3, 3, 4][r.below(6) as usize];
    for b in &p.base {
        if !r.chance(dens, 4) {
            continue;
        }
        let mut m = b.clone();
        m.v = big(r);
        if let Some(h) = &mut m.h {
            m.v = 0;
            if b.name.len() % 5 == 0 && r.chance(1, 8) {
                (h.0, h.1) = (1, 4);
            }
            let n = total(h.0, h.1);
            let k = if r.chance(1, 6) { n.min(600) as u64 } else { r.below(5) };
            for _ in 0..k {
                let i = r.below(n as u64) as usize;
                if !h.2.iter().any(|x| x.0 == i) {
                    h.2.push((i, big(r)));
                }
            }
        }
        // metadata that does not identify the column may vary
        let named = m.meta.iter().any(|x| x.0 == "metric");
        if r.chance(1, 3) {
            for k in if named { &["unit", "grouping_power", "max_value_power"][..] } else { &["unit", "description", "state"][..] } {
                if r.chance(1, 2) {
                    m.meta.retain(|x| x.0 != *k);
                    m.meta.push((k.to_string(), word(r)));
                }
            }
        }
        if named && r.chance(1, 3) {
            m.name = format!("{}x", r.below(100));
        }
        shuffle(r, &mut m.meta);
        s.mets.push(m);
    }
    shuffle(r, &mut s.mets);
    s
}

pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

pub fn frag(r: &mut Rng) -> Frag {
    if r.chance(1, 6) {
        return Frag::default();
    }
    Frag { seed: r.next() | 1, max: [1, 2, 3, 7, 16, 64, 300, 5000][r.below(8) as usize], eintr: [0, 0, 2, 3, 10, 40][r.below(6) as usize] }
}

pub fn base(r: &mut Rng, prop: &str) -> Scen {
    let rich = prop == "C19" || r.chance(1, 4);
    let cap = if r.chance(1, 3) { 3 } else { 10 };
    let mut p = pool(r, cap, rich);
    let grand = if r.chance(1, 40) { 1 + r.below(5) } else { 0 };
    // beyond the default batch size
    let grand = if prop == "C16" && r.chance(1, 2500) { 6 } else { grand };
    match grand {
        1 => p.base.truncate(3),
        6 => p.base.truncate(1),
        2 => {
            let all = r.chance(1, 2);
            for i in 0..if r.chance(1, 5) { 1020 + r.below(60) } else { 60 + r.below(240) } {
                let kind = if all { (i % 2) as u8 } else { r.below(2) as u8 };
                p.base.push(Met { kind, name: format!("grand/{i}"), ..Default::default() });
            }
        }
        3 => {
            p.base.truncate(2);
            let (g, x) = *r.pick(&[(7, 64), (12, 30), (5, 64), (10, 20)]);
            p.base.push(Met { kind: 2, name: "grand".into(), h: Some((g, x, vec![])), ..Default::default() });
        }
        4 => {
            p.base.truncate(3);
            let mut m = Met { kind: r.below(2) as u8, name: "grand".into(), ..Default::default() };
            for i in 0..*r.pick(&[14, 15, 16, 17, 40, 255, 256, 300]) {
                m.meta.push((format!("k{i}"), word(r)));
            }
            p.base.push(m);
        }
        5 => {
            p.base.truncate(2);
            let n = *r.pick(&[4096, 8192, 32767, 65535, 65536, 70_001]);
            let l = "grand~".repeat(n / 6 + 1)[..n].to_string();
            let mut m = Met { kind: r.below(2) as u8, name: "grand".into(), ..Default::default() };
            match r.below(3) {
                0 => m.name = l,
                1 => m.meta.push((l, "v".into())),
                _ => m.meta.push(("k".into(), l)),
            }
            p.base.push(m);
        }
        _ => {}
    }
    let n = match grand {
        1 => *r.pick(&[130, 500, 1000, 1023, 1024, 1025, 1500, 2047, 2049, 2600]),
        6 => 49_999 + r.below(5_000),
        2 | 3 | 4 | 5 => 1 + r.below(4),
        _ => match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 20 + r.below(60),
        _ => 1 + r.below(8),
        },
    };
    let mut ts = match r.below(6) {
        0 => 0,
        1 => 18_446_744_073_000_000_000,
        _ => 1_700_000_000_000_000_000 + r.below(1 << 40),
    };
    let wide = prop == "C15";
    let mut snaps: Vec<Snap> = (0..n).map(|_| snap(r, &p, &mut ts, wide)).collect();
    if grand == 4 && r.chance(1, 2) {
        for i in 0..*r.pick(&[15, 16, 200]) {
            let k = format!("s{i}");
            snaps[0].meta.push((k, word(r)));
        }
    }
    let extra: Vec<Snap> = (0..r.below(4)).map(|_| snap(r, &p, &mut ts, false)).collect();
    let mut cmeta = vec![];
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(3) {
            let k = if r.chance(1, 2) && !snaps.is_empty() && !snaps[0].meta.is_empty() { snaps[0].meta[0].0.clone() } else { word(r) };
            if !cmeta.iter().any(|x: &(String, String)| x.0 == k) {
                cmeta.push((k, word(r)));
            }
        }
    }
    let (mut inp, mut out) = (frag(r), frag(r));
    let mut batch = *r.pick(&[1, 2, 3, 5, 50, 50_000, 50_000]);
    if grand != 0 {
        for f in [&mut inp, &mut out] {
            f.max = if f.seed == 0 { 0 } else { f.max.max(*r.pick(&[300, 5000])) };
        }
        if grand == 6 {
            batch = *r.pick(&[1000, 50_000]);
            inp.seed = 0;
            out.seed = 0;
        }
        if grand == 1 {
            batch = *r.pick(&[100, 511, 1000, 1024, 1025, 2048, 50_000, 50_000]);
        }
    }
    Scen {
        prop: prop.into(),
        mode: String::new(),
        snaps,
        extra,
        level: *r.pick(&[-100, -100, 1, 3, 3, 5, 9]),
        batch,
        sparse: r.chance(1, 3),
        cmeta,
        hseed: r.next(),
        inp,
        out,
        ..Default::default()
    }
}
