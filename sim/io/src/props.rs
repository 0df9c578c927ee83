//! What each property generates, runs and checks.
use crate::dev::{self, cov, perturb, plan, st, Ev, SimRead, SimWrite};
use crate::refm::{layout, matches, read_table, Table};
use crate::rng::Rng;
use crate::run::{fail, with_seed};
use crate::scen::*;
use metriken_exposition as mx;
use std::io::{BufRead, BufReader, Read};

fn opts(sc: &Scen) -> mx::ParquetOptions {
    let c = if sc.level == -100 { mx::ParquetCompression::none() } else { mx::ParquetCompression::zstd(sc.level).unwrap_or_else(|e| fail("options", &format!("zstd level {} refused: {e}", sc.level))) };
    let h = if sc.sparse { mx::ParquetHistogramType::Sparse } else { mx::ParquetHistogramType::Standard };
    mx::ParquetOptions::new().compression(c).max_batch_size(sc.batch).histogram_type(h)
}
fn converter(sc: &Scen) -> mx::MsgpackToParquet {
    let mut c = if sc.batch == 50_000 && sc.level == 3 && !sc.sparse { mx::MsgpackToParquet::new() } else { mx::MsgpackToParquet::with_options(opts(sc)) };
    for (k, v) in &sc.cmeta {
        c = c.metadata(k.clone(), v.clone());
    }
    c
}

/// Encode each snapshot; `enc` 0 and 1 use the library, 2 the independent encoder.
fn encode(snaps: &[Snap], enc: u64, hseed: u64) -> Vec<Vec<u8>> {
    if enc == 2 {
        return snaps.iter().map(|s| s.golden_msgpack()).collect();
    }
    with_seed(hseed ^ 0x5eed, || {
        snaps
            .iter()
            .map(|s| {
                let r = s.real();
                let b = match (&r, enc) {
                    (mx::Snapshot::V1(i), 1) => mx::Snapshot::to_msgpack(i),
                    (mx::Snapshot::V2(i), 1) => mx::Snapshot::to_msgpack(i),
                    _ => mx::Snapshot::to_msgpack(&r),
                };
                b.unwrap_or_else(|e| fail("encode", &format!("a snapshot cannot be encoded: {e}")))
            })
            .collect()
    })
}
fn flat(v: &[Vec<u8>]) -> Vec<u8> {
    let b = v.concat();
    let mut h = 0u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = crate::rng::mix(h ^ u64::from_le_bytes(x));
    }
    dev::trace(h);
    b
}

type Res = Result<i64, String>;
fn convert(sc: &Scen, hseed: u64, rd: SimRead, wr: &SimWrite) -> Res {
    let w = wr.clone();
    let r = with_seed(hseed, move || converter(sc).convert_file_handle(rd, w).map_err(|e| e.to_string()));
    cov(if r.is_ok() { "conversions_ok" } else { "conversions_failed" }, 1);
    dev::trace(r.is_ok() as u64);
    r
}

fn good(what: &str, r: &Res, out: &[u8], snaps: &[Snap], sc: &Scen) -> Table {
    let n = match r {
        Ok(n) => *n,
        Err(e) => fail("spurious-error", &format!("{what}: fails although nothing failed underneath: {e}")),
    };
    if n != snaps.len() as i64 {
        fail("row-count", &format!("{what}: reports {n} rows for {} snapshots", snaps.len()));
    }
    let t = match read_table(out) {
        Ok(t) => t,
        Err(e) => fail("unreadable", &format!("{what}: reported success but the output is not readable: {e}")),
    };
    if let Err(e) = matches(&t, snaps, sc.sparse, &sc.cmeta) {
        fail("wrong-table", &format!("{what}: {e}"));
    }
    if sc.prop == "C16" {
        let want = if sc.level == -100 { "UNCOMPRESSED" } else { "ZSTD" };
        let plain = sc.batch == 50_000 && sc.level == 3; // the defaults, perhaps
        match layout(out) {
            Ok((c, _)) if !plain && c.iter().any(|c| !c.starts_with(want)) => fail("options", &format!("{what}: compressed with {c:?} instead of {want}")),
            Ok((_, n)) if !plain && n > sc.batch as i64 => fail("options", &format!("{what}: a batch of {n} rows instead of at most {}", sc.batch)),
            Ok(_) => {}
            Err(e) => fail("unreadable", &format!("{what}: {e}")),
        }
    }
    t
}

// ============================================================ C15
pub fn gen15(r: &mut Rng) -> Scen {
    let mut s = base(r, "C15");
    s.mode = r.pick(&["msgpack", "msgpack", "json"]).to_string();
    s.aux = vec![r.below(3), r.below(4), r.below(2)];
    if r.chance(1, 2) {
        s.cut = Some(r.next() as usize >> 8);
    }
    s
}

pub fn exec15(sc: &Scen) {
    let json = sc.mode == "json";
    let enc = sc.aux[0];
    let parts: Vec<Vec<u8>> = if !json {
        cov("msgpack_streams", 1);
        encode(&sc.snaps, enc, sc.hseed)
    } else {
        cov("json_streams", 1);
        with_seed(sc.hseed ^ 0x5eed, || {
            sc.snaps
                .iter()
                .map(|s| {
                    let r = s.real();
                    let b = match (&r, enc) {
                        (_, 2) => return s.golden_json(sc.aux[2] == 1),
                        (mx::Snapshot::V1(i), 1) => mx::Snapshot::to_json(i),
                        (mx::Snapshot::V2(i), 1) => mx::Snapshot::to_json(i),
                        _ => mx::Snapshot::to_json(&r),
                    };
                    b.unwrap_or_else(|e| fail("encode", &format!("a snapshot cannot be encoded: {e}")))
                })
                .collect()
        })
    };
    if enc == 2 {
        cov("independently_encoded_streams", 1);
    }
    cov("snapshots_written", parts.len() as u64);
    let mut data = flat(&parts);
    let mut ends = vec![];
    let mut e = 0;
    for p in &parts {
        e += p.len();
        ends.push(e);
    }
    let full = data.len();
    if let Some(c) = sc.cut {
        if full > 0 {
            data.truncate(c % full);
            cov("stream_cuts", 1);
            perturb();
        }
    }
    let whole = ends.iter().filter(|e| **e <= data.len()).count();
    let boundary = data.len() == ends.get(whole.wrapping_sub(1)).copied().unwrap_or(0);
    // a JSON document is complete without its newline
    let lax = json && !boundary && ends.get(whole) == Some(&(data.len() + 1));
    plan(&sc.inp, &sc.out, &[]);
    let got: Vec<Result<mx::Snapshot, String>> = with_seed(sc.hseed, || {
        let mut out = vec![];
        let len = data.len();
        let mut rd = SimRead::new(data, 0);
        let style = sc.aux[1];
        if !json {
            match style {
                0 | 1 => {
                    while rd.pos < len {
                        let r = rmp_serde::from_read(&mut rd).map_err(|e| e.to_string());
                        let bad = r.is_err();
                        out.push(r);
                        if bad {
                            break;
                        }
                    }
                }
                2 => {
                    let mut b = BufReader::with_capacity(1 + (sc.hseed % 90) as usize, rd);
                    loop {
                        match b.fill_buf() {
                            Ok([]) => break,
                            Ok(_) => {}
                            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                            Err(e) => fail("harness", &e.to_string()),
                        }
                        let r = rmp_serde::from_read(&mut b).map_err(|e| e.to_string());
                        let bad = r.is_err();
                        out.push(r);
                        if bad {
                            break;
                        }
                    }
                }
                _ => {
                    let mut v = vec![];
                    let _ = rd.read_to_end(&mut v);
                    let mut at = &v[..];
                    while !at.is_empty() {
                        let r = rmp_serde::from_read(&mut at).map_err(|e| e.to_string());
                        let bad = r.is_err();
                        out.push(r);
                        if bad {
                            break;
                        }
                    }
                }
            }
        } else if style % 2 == 0 {
            for r in serde_json::Deserializer::from_reader(rd).into_iter::<mx::Snapshot>() {
                let bad = r.is_err();
                out.push(r.map_err(|e| e.to_string()));
                if bad {
                    break;
                }
            }
        } else {
            let mut b = BufReader::with_capacity(1 + (sc.hseed % 90) as usize, rd);
            loop {
                let mut l = vec![];
                match b.read_until(b'\n', &mut l) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) => fail("harness", &e.to_string()),
                }
                let r = serde_json::from_slice(&l).map_err(|e| e.to_string());
                let bad = r.is_err();
                out.push(r);
                if bad {
                    break;
                }
            }
        }
        out
    });
    for (i, g) in got.iter().enumerate() {
        cov("snapshots_decoded", 1);
        match g {
            Ok(s) => {
                if i > whole || (i == whole && !lax) {
                    fail("invented", &format!("snapshot {i} was cut short but decodes as {s:?}"));
                }
                let want = sc.snaps[i].norm();
                match unreal(s) {
                    Ok(h) if h == want => {}
                    h => fail("wrong-decode", &format!("snapshot {i} decodes as {h:?} instead of {want:?}")),
                }
                // the same through the accessors, asked in some order
                match accessed(s.clone(), sc.hseed.wrapping_add(i as u64)).map(|s| unreal(&s)) {
                    Some(Ok(h)) if h == want => {}
                    h => fail("wrong-decode", &format!("the accessors of snapshot {i} give {h:?} instead of {want:?}")),
                }
            }
            Err(e) => {
                if i < whole {
                    fail("lost", &format!("snapshot {i}, complete in the stream, does not decode: {e}"));
                }
            }
        }
    }
    if got.len() < whole {
        fail("lost", &format!("{} of {whole} complete snapshots decoded", got.len()));
    }
    if !boundary && !lax && got.len() == whole {
        fail("cut-unnoticed", "the cut snapshot was not reported");
    }
    dev::trace(got.len() as u64);
}

/// The snapshot rebuilt from what its accessors return.
fn accessed(mut s: mx::Snapshot, order: u64) -> Option<mx::Snapshot> {
    let (mut meta, mut c, mut g, mut h) = (None, None, None, None);
    let (mut ts, mut dur) = (None, None);
    for k in 0..6 {
        match (k * [1, 5][(order % 2) as usize] + order / 2) % 6 {
            0 => meta = Some(s.metadata()),
            1 => c = Some(s.counters()),
            2 => g = Some(s.gauges()),
            3 => h = Some(s.histograms()),
            4 => ts = Some(s.systemtime()),
            _ => dur = Some(s.duration()),
        }
    }
    let (metadata, counters, gauges, histograms, systemtime) = (meta?, c?, g?, h?, ts?);
    Some(match dur? {
        Some(duration) => mx::Snapshot::V2(mx::SnapshotV2 { systemtime, duration, metadata, counters, gauges, histograms }),
        None => mx::Snapshot::V1(mx::SnapshotV1 { systemtime, metadata, counters, gauges, histograms }),
    })
}

// ============================================================ C16
pub fn gen16(r: &mut Rng) -> Scen {
    let mut s = base(r, "C16");
    s.mode = r.pick(&["handle", "handle", "handle", "direct"]).to_string();
    s.aux = vec![r.below(3), r.next()];
    s
}

pub fn exec16(sc: &Scen) {
    cov("snapshots_written", sc.snaps.len() as u64);
    if sc.mode == "direct" {
        let out = SimWrite::default();
        plan(&sc.inp, &sc.out, &[]);
        let w = out.clone();
        let r: Res = with_seed(sc.hseed, || {
            let mut schema = mx::ParquetSchema::new();
            for s in &sc.snaps {
                schema.push(s.real());
            }
            let m = if sc.cmeta.is_empty() && sc.aux[1] % 2 == 0 { None } else { Some(sc.cmeta.iter().cloned().collect()) };
            let mut p = schema.finalize(w, opts(sc), m).map_err(|e| e.to_string())?;
            for s in &sc.snaps {
                p.push(s.real()).map_err(|e| e.to_string())?;
            }
            Ok(p.finalize().map_err(|e| e.to_string())?.num_rows)
        });
        good("writer", &r, &out.bytes(), &sc.snaps, sc);
        return;
    }
    let data = flat(&encode(&sc.snaps, sc.aux[0], sc.hseed));
    let out = SimWrite::default();
    plan(&sc.inp, &sc.out, &[]);
    let r = convert(sc, sc.hseed, SimRead::new(data.clone(), 0), &out);
    good("conversion", &r, &out.bytes(), &sc.snaps, sc);
    // the same recording with everything that must not matter changed
    let mut q = Rng::new(sc.aux[1]);
    let mut sc2 = sc.clone();
    sc2.level = *q.pick(&[-100, 1, 3, 7]);
    // a parquet file holds at most 32767 row groups
    sc2.batch = if sc.snaps.len() > 5_000 { 1000 } else { *q.pick(&[1, 2, 4, 1000]) };
    let out = SimWrite::default();
    plan(&frag(&mut q), &frag(&mut q), &[]);
    let r = convert(&sc2, q.next(), SimRead::new(data, 0), &out);
    good("second conversion", &r, &out.bytes(), &sc.snaps, &sc2);
}

// ============================================================ C17
const RERR: [&str; 6] = ["eio", "eio-sticky", "wouldblock", "eof", "timedout", "eof-sticky"];
const WERR: [&str; 5] = ["eio", "eio-sticky", "enospc-sticky", "zero", "wouldblock"];
pub fn gen17(r: &mut Rng) -> Scen {
    let mut s = base(r, "C17");
    s.mode = r.pick(&["read", "read", "seek", "write", "write", "flush", "full", "cut", "cut", "flip", "flip", "grow", "shrink", "start", "eintr", "query"]).to_string();
    s.aux = vec![r.below(3), r.next() >> 8, r.next() >> 8, r.below(1000)];
    let op = r.next() >> 20;
    let f = |class: &str, kind: &str| Fault { class: class.into(), op, kind: kind.into() };
    match s.mode.as_str() {
        "read" => s.faults = vec![f("read", r.pick(&RERR))],
        "seek" => s.faults = vec![f("seek", r.pick(&["eio", "eacces"]))],
        "query" => s.faults = vec![f("query", "eio")],
        "write" => s.faults = vec![f("write", r.pick(&WERR))],
        "flush" => s.faults = vec![f("flush", r.pick(&["eio", "enospc", "eio-sticky"]))],
        "cut" => s.cut = Some(r.next() as usize >> 8),
        "flip" => {
            for _ in 0..1 + r.below(3) {
                s.flips.push((r.next() as usize >> 8, 1 + r.below(255) as u8));
            }
        }
        "eintr" => {
            for _ in 0..1 + r.below(5) {
                s.faults.push(Fault { class: r.pick(&["read", "read", "write"]).to_string(), op: r.next() >> 20, kind: "eintr".into() });
            }
        }
        _ => {}
    }
    if r.chance(1, 3) {
        s.inp = Frag::default();
        s.out = Frag::default();
    }
    s
}

/// A clean conversion that counts calls, so that faults can be placed on real
/// calls: fault positions are taken modulo the number of calls of their class.
fn dry(sc: &Scen, data: &[u8]) -> (Vec<u8>, [u64; 8], Vec<usize>) {
    let out = SimWrite::default();
    plan(&sc.inp, &sc.out, &[]);
    let r = convert(sc, sc.hseed, SimRead::new(data.to_vec(), 0), &out);
    let n = st().n;
    let b = out.bytes();
    good("fault-free conversion", &r, &b, &sc.snaps, sc);
    let bd = out.0.lock().unwrap().boundaries.clone();
    (b, n, bd)
}
fn place(f: &[Fault], n: &[u64; 8]) -> Vec<Fault> {
    let cls = crate::dev::CLASS;
    f.iter()
        .map(|f| {
            let c = cls.iter().position(|c| *c == f.class).unwrap();
            Fault { op: if n[c] == 0 { 0 } else { f.op % n[c] }, ..f.clone() }
        })
        .collect()
}
/// A fault fired that must surface.
fn must_fail(what: &str, r: &Res) -> bool {
    let (hard, soft) = {
        let s = st();
        (s.hard.clone(), s.soft)
    };
    if !hard.is_empty() && r.is_ok() {
        fail("false-success", &format!("{what}: {hard}, yet success was reported"));
    }
    !hard.is_empty() || soft
}

pub fn exec17(sc: &Scen) {
    cov("snapshots_written", sc.snaps.len() as u64);
    let parts = encode(&sc.snaps, sc.aux[0], sc.hseed);
    let data = flat(&parts);
    let out = SimWrite::default();
    match sc.mode.as_str() {
        "read" | "seek" | "query" | "write" | "flush" | "eintr" | "full" => {
            let (b, n, _) = dry(sc, &data);
            plan(&sc.inp, &sc.out, &place(&sc.faults, &n));
            if sc.mode == "full" {
                out.0.lock().unwrap().full_at = Some(sc.aux[1] as usize % b.len());
            }
            let r = convert(sc, sc.hseed, SimRead::new(data, 0), &out);
            if !must_fail("conversion", &r) || (r.is_ok() && st().soft) {
                good("conversion", &r, &out.bytes(), &sc.snaps, sc);
            }
        }
        "cut" => {
            let mut d = data;
            let mut whole = sc.snaps.len();
            let mut boundary = true;
            if !d.is_empty() {
                d.truncate(sc.cut.unwrap_or(0) % d.len());
                let mut e = 0;
                whole = 0;
                for p in &parts {
                    if e + p.len() > d.len() {
                        break;
                    }
                    e += p.len();
                    whole += 1;
                }
                boundary = e == d.len();
                cov("stream_cuts", 1);
                perturb();
            }
            plan(&sc.inp, &sc.out, &[]);
            let r = convert(sc, sc.hseed, SimRead::new(d, 0), &out);
            if boundary {
                good("conversion", &r, &out.bytes(), &sc.snaps[..whole], sc);
            } else if r.is_ok() {
                fail("false-success", &format!("the input ends inside snapshot {whole}, yet success was reported with {r:?} rows"));
            }
        }
        "flip" => {
            let mut d = data;
            if !d.is_empty() {
                for (o, x) in &sc.flips {
                    let i = o % d.len();
                    d[i] ^= x;
                }
                cov("byte_corruptions", sc.flips.len() as u64);
                perturb();
            }
            // what the bytes say now
            let dec: Result<Vec<mx::Snapshot>, String> = with_seed(sc.hseed ^ 9, || {
                let mut at = &d[..];
                let mut v = vec![];
                while !at.is_empty() {
                    v.push(rmp_serde::from_read(&mut at).map_err(|e| e.to_string())?);
                }
                Ok(v)
            });
            plan(&sc.inp, &sc.out, &[]);
            let r = convert(sc, sc.hseed, SimRead::new(d, 0), &out);
            match (dec, &r) {
                (Err(e), Ok(n)) => fail("false-success", &format!("the corrupted input does not decode ({e}), yet success was reported with {n} rows")),
                (Err(_), Err(_)) => {}
                (Ok(v), Ok(n)) => {
                    if *n != v.len() as i64 {
                        fail("row-count", &format!("{n} rows reported for {} snapshots", v.len()));
                    }
                    let s: Result<Vec<Snap>, String> = v.iter().map(unreal).collect();
                    if let Ok(s) = s {
                        if regular(&s) {
                            good("conversion of a still valid input", &r, &out.bytes(), &s, sc);
                        }
                    }
                }
                (Ok(v), Err(e)) => {
                    let s: Result<Vec<Snap>, String> = v.iter().map(unreal).collect();
                    if let Ok(s) = s {
                        if regular(&s) {
                            fail("spurious-error", &format!("every snapshot of the input decodes, yet conversion fails: {e}"));
                        }
                    }
                }
            }
        }
        "grow" => {
            let more = encode(&sc.extra, sc.aux[0], sc.hseed ^ 3);
            let (_, n, _) = dry(sc, &data);
            plan(&sc.inp, &sc.out, &[]);
            let start = data.len();
            let mut rd = SimRead::new(data, 0);
            let torn = sc.aux[3] % 3 == 0;
            let mut all: Vec<Snap> = sc.snaps.clone();
            all.extend(sc.extra.iter().cloned());
            let mut at = sc.aux[1];
            if torn {
                let b = more.concat();
                let k = if b.is_empty() { 0 } else { sc.aux[2] as usize % b.len() };
                let first = at % (n[0] + 2);
                rd.events.push((first, Ev::Grow(b[..k].to_vec())));
                rd.events.push((first + (at >> 32) % 9, Ev::Grow(b[k..].to_vec())));
            } else {
                let mut ev = vec![];
                for _ in &more {
                    ev.push(at % (n[0] + 2));
                    at = at.wrapping_mul(31).wrapping_add(7) >> 1;
                }
                ev.sort();
                for (o, b) in ev.into_iter().zip(more) {
                    rd.events.push((o, Ev::Grow(b)));
                }
            }
            let _ = start;
            let r = convert(sc, sc.hseed, rd, &out);
            match &r {
                Ok(n) => {
                    let n = *n as usize;
                    if n < sc.snaps.len() || n > all.len() {
                        fail("row-count", &format!("{n} rows reported; the input had {} snapshots at first and {} at last", sc.snaps.len(), all.len()));
                    }
                    good("conversion of a growing input", &r, &out.bytes(), &all[..n], sc);
                }
                Err(e) if !torn => fail("spurious-error", &format!("the input only grew by whole snapshots, yet conversion fails: {e}")),
                Err(_) => {}
            }
        }
        "shrink" => {
            let (_, n, _) = dry(sc, &data);
            plan(&sc.inp, &sc.out, &[]);
            let mut rd = SimRead::new(data.clone(), 0);
            // cut at a snapshot boundary or anywhere, at any read
            let mut e = 0;
            let mut ends = vec![0];
            for p in &parts {
                e += p.len();
                ends.push(e);
            }
            let to = if sc.aux[3] % 2 == 0 { ends[sc.aux[2] as usize % ends.len()] } else { sc.aux[2] as usize % (data.len() + 1) };
            rd.events.push((sc.aux[1] % (n[0] + 1), Ev::Shrink(to)));
            let seen = rd.seen.clone();
            let r = convert(sc, sc.hseed, rd, &out);
            if let Ok(n) = &r {
                // success is only honest if the output is some whole prefix that is still there,
                // or everything
                let n = *n as usize;
                let read = seen.load(std::sync::atomic::Ordering::Relaxed);
                let left = ends.iter().filter(|x| **x <= to.max(read)).count() - 1;
                if n > sc.snaps.len() || n < left {
                    fail("row-count", &format!("{n} rows reported; {left} of {} snapshots had been read or were left", sc.snaps.len()));
                }
                good("conversion of a shrinking input", &r, &out.bytes(), &sc.snaps[..n], sc);
            }
        }
        "start" => {
            let pre: Vec<u8> = if sc.aux[3] % 2 == 0 {
                encode(&sc.extra, 0, sc.hseed ^ 3).concat()
            } else {
                let mut r = Rng::new(sc.aux[2]);
                (0..1 + r.below(40)).map(|_| r.next() as u8).collect()
            };
            let pos = pre.len();
            let mut d = pre;
            d.extend(&data);
            if pos > 0 {
                cov("nonzero_starts", 1);
                perturb();
            }
            plan(&sc.inp, &sc.out, &[]);
            let r = convert(sc, sc.hseed, SimRead::new(d, pos), &out);
            if sc.aux[3] % 2 == 0 && r == Ok((sc.extra.len() + sc.snaps.len()) as i64) {
                let mut all = sc.extra.clone();
                all.extend(sc.snaps.iter().cloned());
                good("conversion of the whole input", &r, &out.bytes(), &all, sc);
            } else {
                good("conversion from the handle's position", &r, &out.bytes(), &sc.snaps, sc);
            }
        }
        m => fail("harness", m),
    }
}

/// Corruption can produce recordings the reference table does not define
/// (two metrics of one column in one snapshot, times beyond 64-bit nanoseconds).
fn regular(s: &[Snap]) -> bool {
    let mut cols: std::collections::BTreeMap<(u8, String), String> = Default::default();
    for x in s {
        if x.ts.0 >= 18_446_744_073 || x.dur.0 >= 18_446_744_073 || x.meta.iter().any(|m| m.0 == "ARROW:schema") {
            return false;
        }
        let mut seen = std::collections::BTreeSet::new();
        for m in &x.mets {
            let (id, names) = column(m);
            if !seen.insert((m.kind, id.clone())) {
                return false;
            }
            for n in names {
                if cols.entry((m.kind, n)).or_insert_with(|| id.clone()) != &id {
                    return false;
                }
            }
        }
    }
    true
}

// ============================================================ C18
pub fn gen18(r: &mut Rng) -> Scen {
    let mut s = base(r, "C18");
    s.mode = r.pick(&["prefix", "prefix", "error", "error", "direct", "path-crash"]).to_string();
    s.aux = vec![r.below(3), r.next() >> 8, r.next() >> 8];
    let op = r.next() >> 20;
    match r.below(6) {
        0 => s.faults = vec![Fault { class: "read".into(), op, kind: r.pick(&RERR).to_string() }],
        1 => s.faults = vec![Fault { class: "seek".into(), op, kind: "eio".into() }],
        2 | 3 => s.faults = vec![Fault { class: "write".into(), op, kind: r.pick(&WERR).to_string() }],
        4 => s.faults = vec![Fault { class: "flush".into(), op, kind: "eio".into() }],
        _ => s.cut = Some(r.next() as usize >> 8),
    }
    s
}

fn rejected_or_whole(what: &str, b: &[u8], sc: &Scen, snaps: &[Snap]) {
    cov("crash_prefixes_checked", 1);
    if let Ok(t) = read_table(b) {
        if let Err(e) = matches(&t, snaps, sc.sparse, &sc.cmeta) {
            fail("plausible-partial-file", &format!("{what}: the {} bytes that reached storage read as a recording of {} rows: {e}", b.len(), t.rows));
        }
    }
}

pub fn exec18(sc: &Scen) {
    cov("snapshots_written", sc.snaps.len() as u64);
    if sc.mode == "direct" {
        return direct18(sc);
    }
    let parts = encode(&sc.snaps, sc.aux[0], sc.hseed);
    let data = flat(&parts);
    if sc.mode == "path-crash" {
        return crate::path::crash18(sc, &data);
    }
    let out = SimWrite::default();
    plan(&sc.inp, &sc.out, &[]);
    let r = convert(sc, sc.hseed, SimRead::new(data.clone(), 0), &out);
    let n = st().n;
    let full = out.bytes();
    good("conversion", &r, &full, &sc.snaps, sc);
    let (fl, bd) = {
        let d = out.0.lock().unwrap();
        (d.flushed, d.boundaries.clone())
    };
    if fl != full.len() {
        fail("unflushed", &format!("success was reported with {} of {} bytes not flushed through the writer", full.len() - fl, full.len()));
    }
    if sc.mode == "prefix" {
        perturb();
        let mut q = Rng::new(sc.aux[1]);
        let l = full.len();
        let mut pts: Vec<usize> = vec![0, 4, 8, l - 1, l - 2, l - 4, l - 7, l - 8, l - 9, l.saturating_sub(12)];
        for _ in 0..6 {
            let b = *q.pick(&bd);
            pts.extend([b, b.saturating_sub(1), b + 1]);
            pts.push(q.below(l as u64) as usize);
        }
        for p in pts {
            if p < l {
                cov("crash_prefixes_checked", 1);
                if let Ok(t) = read_table(&full[..p]) {
                    fail("plausible-partial-file", &format!("the first {p} of {l} bytes of the output read as a recording of {} rows", t.rows));
                }
            }
        }
        return;
    }
    // a conversion that fails must not leave something that reads as a recording
    let out = SimWrite::default();
    let mut d = data;
    if let Some(c) = sc.cut {
        if !d.is_empty() {
            d.truncate(c % d.len());
            perturb();
            cov("stream_cuts", 1);
        }
    }
    plan(&sc.inp, &sc.out, &place(&sc.faults, &n));
    let r = convert(sc, sc.hseed, SimRead::new(d, 0), &out);
    let b = out.bytes();
    if r.is_err() {
        rejected_or_whole("a conversion that returned an error", &b, sc, &sc.snaps);
    } else {
        let fl = out.0.lock().unwrap().flushed;
        if fl != b.len() {
            fail("unflushed", &format!("success was reported with {} of {} bytes not flushed through the writer", b.len() - fl, b.len()));
        }
    }
}

/// The writer used directly: abandoned at any point, it leaves nothing readable.
fn direct18(sc: &Scen) {
    let out = SimWrite::default();
    plan(&sc.inp, &sc.out, &[]);
    let w = out.clone();
    let stop = sc.aux[1] as usize % (sc.snaps.len() + 2);
    let fl = out.clone();
    with_seed(sc.hseed, move || {
        let e = |e: parquet::errors::ParquetError| -> ! { fail("spurious-error", &e.to_string()) };
        let mut schema = mx::ParquetSchema::new();
        for s in &sc.snaps {
            schema.push(s.real());
        }
        let mut p = schema.finalize(w, opts(sc), Some(sc.cmeta.iter().cloned().collect())).unwrap_or_else(|x| e(x));
        perturb();
        for (i, s) in sc.snaps.iter().enumerate() {
            if i == stop {
                drop(p);
                cov("crash_prefixes_checked", 1);
                if let Ok(t) = read_table(&fl.bytes()) {
                    fail("plausible-partial-file", &format!("a writer dropped after {i} of {} snapshots left a readable recording of {} rows", sc.snaps.len(), t.rows));
                }
                return;
            }
            p.push(s.real()).unwrap_or_else(|x| e(x));
            if sc.aux[2] % 3 == 0 {
                cov("crash_prefixes_checked", 1);
                if let Ok(t) = read_table(&fl.bytes()) {
                    fail("plausible-partial-file", &format!("after {} of {} snapshots the output already reads as a recording of {} rows", i + 1, sc.snaps.len(), t.rows));
                }
            }
        }
        if stop == sc.snaps.len() {
            drop(p);
            cov("crash_prefixes_checked", 1);
            if let Ok(t) = read_table(&fl.bytes()) {
                fail("plausible-partial-file", &format!("a writer dropped before finalisation left a readable recording of {} rows", t.rows));
            }
            return;
        }
        let n = p.finalize().unwrap_or_else(|x| e(x)).num_rows;
        good("writer", &Ok(n), &fl.bytes(), &sc.snaps, sc);
        let d = fl.0.lock().unwrap();
        if d.flushed != d.data.len() {
            fail("unflushed", &format!("finalisation succeeded with {} of {} bytes not flushed through the writer", d.data.len() - d.flushed, d.data.len()));
        }
    });
}

// ============================================================ C19
pub fn gen19(r: &mut Rng) -> Scen {
    let mut s = base(r, "C19");
    s.mode = "hash".into();
    s.aux = vec![r.below(3), r.next() >> 8];
    s
}
pub fn exec19(sc: &Scen) {
    cov("snapshots_written", sc.snaps.len() as u64);
    let names = |t: &Table| {
        let mut v: Vec<(String, String)> = t.cols.iter().map(|c| (c.mtype.clone(), c.name.clone())).collect();
        v.sort();
        v
    };
    let mut first: Option<Vec<(String, String)>> = None;
    let mut q = Rng::new(sc.aux[1]);
    for k in 0..4 {
        // other hash seeds, other insertion orders, the other snapshot format
        let mut snaps = sc.snaps.clone();
        if k > 0 {
            perturb();
            for s in &mut snaps {
                shuffle(&mut q, &mut s.mets);
                shuffle(&mut q, &mut s.meta);
                for m in &mut s.mets {
                    shuffle(&mut q, &mut m.meta);
                }
                if q.chance(1, 2) {
                    s.v2 = !s.v2;
                }
            }
        }
        let out = SimWrite::default();
        plan(&sc.inp, &sc.out, &[]);
        let hs = q.next();
        let r = if k == 3 {
            let w = out.clone();
            with_seed(hs, || {
                let mut schema = mx::ParquetSchema::default();
                for s in &snaps {
                    schema.push(s.real());
                }
                let mut p = schema.finalize(w, opts(sc), Some(sc.cmeta.iter().cloned().collect())).map_err(|e| e.to_string())?;
                for s in &snaps {
                    p.push(s.real()).map_err(|e| e.to_string())?;
                }
                Ok(p.finalize().map_err(|e| e.to_string())?.num_rows)
            })
        } else {
            let data = flat(&encode(&snaps, sc.aux[0], hs));
            convert(sc, hs, SimRead::new(data, 0), &out)
        };
        let t = good(&format!("conversion {k}"), &r, &out.bytes(), &snaps, sc);
        let n = names(&t);
        match &first {
            None => first = Some(n),
            Some(f) if *f == n => {}
            Some(f) => fail("column-moved", &format!("conversion {k} of the same metrics has columns {:?} where the first had {:?}", n.iter().filter(|x| !f.contains(x)).collect::<Vec<_>>(), f.iter().filter(|x| !n.contains(x)).collect::<Vec<_>>())),
        }
    }
}

pub use crate::live::{exec21, gen21};
pub use crate::path::{exec20, gen20};
pub fn convert_bytes(sc: &Scen, data: Vec<u8>) -> (Res, SimWrite) {
    let out = SimWrite::default();
    let r = convert(sc, sc.hseed, SimRead::new(data, 0), &out);
    (r, out)
}
pub fn check_good(what: &str, r: &Res, out: &[u8], snaps: &[Snap], sc: &Scen) {
    good(what, r, out, snaps, sc);
}
pub fn check_partial(what: &str, b: &[u8], sc: &Scen) {
    rejected_or_whole(what, b, sc, &sc.snaps)
}
pub fn place_faults(f: &[Fault], n: &[u64; 8]) -> Vec<Fault> {
    place(f, n)
}
pub fn must_surface(what: &str, r: &Res) -> bool {
    must_fail(what, r)
}
pub fn encoded(sc: &Scen) -> Vec<u8> {
    flat(&encode(&sc.snaps, sc.aux[0], sc.hseed))
}
pub fn make_options(sc: &Scen) -> mx::ParquetOptions {
    opts(sc)
}
pub fn make_converter(sc: &Scen) -> mx::MsgpackToParquet {
    converter(sc)
}
