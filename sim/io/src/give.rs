//! What conversions hold on to (C25): descriptors, files and memory after they have returned, and memory
//! while they run.
#![allow(static_mut_refs)]
use crate::dev::{self, cov, disk_room, perturb, plan, st};
use crate::path::{by_path, dir};
use crate::props::*;
use crate::rng::Rng;
use crate::run::{fail, with_seed};
use crate::scen::*;
use metriken_exposition as mx;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fs;
use std::io::{Read, Seek, Write};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Counts what is allocated.
pub struct Counted;
static BLOCKS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BLOCKS.fetch_add(1, Relaxed);
        let n = BYTES.fetch_add(l.size() as u64, Relaxed) + l.size() as u64;
        PEAK.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
}
fn live() -> (u64, u64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}

pub fn gen25(r: &mut Rng) -> Scen {
    let mut s = base(r, "C25");
    s.snaps.truncate(60);
    s.mode = r.pick(&["plain", "plain", "missing-input", "open-in", "open-out", "read", "read", "seek", "write", "write", "full", "eintr", "cut", "cut", "meta", "peak"]).to_string();
    if s.mode == "peak" && !r.chance(1, 3) {
        s.mode = "plain".into();
    }
    if s.mode == "plain" && r.chance(1, 60) {
        s.mode = "rows".into();
    }
    // encoder, path style, fault position, how, rounds, writer dropped after; peak: columns, shape, length
    s.aux = vec![r.below(3), r.next() >> 8, r.next() >> 8, r.below(3), 5 + r.below(4), r.next() >> 40, 1 + r.below(3), r.below(4), 16 + r.below(24)];
    let op = r.next() >> 20;
    let f = |class: &str, kind: &str| Fault { class: class.into(), op, kind: kind.into() };
    match s.mode.as_str() {
        "open-in" => s.faults = vec![f("open-in", r.pick(&["eacces", "eio"]))],
        "open-out" => s.faults = vec![f("open-out", r.pick(&["eacces", "enospc", "eio"]))],
        "read" => s.faults = vec![f("read", r.pick(&["eio", "eio-sticky", "wouldblock"]))],
        "seek" => s.faults = vec![f("seek", "eio")],
        "write" => s.faults = vec![f("write", r.pick(&["eio", "eio-sticky", "enospc-sticky", "enospc"]))],
        "meta" => s.faults = vec![f("meta", r.pick(&["eio", "enospc", "eacces"]))],
        "eintr" => s.faults = vec![f(r.pick(&["read", "write"]), "eintr")],
        "cut" => s.cut = Some(r.next() as usize >> 8),
        "peak" | "rows" => {
            s.snaps.truncate(1);
            s.inp.eintr = 0;
            s.inp.max = s.inp.max.max(4096);
            s.out.max = s.out.max.max(4096);
        }
        _ => {}
    }
    s
}

fn descriptors() -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir("/proc/self/fd")
        .map(|d| d.filter_map(|e| e.ok()).filter_map(|e| fs::read_link(e.path()).ok().map(|l| l.to_string_lossy().into_owned())).filter(|l| !l.starts_with("/proc/")).collect())
        .unwrap_or_default();
    v.sort();
    v
}
fn names(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

/// Files given by the caller.
fn by_handles(sc: &Scen, i: &Path, o: &Path) -> Result<i64, String> {
    let r = with_seed(sc.hseed, || {
        let c = make_converter(sc);
        unsafe { dev::ACTIVE = true };
        let r = (|| {
            let i = fs::File::open(i).map_err(|e| e.to_string())?;
            let o = fs::File::create(o).map_err(|e| e.to_string())?;
            c.convert_file_handle(i, o).map_err(|e| e.to_string())
        })();
        unsafe { dev::ACTIVE = false };
        r
    });
    unsafe { dev::ACTIVE = false };
    cov(if r.is_ok() { "conversions_ok" } else { "conversions_failed" }, 1);
    r
}

/// The writer used directly and dropped at some point.
fn by_writer(sc: &Scen, o: &Path, upto: usize) -> Result<i64, String> {
    let r = with_seed(sc.hseed, || {
        unsafe { dev::ACTIVE = true };
        let r = (|| {
            let o = fs::File::create(o).map_err(|e| e.to_string())?;
            let mut schema = mx::ParquetSchema::new();
            for s in &sc.snaps {
                schema.push(s.real());
            }
            let mut p = schema.finalize(o, make_options(sc), None).map_err(|e| e.to_string())?;
            for s in sc.snaps.iter().take(upto) {
                p.push(s.real()).map_err(|e| e.to_string())?;
            }
            if upto >= sc.snaps.len() + 1 {
                return Ok(p.finalize().map_err(|e| e.to_string())?.num_rows);
            }
            Err("dropped".into())
        })();
        unsafe { dev::ACTIVE = false };
        r
    });
    unsafe { dev::ACTIVE = false };
    r
}

fn renamed(sc: &Scen, k: usize, other: bool) -> Scen {
    let mut sc = sc.clone();
    if other {
        for m in sc.snaps.iter_mut().flat_map(|s| &mut s.mets) {
            m.name = format!("{}-{k:04}", m.name);
            m.meta.push(("of the day".into(), format!("{k:04}")));
        }
    }
    sc
}

pub fn exec25(sc: &Scen) {
    match sc.mode.as_str() {
        "peak" => return peak(sc),
        "rows" => return rows(sc),
        _ => {}
    }
    cov("snapshots_written", sc.snaps.len() as u64);
    let mut data = encoded(&renamed(sc, 0, sc.aux[1] & 2 != 0));
    let d = dir();
    if let (Some(c), false) = (sc.cut, data.is_empty()) {
        data.truncate(1 + c % data.len());
        cov("stream_cuts", 1);
        perturb();
    }
    let (mut i, o) = (d.join("recording.msgpack"), d.join("out.parquet"));
    fs::write(&i, &data).unwrap();
    let size = data.len();
    drop(data);
    let how = sc.aux[3];
    let upto = sc.aux[5] as usize % (sc.snaps.len() + 2);
    let go = |sc: &Scen, i: &Path| match how {
        0 => by_path(sc, i, &o),
        1 => by_handles(sc, i, &o),
        _ => by_writer(sc, &o, upto),
    };
    // every time other metrics, in recordings of the same size
    let other = sc.aux[1] & 2 != 0;
    let mut cur = renamed(sc, 0, other);
    // count the calls of a clean run, then place the faults
    plan(&sc.inp, &sc.out, &[]);
    let _ = go(&cur, &i);
    let n = st().n;
    let room = fs::metadata(&o).map_or(size, |m| m.len() as usize);
    if sc.mode == "missing-input" {
        i = d.join("nothing-here");
        perturb();
    }
    let placed = place_faults(&sc.faults, &n);
    let rounds = sc.aux[4] as usize;
    let fds = descriptors();
    let mut before = names(&d);
    if !before.contains(&"out.parquet".to_string()) {
        before.push("out.parquet".into());
    }
    let mut v: Vec<(u64, u64)> = Vec::with_capacity(400);
    let mut strays: Vec<usize> = Vec::with_capacity(400);
    let mut last = rounds;
    let mut k = 0;
    while k < last {
        if other {
            cur = renamed(sc, 1 + k, true);
            let mut b = encoded(&cur);
            if let (Some(c), false) = (sc.cut, b.is_empty()) {
                b.truncate(1 + c % b.len());
            }
            if sc.mode != "missing-input" {
                fs::write(&i, &b).unwrap();
            }
        }
        plan(&sc.inp, &sc.out, &placed);
        if sc.mode == "full" {
            disk_room(Some(sc.aux[2] as usize % room.max(1)));
        }
        let ok = go(&cur, &i).is_ok();
        disk_room(None);
        cov("rounds_of_conversions", 1);
        let now = descriptors();
        if now != fds {
            fail("descriptor-left-open", &format!("{} descriptors were open before the conversions and {} after {} of them: {:?}", fds.len(), now.len(), k + 1, now.iter().filter(|x| !fds.contains(x)).collect::<Vec<_>>()));
        }
        drop(now);
        let extra: Vec<String> = names(&d).into_iter().filter(|x| !before.contains(x)).collect();
        if ok && !extra.is_empty() && strays.iter().all(|x| *x == 0) {
            fail("file-left-behind", &format!("a successful conversion left {extra:?} behind"));
        }
        strays.push(extra.len());
        drop(extra);
        v.push(live());
        k += 1;
        if k == rounds && rounds > 2 {
            let (a, z) = (v[1], v[k - 1]);
            if z.0 > a.0 || z.1 > a.1 {
                last = rounds + 60;
                cov("runs_extended_on_suspicion", 1);
            }
        }
    }
    if sc.mode != "meta" && rounds > 2 && strays[rounds - 1] > strays[1] && strays[rounds - 1] >= rounds / 2 {
        fail("files-left-behind", &format!("{} conversions left {} files behind", rounds, strays[rounds - 1]));
    }
    if last > rounds {
        let e = &v[rounds..];
        let q = |i: usize| &e[e.len() * i / 4..e.len() * (i + 1) / 4];
        let least = |v: &[(u64, u64)]| (v.iter().map(|x| x.0).min().unwrap(), v.iter().map(|x| x.1).min().unwrap());
        let most = |v: &[(u64, u64)]| (v.iter().map(|x| x.0).max().unwrap(), v.iter().map(|x| x.1).max().unwrap());
        let grew = |a: usize, b: usize| least(q(b)).0 >= most(q(a)).0 + 4;
        let bytes = least(q(3)).1 >= most(q(0)).1 + 2000;
        if grew(0, 2) && grew(1, 3) || bytes {
            fail("left-behind", &format!("after each of the first {rounds} conversions at most {:?} blocks and bytes were allocated, but at least {:?}, {:?}, {:?} and {:?} in the four quarters of the {} that followed", most(&v[..rounds]), least(q(0)), least(q(1)), least(q(2)), least(q(3)), e.len()));
        }
    }
    let _ = fs::remove_dir_all(&d);
}

// ------------------------------------------------------------ while it runs
struct Sink;
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A recording whose bytes are made up anew whenever they are read.
struct Long {
    len: u64,
    at: u64,
    part: Vec<u8>,
    parts: Vec<u64>,
    which: usize,
    sc: Scen,
}
fn nth(sc: &Scen, i: u64) -> Snap {
    let (g, x) = [(4u8, 40u8), (5, 32), (6, 24), (7, 16)][sc.aux[7] as usize % 4];
    let n = total(g, x);
    let mut mets = vec![Met { kind: 0, name: "c".into(), v: i, ..Default::default() }, Met { kind: 1, name: "g".into(), v: i, ..Default::default() }];
    for c in 0..sc.aux[6] {
        let mut r = Rng::new(sc.aux[2] ^ (i * 16 + c));
        mets.push(Met { kind: 2, name: format!("h{c}"), h: Some((g, x, (0..n).map(|b| (b, r.next() | 1 << 63)).collect())), ..Default::default() });
    }
    Snap { v2: sc.aux[1] & 1 == 1, ts: (1_700_000_000 + i, 0), dur: (1, 0), meta: vec![], mets }
}
impl Long {
    fn new(sc: &Scen, n: u64) -> Self {
        let parts: Vec<u64> = (0..n).map(|i| nth(sc, i).golden_msgpack().len() as u64).collect();
        Long { len: parts.iter().sum(), at: 0, part: vec![], parts, which: usize::MAX, sc: sc.clone() }
    }
}
impl Read for Long {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut start = 0;
        for (i, l) in self.parts.iter().enumerate() {
            if self.at < start + l {
                if self.which != i {
                    self.part = nth(&self.sc, i as u64).golden_msgpack();
                    self.which = i;
                }
                let p = &self.part[(self.at - start) as usize..];
                let k = p.len().min(b.len());
                b[..k].copy_from_slice(&p[..k]);
                self.at += k as u64;
                return Ok(k);
            }
            start += l;
        }
        Ok(0)
    }
}
impl Seek for Long {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            std::io::SeekFrom::Start(n) => n as i64,
            std::io::SeekFrom::Current(n) => self.at as i64 + n,
            std::io::SeekFrom::End(n) => self.len as i64 + n,
        };
        if n < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.at = n as u64;
        Ok(self.at)
    }
}

fn peak(sc: &Scen) {
    perturb();
    let mut sc = sc.clone();
    sc.batch = 8 + sc.aux[5] as usize % 8;
    let sc = &sc;
    let n = sc.aux[8].max(2 * sc.batch as u64);
    let mut v = vec![];
    for n in [n, 4 * n] {
        let rd = Long::new(sc, n);
        let len = rd.len;
        let from = live().1;
        let mut most = 0;
        plan(&sc.inp, &sc.out, &[]);
        let r = with_seed(sc.hseed, || {
            PEAK.store(BYTES.load(Relaxed), Relaxed);
            let r = make_converter(sc).convert_file_handle(rd, Sink).map_err(|e| e.to_string());
            most = PEAK.load(Relaxed);
            r
        });
        match r {
            Ok(k) if k as u64 == n => {}
            r => fail("wrong-result", &format!("converting {n} snapshots gave {r:?}")),
        }
        cov("long_recordings_measured", 1);
        dev::trace(len);
        v.push((n, len, most.saturating_sub(from)));
    }
    let (a, z) = (v[0], v[1]);
    if std::env::var("SIM_DEBUG").is_ok() {
        eprintln!("{a:?} {z:?} batch {}", sc.batch);
    }
    if z.2.saturating_sub(a.2) > (z.1 - a.1) / 2 {
        fail("memory-grows-with-the-recording", &format!("in batches of {} rows, converting {} snapshots ({} bytes) took {} bytes of memory, and {} snapshots ({} bytes) took {}", sc.batch, a.0, a.1, a.2, z.0, z.1, z.2));
    }
}

/// Many small snapshots: what is kept of each would add up.
fn rows(sc: &Scen) {
    perturb();
    let mut sc = sc.clone();
    sc.batch = 4000 + sc.aux[5] as usize % 3 * 1000;
    let sc = &sc;
    let cols = 2 + sc.aux[6];
    let mut v = vec![];
    for n in [2 * sc.batch as u64, 10 * sc.batch as u64] {
        let mut data = vec![];
        for i in 0..n {
            let mets = (0..sc.aux[6]).map(|c| Met { kind: (c % 2) as u8, name: format!("m{c}"), v: i * (1 + c), ..Default::default() }).collect();
            data.extend(Snap { v2: sc.aux[1] & 1 == 1, ts: (1_700_000_000 + i, 7), dur: (0, (i % 1000) as u32), meta: vec![], mets }.golden_msgpack());
        }
        let len = data.len() as u64;
        let rd = std::io::Cursor::new(data);
        let from = live().1;
        let mut most = 0;
        plan(&sc.inp, &sc.out, &[]);
        let r = with_seed(sc.hseed, || {
            PEAK.store(BYTES.load(Relaxed), Relaxed);
            let r = make_converter(sc).convert_file_handle(rd, Sink).map_err(|e| e.to_string());
            most = PEAK.load(Relaxed);
            r
        });
        match r {
            Ok(k) if k as u64 == n => {}
            r => fail("wrong-result", &format!("converting {n} snapshots gave {r:?}")),
        }
        cov("long_recordings_measured", 1);
        dev::trace(len);
        v.push((n, len, most.saturating_sub(from)));
    }
    let (a, z) = (v[0], v[1]);
    // what parquet keeps of every row group's columns until the footer is written
    let book = (z.0 - a.0) / sc.batch as u64 * cols * 3000;
    if std::env::var("SIM_DEBUG").is_ok() {
        eprintln!("{a:?} {z:?} batch {} columns {cols} allowed {book}", sc.batch);
    }
    if z.2.saturating_sub(a.2) > book.max((z.0 - a.0) * 5) {
        fail("memory-grows-with-the-recording", &format!("in batches of {} rows, converting {} small snapshots took {} bytes of memory, and {} took {}", sc.batch, a.0, a.2, z.0, z.2));
    }
}
