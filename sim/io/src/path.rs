//! Conversions by path, over a scratch directory whose libc calls are ours.
#![allow(static_mut_refs)]
use crate::dev::{self, cov, disk_room, perturb, plan, st};
use crate::props::*;
use crate::rng::Rng;
use crate::run::{child, fail, with_seed};
use crate::scen::*;
use std::fs;
use std::path::{Path, PathBuf};

type Res = Result<i64, String>;

pub fn root() -> PathBuf {
    PathBuf::from(unsafe { String::from_utf8_lossy(&dev::SCRATCH).into_owned() })
}

/// A fresh directory for this run.
pub fn dir() -> PathBuf {
    let d = root().join("run");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn by_path(sc: &Scen, i: &Path, o: &Path) -> Res {
    let style = sc.aux[1] % 3;
    let r = with_seed(sc.hseed, || {
        let c = make_converter(sc);
        unsafe { dev::ACTIVE = true };
        let r = match style {
            0 => c.convert_file_path(i, o),
            1 => c.convert_file_path(i.to_path_buf(), o.to_str().unwrap()),
            _ => c.convert_file_path(i.to_str().unwrap().to_string(), o.as_os_str()),
        };
        unsafe { dev::ACTIVE = false };
        r.map_err(|e| e.to_string())
    });
    unsafe { dev::ACTIVE = false };
    cov(if r.is_ok() { "conversions_ok" } else { "conversions_failed" }, 1);
    dev::trace(r.is_ok() as u64);
    r
}

pub fn gen20(r: &mut Rng) -> Scen {
    let mut s = base(r, "C20");
    s.mode = r.pick(&["plain", "plain", "plain", "missing-input", "open-in", "open-out", "out-dir-missing", "in-is-dir", "read", "read", "seek", "write", "write", "full", "eintr", "cut", "meta"]).to_string();
    // encoder, path style, fault position, previous output, symlinks, names, relative paths
    s.aux = vec![r.below(3), r.next() >> 8, r.next() >> 8, r.below(4), r.below(4), if r.chance(1, 2) { 1 + r.below(NAMES.len() as u64 - 1) } else { 0 }, r.below(4)];
    let op = r.next() >> 20;
    let f = |class: &str, kind: &str| Fault { class: class.into(), op, kind: kind.into() };
    match s.mode.as_str() {
        "open-in" => s.faults = vec![f("open-in", r.pick(&["eacces", "eio"]))],
        "open-out" => s.faults = vec![f("open-out", r.pick(&["eacces", "enospc", "eio"]))],
        "read" => s.faults = vec![f("read", r.pick(&["eio", "eio-sticky", "wouldblock"]))],
        "seek" => s.faults = vec![f("seek", "eio")],
        "write" => s.faults = vec![f("write", r.pick(&["eio", "eio-sticky", "enospc-sticky", "enospc"]))],
        "meta" => s.faults = vec![f("meta", r.pick(&["eio", "enospc", "eacces"]))],
        "eintr" => {
            for _ in 0..1 + r.below(4) {
                s.faults.push(Fault { class: r.pick(&["read", "write", "open-in", "open-out"]).to_string(), op: r.next() >> 20, kind: "eintr".into() });
            }
        }
        "cut" => s.cut = Some(r.next() as usize >> 8),
        _ => {}
    }
    if r.chance(1, 4) {
        s.inp = Frag::default();
        s.out = Frag::default();
    }
    s
}

/// What input and output are called: also names that an implementation might
/// think of for files of its own.
const NAMES: [(&str, &str); 16] = [
    ("recording.msgpack", "out.parquet"),
    ("out.tmp", "out.parquet"),
    ("out.parquet.tmp", "out.parquet"),
    ("out.parquet.part", "out.parquet"),
    ("out.parquet.partial", "out.parquet"),
    (".out.parquet.tmp", "out.parquet"),
    ("out.parquet~", "out.parquet"),
    ("out.bak", "out.parquet"),
    ("out.parquet.bak", "out.parquet"),
    ("out.msgpack", "out.parquet"),
    ("out", "out.parquet"),
    ("out.parquet", "out"),
    ("rec.parquet", "out.msgpack"),
    ("sub/out.parquet", "out.parquet"),
    ("größe von a.msgpack", "sub/größe von a.parquet"),
    ("out.parquet.new", "out.parquet"),
];

/// What the output path held before.
fn previous(sc: &Scen, good: &[u8]) -> Option<Vec<u8>> {
    let mut r = Rng::new(sc.aux[2]);
    match sc.aux[3] {
        0 => None,
        1 => Some((0..r.below(20_000)).map(|_| r.next() as u8).collect()),
        2 => {
            // a longer, valid file
            let mut v = vec![0u8; 4096 + good.len()];
            v.extend_from_slice(good);
            Some(v)
        }
        _ => Some(good.to_vec()),
    }
}

pub fn exec20(sc: &Scen) {
    cov("snapshots_written", sc.snaps.len() as u64);
    let mut data = encoded(sc);
    let d = dir();
    // the same conversion over open handles, for comparison
    plan(&sc.inp, &sc.out, &[]);
    let (r, w) = convert_bytes(sc, data.clone());
    let reference = w.bytes();
    check_good("handle conversion", &r, &reference, &sc.snaps, sc);
    let old = previous(sc, &reference);
    let mut undecodable = false;
    if let (Some(c), false) = (sc.cut, data.is_empty()) {
        let n = 1 + c % data.len();
        if n < data.len() {
            data.truncate(n);
            cov("stream_cuts", 1);
            perturb();
        }
        // cut inside the last snapshot for certain
        undecodable = rmp_all(&data).is_none();
    }
    let (iname, oname) = NAMES[sc.aux.get(5).map_or(0, |n| *n as usize) % NAMES.len()];
    let real_in = d.join(iname);
    let real_out = d.join(oname);
    for f in [&real_in, &real_out] {
        fs::create_dir_all(f.parent().unwrap()).unwrap();
    }
    fs::write(&real_in, &data).unwrap();
    if let Some(o) = &old {
        fs::write(&real_out, o).unwrap();
    }
    let (mut i, mut o) = (real_in.clone(), real_out.clone());
    if sc.aux[4] == 1 {
        i = d.join("in.link");
        std::os::unix::fs::symlink(&real_in, &i).unwrap();
        cov("symlinked_paths", 1);
    }
    if sc.aux[4] == 2 && old.is_some() {
        o = d.join("out.link");
        std::os::unix::fs::symlink(&real_out, &o).unwrap();
        cov("symlinked_paths", 1);
    }
    let mut must = "";
    match sc.mode.as_str() {
        "missing-input" => {
            i = d.join("nothing-here");
            must = "the input does not exist";
        }
        "out-dir-missing" => {
            o = d.join("no-such-dir").join("out.parquet");
            must = "the output cannot be created";
        }
        "in-is-dir" => {
            i = d.clone();
            must = "the input is a directory";
        }
        _ => {}
    }
    // count calls on a clean run over another output, then place the faults
    let mut n = [0u64; 8];
    let mut size = reference.len();
    if !sc.faults.is_empty() || sc.mode == "full" {
        plan(&sc.inp, &sc.out, &[]);
        let o2 = d.join("dry.parquet");
        let r = by_path(sc, &real_in, &o2);
        n = st().n;
        let b = fs::read(&o2).unwrap_or_default();
        size = b.len();
        check_good("path conversion", &r, &b, &sc.snaps, sc);
    }
    plan(&sc.inp, &sc.out, &place_faults(&sc.faults, &n));
    if sc.mode == "full" {
        disk_room(Some(sc.aux[2] as usize % size.max(1)));
    }
    if !must.is_empty() {
        perturb();
    }
    if sc.aux.get(6) == Some(&1) {
        // the same files by relative paths
        std::env::set_current_dir(&d).unwrap();
        let rel = |p: PathBuf| p.strip_prefix(&d).ok().filter(|p| !p.as_os_str().is_empty()).map(|p| p.to_path_buf()).unwrap_or(p);
        (i, o) = (rel(i), rel(o));
        unsafe { dev::RELATIVE = true };
        cov("relative_paths", 1);
    }
    let r = by_path(sc, &i, &o);
    unsafe { dev::RELATIVE = false };
    disk_room(None);
    if fs::read(&real_in).ok().as_deref() != Some(&data[..]) {
        fail("input-modified", "the conversion modified its input");
    }
    let now = fs::read(&real_out).ok();
    let open_failed = matches!(sc.mode.as_str(), "missing-input") || (sc.mode == "open-in" && !st().hard.is_empty());
    if open_failed && old.is_some() && now != old {
        fail("output-clobbered", &format!("the input could not be opened, yet the existing output of {} bytes was changed to {:?} bytes", old.as_ref().map_or(0, |o| o.len()), now.map(|n| n.len())));
    }
    if !must.is_empty() {
        if let Ok(n) = r {
            fail("false-success", &format!("{must}, yet success was reported with {n} rows"));
        }
    } else if undecodable {
        if let Ok(n) = r {
            fail("false-success", &format!("the input is cut short, yet success was reported with {n} rows"));
        }
    } else if sc.cut.is_some() {
        let k = rmp_all(&data).unwrap();
        check_good("path conversion", &r, &now.unwrap_or_default(), &sc.snaps[..k], sc);
    } else {
        let surfaced = must_surface("path conversion", &r);
        if !surfaced || r.is_ok() {
            check_good("path conversion", &r, &now.unwrap_or_default(), &sc.snaps, sc);
        }
    }
    let _ = fs::remove_dir_all(&d);
}

/// Number of snapshots if the bytes are whole snapshots only.
fn rmp_all(b: &[u8]) -> Option<usize> {
    let b = b.to_vec();
    with_seed(7, move || {
        let mut at = &b[..];
        let mut n = 0;
        while !at.is_empty() {
            rmp_serde::from_read::<_, metriken_exposition::Snapshot>(&mut at).ok()?;
            n += 1;
        }
        Some(n)
    })
}

/// C18 at the file system: the converting process dies at any call.
pub fn crash18(sc: &Scen, data: &[u8]) {
    let d = dir();
    let (i, o, o2) = (d.join("recording.msgpack"), d.join("out.parquet"), d.join("dry.parquet"));
    fs::write(&i, data).unwrap();
    plan(&sc.inp, &sc.out, &[]);
    let r = by_path(sc, &i, &o2);
    let ops = st().ops;
    check_good("path conversion", &r, &fs::read(&o2).unwrap_or_default(), &sc.snaps, sc);
    for k in 0..3u64 {
        let at = 1 + crate::rng::mix(sc.aux[1] + k) % ops.max(1);
        let _ = fs::remove_file(&o);
        perturb();
        cov("process_crashes", 1);
        let stt = child(|| {
            plan(&sc.inp, &sc.out, &[]);
            st().crash_at = Some(at);
            let _ = by_path(sc, &i, &o);
        });
        if stt != 77 << 8 && stt != 0 {
            fail("crash", &format!("the converting process ended with status {stt:#x}"));
        }
        if fs::read(&i).ok().as_deref() != Some(data) {
            fail("input-modified", "a crashed conversion modified its input");
        }
        if let Ok(b) = fs::read(&o) {
            check_partial(&format!("a conversion that crashed at file-system call {at} of {ops}"), &b, sc);
        }
    }
    let _ = fs::remove_dir_all(&d);
}
