//! Seeded search, minimisation, replay files and evidence.
#![allow(static_mut_refs)]
use crate::dev::{self, NAMES, NC};
use crate::rng::{mix, Rng};
use crate::run::{run_one, shared, Outcome};
use crate::scen::{Frag, Scen};
use crate::Prop;
use serde_json::json;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub evidence: String,
    pub replays: String,
    pub runs: u64,
    pub cap_s: u64,
    pub workers: usize,
}

pub fn make(p: &Prop, seed: u64, idx: u64) -> Scen {
    let s = mix(seed.wrapping_mul(0x1_0000_0001).wrapping_add(idx).wrapping_add(mix(p.salt)));
    (p.gen)(&mut Rng::new(s))
}

static mut OWNER: u32 = 0;
fn scratch_path(w: usize) -> String {
    format!("{}/simio.{}.{w}", std::env::temp_dir().display(), unsafe { OWNER })
}
/// A scratch directory of this worker's own.
pub fn scratch(w: usize) {
    unsafe {
        if OWNER == 0 {
            OWNER = std::process::id();
        }
        dev::SCRATCH = scratch_path(w).into_bytes();
    }
    std::fs::create_dir_all(scratch_path(w)).expect("scratch directory");
}
pub fn clean(w: usize) {
    let _ = std::fs::remove_dir_all(scratch_path(w));
}

const HASHES: usize = 2_000_000;
#[repr(C)]
struct Work {
    runs: u64,
    viol: u64,
    done: u64,
    recheck: u64,
    nondet: u64,
    cnt: [u64; NC],
    nh: u64,
    hashes: [u64; HASHES],
}

pub fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    unsafe { OWNER = std::process::id() };
    let stop = shared(4096) as *mut u64;
    let mut works = vec![];
    for w in 0..o.workers {
        let wk = unsafe { &mut *(shared(core::mem::size_of::<Work>()) as *mut Work) };
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            worker(p, o, w, wk, stop, t0);
            crate::run::exit(0);
        }
        works.push((wk, pid));
    }
    for (_, pid) in &works {
        let mut st = 0;
        while unsafe { waitpid(*pid, &mut st, 0) } < 0 {}
    }
    for w in 0..o.workers {
        clean(w);
    }
    let search = t0.elapsed().as_secs_f64();
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    let mut cnt = [0u64; NC];
    let (mut runs, mut recheck, mut nondet) = (0, 0, 0);
    let mut viol: Option<u64> = None;
    for (w, _) in &works {
        runs += w.runs;
        recheck += w.recheck;
        nondet += w.nondet;
        for i in 0..NC {
            cnt[i] += w.cnt[i];
        }
        distinct.extend(&w.hashes[..w.nh as usize]);
        if w.viol != 0 {
            viol = Some(viol.map_or(w.viol - 1, |v| v.min(w.viol - 1)));
        }
    }
    if viol.is_none() && works.iter().any(|w| w.0.done == 0) {
        println!("{}: a search worker was ended from outside; no verdict", p.id);
        return 2;
    }
    let mut code = 0;
    let mut vtext = String::new();
    if let Some(idx) = viol {
        let r = report(p, o, idx, &mut vtext);
        if r.starts_with('!') {
            println!("{}: {}", p.id, &r[1..]);
            return 2;
        }
        code = 1;
        println!("VIOLATION property={} replay={}", p.id, r);
    }
    scratch(99);
    let samples: Vec<String> = (0..2)
        .map(|i| {
            let sc = make(p, o.seed, i);
            let out = run_one(p, &sc);
            let mut t = serde_json::to_string(&sc).unwrap();
            if t.len() > 3000 {
                t = t.chars().take(3000).collect::<String>() + "...";
            }
            format!("run {i}: {t} outcome={}", if out.ok { "held" } else { out.kind.as_str() })
        })
        .collect();
    clean(99);
    let per_hour = (runs as f64 / search.max(0.001) * 3600.0) as u64;
    let faults: serde_json::Map<String, serde_json::Value> = NAMES.iter().zip(cnt).filter(|(_, c)| *c > 0).map(|(n, c)| (n.to_string(), json!(c))).collect();
    let mut cov = json!({
        "evaluations": runs,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule,
        "samples": samples,
        "runs_per_hour": per_hour,
        "seeds_per_hour": per_hour,
        "simulated_seconds": cnt[dev::name("simulated_ns")] as f64 / 1e9,
        "events_and_faults_injected": faults,
        "determinism_rechecks": recheck,
        "determinism_mismatches": nondet,
        "components_real": ["metriken", "metriken-core", "metriken-exposition", "histogram", "rmp-serde", "serde_json", "arrow", "parquet", "zstd", "std"],
        "components_simulated": ["input device", "output device", "file system calls (C18, C20)", "system clock", "hash seeds", "process crash and restart"],
        "search_seconds": search,
    });
    if !vtext.is_empty() {
        cov["violation"] = json!(vtext);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": code,
        "assumptions": ["the parquet crate's reader is the judge of what a file contains", "the reference table and column-naming model are independent of the code under test"],
    });
    if !o.evidence.is_empty() {
        if let Some(d) = std::path::Path::new(&o.evidence).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&o.evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!("{} {}: {runs} runs, {} distinct non-trivial, {wall:.1}s{}", p.id, o.tier, distinct.len(), if nondet > 0 { format!(", {nondet} NON-DETERMINISTIC") } else { String::new() });
    code
}

fn worker(p: &Prop, o: &Opts, w: usize, wk: &mut Work, stop: *mut u64, t0: Instant) {
    scratch(w);
    let mut idx = w as u64;
    while idx < o.runs {
        if unsafe { core::ptr::read_volatile(stop) } != 0 || t0.elapsed().as_secs() > o.cap_s {
            break;
        }
        let sc = make(p, o.seed, idx);
        let out = run_one(p, &sc);
        wk.runs += 1;
        for i in 0..NC {
            wk.cnt[i] += out.cnt[i];
        }
        if out.nontrivial && (wk.nh as usize) < HASHES {
            wk.hashes[wk.nh as usize] = out.trace;
            wk.nh += 1;
        }
        if !out.ok {
            wk.viol = idx + 1;
            unsafe { core::ptr::write_volatile(stop, 1) };
            break;
        }
        if idx / o.workers as u64 % 50 == 3 {
            let b = run_one(p, &sc);
            wk.recheck += 1;
            if b.trace != out.trace || b.cnt != out.cnt {
                wk.nondet += 1;
            }
        }
        idx += o.workers as u64;
    }
    wk.done = 1;
}

// ------------------------------------------------------------ minimisation
type Edit = Box<dyn Fn(&mut Scen)>;
fn candidates(s: &Scen) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    macro_rules! add {
        ($f:expr) => {
            v.push(Box::new($f))
        };
    }
    let mut n = s.snaps.len() / 2;
    while n >= 1 {
        for i in (0..s.snaps.len()).step_by(n) {
            add!(move |c: &mut Scen| drop(c.snaps.drain(i..(i + n).min(c.snaps.len()))));
        }
        n /= 2;
    }
    let mut n = s.ops.len() / 2;
    while n >= 1 {
        for i in (0..s.ops.len()).step_by(n) {
            add!(move |c: &mut Scen| drop(c.ops.drain(i..(i + n).min(c.ops.len()))));
        }
        n /= 2;
    }
    add!(|c: &mut Scen| c.extra.clear());
    add!(|c: &mut Scen| c.inp = Frag::default());
    add!(|c: &mut Scen| c.out = Frag::default());
    add!(|c: &mut Scen| c.cmeta.clear());
    add!(|c: &mut Scen| c.sparse = false);
    add!(|c: &mut Scen| c.level = -100);
    add!(|c: &mut Scen| c.batch = 50_000);
    add!(|c: &mut Scen| c.cut = None);
    for i in 0..s.faults.len() {
        add!(move |c: &mut Scen| drop(c.faults.remove(i)));
    }
    for i in 0..s.flips.len() {
        add!(move |c: &mut Scen| drop(c.flips.remove(i)));
    }
    for i in 0..s.extra.len() {
        add!(move |c: &mut Scen| drop(c.extra.remove(i)));
    }
    for i in 0..s.snaps.len() {
        add!(move |c: &mut Scen| c.snaps[i].mets.clear());
        add!(move |c: &mut Scen| c.snaps[i].meta.clear());
        let mut n = s.snaps[i].mets.len() / 2;
        while n >= 1 {
            for j in (0..s.snaps[i].mets.len()).step_by(n) {
                add!(move |c: &mut Scen| {
                    let m = &mut c.snaps[i].mets;
                    let e = (j + n).min(m.len());
                    m.drain(j..e);
                });
            }
            n /= 2;
        }
        for j in 0..s.snaps[i].mets.len() {
            add!(move |c: &mut Scen| c.snaps[i].mets[j].meta.clear());
            for k in 0..s.snaps[i].mets[j].meta.len() {
                add!(move |c: &mut Scen| drop(c.snaps[i].mets[j].meta.remove(k)));
            }
            add!(move |c: &mut Scen| {
                let m = &mut c.snaps[i].mets[j];
                m.v = m.v.min(1)
            });
        }
        add!(move |c: &mut Scen| c.snaps[i].v2 = false);
    }
    v
}

fn report(p: &Prop, o: &Opts, idx: u64, vtext: &mut String) -> String {
    scratch(98);
    let mut sc = make(p, o.seed, idx);
    let mut out = run_one(p, &sc);
    if out.ok {
        clean(98);
        return format!("!run {idx} failed once and not again; no verdict");
    }
    let t0 = Instant::now();
    let budget = if o.tier == "thorough" { 180 } else { 40 };
    let kind = out.kind.clone();
    if !matches!(kind.as_str(), "hang" | "stuck") {
        let mut progress = true;
        while progress && t0.elapsed().as_secs() < budget {
            progress = false;
            for edit in candidates(&sc) {
                if t0.elapsed().as_secs() >= budget {
                    break;
                }
                let mut c = sc.clone();
                edit(&mut c);
                if c == sc {
                    continue;
                }
                let x: Outcome = run_one(p, &c);
                if !x.ok && x.kind == kind {
                    sc = c;
                    out = x;
                    progress = true;
                    break;
                }
            }
        }
    }
    clean(98);
    let _ = std::fs::create_dir_all(&o.replays);
    let path = format!("{}/{}-{}-{}.replay", o.replays, p.id, o.seed, idx);
    *vtext = format!("{}: {}", out.kind, out.msg);
    let t = format!(
        "engine simio\n# replay of one simulated run; run: simio replay <this file>\nproperty {}\nviolation {}: {}\n# found by seed {} run {idx}\nscenario {}\n",
        p.id,
        out.kind,
        out.msg.replace('\n', " "),
        o.seed,
        serde_json::to_string(&sc).unwrap()
    );
    std::fs::write(&path, t).expect("replay file");
    println!("{}: {}: {}", p.id, out.kind, out.msg.chars().take(600).collect::<String>());
    path
}

pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_else(|| panic!("no {k}line")).to_string();
    let id = get("property ");
    let p = crate::prop(&id).expect("property");
    let sc: Scen = serde_json::from_str(&get("scenario ")).expect("scenario");
    scratch(97);
    let a = run_one(&p, &sc);
    let b = run_one(&p, &sc);
    clean(97);
    println!("recorded: {}\nreplayed: {}: {}\ntrace={:016x} repeatable={}", get("violation "), a.kind, a.msg, a.trace, a.trace == b.trace && a.kind == b.kind && a.msg == b.msg);
    if a.ok {
        return 0;
    }
    println!("VIOLATION property={id} replay={path}");
    1
}
