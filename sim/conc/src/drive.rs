//! Orchestration: one forked process per simulated run, seeded search over
//! many runs, minimisation, replay files and evidence.
use crate::prog::{cfg_text, dec_text, parse, Prog};
use crate::{h, Prop};
use detrt::{raw, Cfg, Decision, FailInfo, Rng, Stats, Strategy};
use std::fmt::Write as _;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn setitimer(which: i32, new: *const i64, old: *mut i64) -> i32;
}

const BUF: usize = 1 << 16;
const DECS: usize = 1 << 19;

#[repr(C)]
struct Shm {
    status: u32, // 0 = nothing written, 1 = ok, 2 = violation
    kind_len: u32,
    msg_len: u32,
    trace_len: u32,
    ndec: u64,
    stats: Stats,
    hist_hash: u64,
    nontrivial: u64,
    cov: [u64; 32],
    buf: [u8; BUF],
    dec: [Decision; DECS],
}

static mut SHM: *mut Shm = core::ptr::null_mut();

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub kind: String,
    pub msg: String,
    pub trace: String,
    pub stats: Stats,
    pub hist_hash: u64,
    pub nontrivial: bool,
    pub cov: [u64; 32],
    pub dec: Vec<Decision>,
}

unsafe fn write_back(status: u32, kind: &str, msg: &str) -> ! {
    let s = &mut *SHM;
    let trace = if status == 2 { h::dump(60) } else { String::new() };
    let mut o = 0;
    let mut put = |t: &str, cap: usize| -> u32 {
        let n = t.len().min(cap).min(BUF - o);
        s.buf[o..o + n].copy_from_slice(&t.as_bytes()[..n]);
        o += n;
        n as u32
    };
    s.kind_len = put(kind, 64);
    s.msg_len = put(msg, 4000);
    s.trace_len = put(&trace, 30000);
    s.stats = detrt::stats();
    s.hist_hash = h::hist_hash();
    s.nontrivial = (status == 2 || h::overlapped()) as u64;
    s.cov = h::COV;
    let d = detrt::decisions();
    s.ndec = d.len().min(DECS) as u64;
    s.dec[..d.len().min(DECS)].copy_from_slice(&d[..d.len().min(DECS)]);
    s.status = status;
    raw::exit_group(if status == 1 { 0 } else { 1 })
}

fn on_fail(f: &FailInfo) -> ! {
    unsafe { write_back(2, f.kind, f.msg) }
}

/// Run `f` on a thread whose thread-local state (hash seeds) is untouched, so
/// that the runs it forks start exactly like those of the search workers.
fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

/// One simulated run in a process of its own. The calling thread must never
/// have used a `HashMap` (see `fresh`). A run ended from outside (memory, a
/// stalled machine) is repeated before it is believed.
pub fn run_one(prop: &Prop, prog: &Prog, cfg: &Cfg) -> Outcome {
    let mut out = run_once(prop, prog, cfg);
    for _ in 0..2 {
        if out.kind != "killed" && out.kind != "stuck" {
            break;
        }
        out = run_once(prop, prog, cfg);
    }
    out
}

fn run_once(prop: &Prop, prog: &Prog, cfg: &Cfg) -> Outcome {
    unsafe {
        if SHM.is_null() {
            SHM = raw::mmap_shared(core::mem::size_of::<Shm>()) as *mut Shm;
        }
        (*SHM).status = 0;
        let mut pid = fork();
        while pid < 0 {
            raw::sleep_ms(50);
            pid = fork();
        }
        if pid == 0 {
            // A run that burns CPU without reaching a scheduling point, or that
            // blocks outside the simulator, is ended by these timers.
            setitimer(2, [0i64, 0, 60, 0].as_ptr(), core::ptr::null_mut());
            setitimer(0, [0i64, 0, 240, 0].as_ptr(), core::ptr::null_mut());
            detrt::set_fail_hook(on_fail);
            h::PROP = prop.id;
            h::reset();
            let p: &'static Prog = Box::leak(Box::new(prog.clone()));
            let fam = crate::family(&p.fam);
            detrt::prepare(cfg.clone());
            if let Err(m) = h::guarded(|| fam(p)) {
                h::bad("panic", format!("set-up or read-out panicked: {m}"));
            }
            write_back(1, "", "");
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let s = &*SHM;
        let sig = st & 0x7f;
        let mut out = Outcome {
            ok: s.status == 1 && st == 0,
            kind: String::new(),
            msg: String::new(),
            trace: String::new(),
            stats: Stats::default(),
            hist_hash: 0,
            nontrivial: false,
            cov: [0; 32],
            dec: vec![],
        };
        if s.status != 0 {
            let t = |o: u32, n: u32| String::from_utf8_lossy(&s.buf[o as usize..(o + n) as usize]).into_owned();
            out.kind = t(0, s.kind_len);
            out.msg = t(s.kind_len, s.msg_len);
            out.trace = t(s.kind_len + s.msg_len, s.trace_len);
            out.stats = s.stats;
            out.hist_hash = s.hist_hash;
            out.nontrivial = s.nontrivial != 0;
            out.cov = s.cov;
            out.dec = s.dec[..s.ndec as usize].to_vec();
        } else {
            let (k, m) = match sig {
                27 => ("hang", "an operation used 60 s of CPU without reaching a scheduling point".to_string()),
                14 => ("stuck", "an operation blocked for 240 s outside the simulator".to_string()),
                9 => ("killed", "the process was killed from outside".to_string()),
                0 => ("crash", format!("the process ended with status {}", st >> 8)),
                n => ("crash", format!("the process was killed by signal {n}")),
            };
            out.kind = k.into();
            out.msg = m;
        }
        if !out.ok && !prop.only.is_empty() && !prop.only.contains(&out.kind.as_str()) {
            out.ok = true; // breaks another property, not this one
        }
        out
    }
}

/// Add source positions to code addresses in a message.
fn symbolise(m: &str) -> String {
    let mut o = String::new();
    for w in m.split_inclusive(|c: char| c == ' ' || c == ')') {
        o.push_str(w);
        let t = w.trim_end_matches([' ', ')']);
        if t.starts_with("0x") {
            if let Ok(exe) = std::env::current_exe() {
                if let Ok(r) = std::process::Command::new("addr2line").args(["-C", "-s", "-f", "-e"]).arg(exe).arg(t).output() {
                    let s = String::from_utf8_lossy(&r.stdout).trim().replace('\n', " at ");
                    if !s.is_empty() {
                        o.push_str(&format!("[{s}] "));
                    }
                }
            }
        }
    }
    o
}

/// The program and configuration of run `idx` under `seed`.
pub fn make(prop: &Prop, seed: u64, idx: u64) -> (Prog, Cfg) {
    let s = detrt::mix(seed.wrapping_mul(0x1_0000_0001).wrapping_add(idx).wrapping_add(detrt::mix(prop.salt)));
    let mut r = Rng::new(s);
    let prog = (prop.gen)(&mut r);
    let mut cfg = Cfg {
        seed: s,
        strategy: strategy(&mut r),
        replay: None,
        spurious_den: if r.chance(1, 3) { 1 + r.below(3) } else { 0 },
        reuse: r.chance(1, 2),
        clock_mode: r.below(3) as u8,
        stall_den: if r.chance(1, 3) { [20, 60, 300][r.below(3) as usize] } else { 0 },
        freeze_den: if r.chance(1, 5) { [6, 30, 150][r.below(3) as usize] } else { 0 },
        max_steps: 2_000_000,
        races: false,
        uaf: false,
    };
    (prop.tune)(&mut r, &mut cfg);
    (prog, cfg)
}

fn strategy(r: &mut Rng) -> Strategy {
    match r.below(14) {
        10..=13 => Strategy::Burst { max_log: [3, 6, 8, 10][r.below(4) as usize], wake_den: 1 + r.below(3) },
        0..=2 => Strategy::Pct { depth: 1 + r.below(4), horizon: [60, 200, 800, 3000][r.below(4) as usize] },
        3..=5 => Strategy::Random { sync_den: 2 + r.below(3), mem_den: 8 },
        6 | 7 => Strategy::Random { sync_den: 3, mem_den: 2 },
        8 => Strategy::Random { sync_den: 8, mem_den: 40 },
        _ => Strategy::Random { sync_den: 2, mem_den: 0 },
    }
}

const HASHES: usize = 4_000_000;

#[repr(C)]
struct Work {
    runs: u64,
    nontrivial: u64,
    viol: u64, // index + 1
    done: u64,
    recheck: u64,
    nondet: u64,
    st: Stats,
    cov: [u64; 32],
    reuse_runs: u64,
    quarantine_runs: u64,
    clock_runs: [u64; 4],
    spurious_runs: u64,
    pct_runs: u64,
    ops: u64,
    threads: [u64; 9],
    nh: u64,
    hashes: [u64; HASHES],
}

fn add_stats(a: &mut Stats, b: &Stats) {
    a.steps += b.steps;
    a.switches += b.switches;
    a.preempts += b.preempts;
    a.blocks += b.blocks;
    a.spurious += b.spurious;
    a.clock_reads += b.clock_reads;
    a.clock_jumps += b.clock_jumps;
    a.clock_back += b.clock_back;
    a.mem_points += b.mem_points;
    a.sync_points += b.sync_points;
    a.freed += b.freed;
    a.reused += b.reused;
    a.sim_ns += b.sim_ns;
    a.stalls += b.stalls;
    a.freezes += b.freezes;
    a.timeouts += b.timeouts;
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub evidence: String,
    pub replays: String,
    pub runs: u64,
    pub cap_s: u64,
    pub workers: usize,
}

pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let t0 = raw::wall_ns();
    let stop = raw::mmap_shared(4096) as *mut u64;
    let mut works: Vec<(&'static mut Work, i32)> = vec![];
    for w in 0..o.workers {
        let wk = unsafe { &mut *(raw::mmap_shared(core::mem::size_of::<Work>()) as *mut Work) };
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            raw::pin_cpu(w);
            worker(prop, o, w as u64, wk, stop, t0);
            raw::exit_group(0);
        }
        works.push((wk, pid));
    }
    for (_, pid) in &works {
        let mut st = 0;
        while unsafe { waitpid(*pid, &mut st, 0) } < 0 {}
    }
    let search_s = (raw::wall_ns() - t0) as f64 / 1e9;
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    let mut tot = Stats::default();
    let mut cov = [0u64; 32];
    let (mut runs, mut nontriv, mut recheck, mut nondet, mut ops) = (0, 0, 0, 0, 0);
    let (mut reuse, mut quar, mut clk, mut spr, mut pct, mut th) = (0, 0, [0u64; 4], 0, 0, [0u64; 9]);
    let mut viol: Option<u64> = None;
    for (w, _) in &works {
        runs += w.runs;
        nontriv += w.nontrivial;
        recheck += w.recheck;
        nondet += w.nondet;
        ops += w.ops;
        reuse += w.reuse_runs;
        quar += w.quarantine_runs;
        spr += w.spurious_runs;
        pct += w.pct_runs;
        for i in 0..4 {
            clk[i] += w.clock_runs[i];
        }
        for i in 0..9 {
            th[i] += w.threads[i];
        }
        add_stats(&mut tot, &w.st);
        for i in 0..32 {
            cov[i] += w.cov[i];
        }
        for x in &w.hashes[..w.nh as usize] {
            distinct.insert(*x);
        }
        if w.viol != 0 {
            viol = Some(viol.map_or(w.viol - 1, |v| v.min(w.viol - 1)));
        }
    }
    if viol.is_none() && works.iter().any(|w| w.0.done == 0) {
        println!("{}: a search worker was ended from outside; no verdict", prop.id);
        return 2;
    }
    let mut code = 0;
    let mut vtext = String::new();
    if let Some(idx) = viol {
        code = 1;
        // even if writing the replay file fails, the violation is reported
        let path = std::thread::scope(|s| s.spawn(|| report(prop, o, idx, &mut vtext)).join())
            .unwrap_or_else(|_| format!("seed:{}:run:{idx}", o.seed));
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    let wall = (raw::wall_ns() - t0) as f64 / 1e9;
    // ------------------------------------------------------------ evidence
    let mut samples = vec![];
    for idx in 0..2u64 {
        let (p, c) = make(prop, o.seed, idx);
        let out = fresh(|| run_one(prop, &p, &c));
        samples.push(format!(
            "run {idx}: {} | {} | steps={} switches={} outcome={}",
            p.text().trim().replace('\n', " | "),
            cfg_text(&c),
            out.stats.steps,
            out.stats.switches,
            if out.ok { "held" } else { out.kind.as_str() }
        ));
    }
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        prop.id, o.tier, o.seed
    );
    let _ = write!(j, "  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n", distinct.len());
    let _ = write!(j, "  \"rule\": {},\n", js(prop.rule));
    let _ = write!(j, "  \"samples\": [{}],\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"runs_with_overlapping_operations\": {nontriv},\n");
    let _ = write!(j, "  \"runs_per_hour\": {},\n", (runs as f64 / search_s.max(0.001) * 3600.0) as u64);
    let _ = write!(j, "  \"seeds_per_hour\": {},\n", (runs as f64 / search_s.max(0.001) * 3600.0) as u64);
    let _ = write!(j, "  \"simulated_seconds\": {:.3},\n", tot.sim_ns as f64 / 1e9);
    let _ = write!(j, "  \"operations\": {ops},\n  \"scheduling_points\": {},\n  \"atomic_or_blocking_points\": {},\n  \"plain_memory_points\": {},\n", tot.steps, tot.sync_points, tot.mem_points);
    let _ = write!(j, "  \"threads_histogram\": {:?},\n", th);
    let _ = write!(
        j,
        "  \"faults_injected\": {{\"preemptions\": {}, \"context_switches\": {}, \"threads_blocked\": {}, \"spurious_wakeups\": {}, \"clock_readings\": {}, \"clock_jumps\": {}, \"clock_steps_back\": {}, \"blocks_freed_and_poisoned\": {}, \"addresses_reused\": {}, \"stalls\": {}, \"timed_waits_expired\": {}, \"threads_frozen\": {}",
        tot.preempts, tot.switches, tot.blocks, tot.spurious, tot.clock_reads, tot.clock_jumps, tot.clock_back, tot.freed, tot.reused, tot.stalls, tot.timeouts, tot.freezes
    );
    for (i, n) in prop.cov.iter().enumerate() {
        let _ = write!(j, ", \"{}\": {}", n, cov[i]);
    }
    let _ = write!(j, "}},\n");
    let _ = write!(
        j,
        "  \"runs_by_mode\": {{\"address_reuse\": {reuse}, \"quarantine\": {quar}, \"clock_normal\": {}, \"clock_frozen\": {}, \"clock_jumping\": {}, \"clock_jumping_around_1970\": {}, \"spurious_wakeups_enabled\": {spr}, \"priority_schedules\": {pct}}},\n",
        clk[0], clk[1], clk[2], clk[3]
    );
    let _ = write!(j, "  \"determinism_rechecks\": {recheck},\n  \"determinism_mismatches\": {nondet},\n");
    let _ = write!(
        j,
        "  \"components_real\": [\"metriken\", \"metriken-core\", \"metriken-derive\", \"metriken-exposition (snapshotter)\", \"histogram\", \"parking_lot\", \"parking_lot_core\", \"lock_api\", \"once_cell\", \"std\"],\n  \"components_simulated\": [\"thread scheduler\", \"futex\", \"clocks\", \"getrandom\", \"heap allocator\"],\n"
    );
    let _ = write!(j, "  \"search_seconds\": {search_s:.3}");
    if !vtext.is_empty() {
        let _ = write!(j, ",\n  \"violation\": {}", js(&vtext));
    }
    let _ = write!(
        j,
        "\n }},\n \"assumptions\": [\"sequentially consistent interleavings: relaxed-memory reorderings are only covered through the happens-before race check of C14\", \"std is the prebuilt, uninstrumented library: inside it only futex calls, yields, clock and randomness reads are scheduling points\"],\n \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n",
        code
    );
    if !o.evidence.is_empty() {
        if let Some(d) = std::path::Path::new(&o.evidence).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&o.evidence, j).expect("evidence");
    }
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} scheduling points, {:.1}s{}",
        prop.id,
        o.tier,
        runs,
        distinct.len(),
        tot.steps,
        wall,
        if nondet > 0 { format!(", {nondet} NON-DETERMINISTIC") } else { String::new() }
    );
    code
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn worker(prop: &Prop, o: &Opts, w: u64, wk: &mut Work, stop: *mut u64, t0: u64) {
    let mut idx = w;
    while idx < o.runs {
        if unsafe { core::ptr::read_volatile(stop) } != 0 {
            break;
        }
        if raw::wall_ns() - t0 > o.cap_s * 1_000_000_000 {
            break;
        }
        let (p, c) = make(prop, o.seed, idx);
        let out = run_one(prop, &p, &c);
        wk.runs += 1;
        if std::env::var("SIM_LOG").is_ok() {
            println!("R {idx} {} {:x} {:x}", out.stats.steps, out.stats.trace_hash, out.hist_hash);
        }
        wk.ops += p.ops() as u64;
        wk.threads[p.th.len().min(8)] += 1;
        if c.reuse {
            wk.reuse_runs += 1
        } else {
            wk.quarantine_runs += 1
        }
        wk.clock_runs[c.clock_mode as usize % 4] += 1;
        wk.spurious_runs += (c.spurious_den != 0) as u64;
        wk.pct_runs += matches!(c.strategy, Strategy::Pct { .. }) as u64;
        add_stats(&mut wk.st, &out.stats);
        for i in 0..32 {
            wk.cov[i] += out.cov[i];
        }
        if out.nontrivial {
            wk.nontrivial += 1;
            if (wk.nh as usize) < HASHES {
                wk.hashes[wk.nh as usize] = detrt::mix(out.hist_hash ^ out.stats.sched_hash.rotate_left(17));
                wk.nh += 1;
            }
        }
        if !out.ok {
            wk.viol = idx + 1;
            unsafe { core::ptr::write_volatile(stop, 1) };
            break;
        }
        if idx / o.workers as u64 % 64 == 5 {
            // the same seed again, and once more from its recorded decisions
            let b = run_one(prop, &p, &c);
            let mut c2 = c.clone();
            c2.replay = Some(out.dec.clone());
            let d = run_one(prop, &p, &c2);
            wk.recheck += 2;
            for x in [&b, &d] {
                if x.stats.trace_hash != out.stats.trace_hash || x.hist_hash != out.hist_hash || x.stats.steps != out.stats.steps {
                    wk.nondet += 1;
                    if std::env::var("SIM_DEBUG").is_ok() {
                        println!("nondet idx={idx} steps {} vs {} hist {:x} vs {:x} kind {} {}", out.stats.steps, x.stats.steps, out.hist_hash, x.hist_hash, x.kind, x.msg);
                    }
                }
            }
        }
        idx += o.workers as u64;
    }
    wk.done = 1;
}

// ------------------------------------------------------------ minimisation
fn same(a: &Outcome, kind: &str) -> bool {
    !a.ok && a.kind == kind
}

fn report(prop: &Prop, o: &Opts, idx: u64, vtext: &mut String) -> String {
    let (mut p, mut c) = make(prop, o.seed, idx);
    let mut out = run_one(prop, &p, &c);
    let t0 = raw::wall_ns();
    let budget = if o.tier == "thorough" { 180 } else { 45 } * 1_000_000_000u64;
    let left = || raw::wall_ns() - t0 < budget;
    let kind = out.kind.clone();
    let minimise = !out.ok && !matches!(kind.as_str(), "hang" | "stuck");
    if minimise {
        // 1. smaller program: drop threads, then operations; for each candidate
        //    search a few seeds for the same kind of violation.
        let mut try_prog = |q: &Prog, c: &Cfg| -> Option<(Cfg, Outcome)> {
            for k in 0..40u64 {
                let mut c2 = c.clone();
                c2.replay = None;
                if k > 0 {
                    let mut r = Rng::new(c.seed ^ detrt::mix(k));
                    c2.seed = r.next();
                    if k % 2 == 0 {
                        c2.strategy = strategy(&mut r);
                    }
                }
                let o2 = run_one(prop, q, &c2);
                if same(&o2, &kind) {
                    return Some((c2, o2));
                }
            }
            None
        };
        let mut changed = true;
        while changed && left() {
            changed = false;
            let mut t = 0;
            while t < p.th.len() && left() {
                if p.th.len() > 1 {
                    let mut q = p.clone();
                    q.th.remove(t);
                    if let Some((c2, o2)) = try_prog(&q, &c) {
                        p = q;
                        c = c2;
                        out = o2;
                        changed = true;
                        continue;
                    }
                }
                t += 1;
            }
            for t in 0..p.th.len() {
                let mut n = p.th[t].len() / 2;
                while n >= 1 {
                    let mut i = 0;
                    while i + n <= p.th[t].len() && left() {
                        let mut q = p.clone();
                        q.th[t].drain(i..i + n);
                        if let Some((c2, o2)) = try_prog(&q, &c) {
                            p = q;
                            c = c2;
                            out = o2;
                            changed = true;
                        } else {
                            i += n;
                        }
                    }
                    n /= 2;
                }
            }
        }
        // 2. smaller schedule: keep as few decisions as reproduce it.
        let mut d = out.dec.clone();
        let replay = |d: &[Decision], c: &Cfg| {
            let mut c2 = c.clone();
            c2.replay = Some(d.to_vec());
            (run_one(prop, &p, &c2), c2)
        };
        let (o2, c2) = replay(&d, &c);
        if same(&o2, &kind) {
            out = o2;
            c = c2;
            let mut n = (d.len() / 2).max(1);
            while n >= 1 && left() && !d.is_empty() {
                let mut i = 0;
                while i < d.len() && left() {
                    let mut e = d.clone();
                    e.drain(i..(i + n).min(d.len()));
                    let (o2, c2) = replay(&e, &c);
                    if same(&o2, &kind) {
                        d = e;
                        out = o2;
                        c = c2;
                    } else {
                        i += n;
                    }
                }
                if n == 1 {
                    break;
                }
                n /= 2;
            }
        }
    }
    let _ = std::fs::create_dir_all(&o.replays);
    let path = format!("{}/{}-{}-{}.replay", o.replays, prop.id, o.seed, idx);
    let msg1 = symbolise(out.msg.lines().next().unwrap_or(""));
    *vtext = format!("{}: {}", out.kind, msg1);
    let mut f = String::new();
    let _ = writeln!(f, "# replay of one simulated execution; run: simc replay <this file>");
    let _ = writeln!(f, "property {}\nviolation {}: {}", prop.id, out.kind, msg1);
    let _ = writeln!(f, "# found by seed {} run {idx}", o.seed);
    f.push_str(&p.text());
    let _ = writeln!(f, "{}", cfg_text(&c));
    if let Some(d) = &c.replay {
        let _ = writeln!(f, "{}", dec_text(d));
    }
    let _ = writeln!(f, "# history of the failing execution:");
    for l in out.msg.lines().skip(1).chain(out.trace.lines()) {
        let _ = writeln!(f, "#{l}");
    }
    std::fs::write(&path, f).expect("replay file");
    println!("{}: {}: {}", prop.id, out.kind, msg1);
    path
}

pub fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let (id, viol, p, c) = parse(&text).expect("replay format");
    let prop = crate::prop(&id).expect("property");
    let a = run_one(&prop, &p, &c);
    let b = run_one(&prop, &p, &c);
    let same_run = a.stats.trace_hash == b.stats.trace_hash && a.hist_hash == b.hist_hash && a.kind == b.kind;
    println!("recorded: {viol}\nreplayed: {}{}", if a.ok { "no violation" } else { "" }, if a.ok { String::new() } else { format!("{}: {}", a.kind, a.msg) });
    print!("{}", a.trace);
    println!("steps={} trace={:016x} history={:016x} repeatable={}", a.stats.steps, a.stats.trace_hash, a.hist_hash, same_run);
    if a.ok {
        0
    } else {
        println!("VIOLATION property={id} replay={path}");
        1
    }
}
