#![allow(static_mut_refs)]
mod drive;
mod h;
mod hist;
mod lazy;
mod life;
mod num;
mod prog;
mod reg;
mod snap;
use detrt::{Cfg, Rng};
use prog::Prog;

#[global_allocator]
static A: detrt::alloc::SimAlloc = detrt::alloc::SimAlloc;

pub struct Prop {
    pub id: &'static str,
    pub salt: u64,
    pub gen: fn(&mut Rng) -> Prog,
    pub tune: fn(&mut Rng, &mut Cfg),
    pub rule: &'static str,
    pub cov: &'static [&'static str],
    /// runs in the quick and the thorough tier
    pub runs: (u64, u64),
    /// kinds of failure that break this property (empty: every kind)
    pub only: &'static [&'static str],
}

fn uaf_tune(r: &mut Rng, c: &mut Cfg) {
    c.uaf = true;
    c.reuse = r.chance(1, 4);
}
fn clock_tune(r: &mut Rng, c: &mut Cfg) {
    c.clock_mode = [0, 0, 0, 1, 2, 2, 2, 3][r.below(8) as usize];
}
fn race_tune(_: &mut Rng, c: &mut Cfg) {
    c.races = true;
}
const RULE14: &str = "seeded programs of all families (counters, gauges, both histograms, lazies, registry, entries, iterators, snapshots) run with a vector-clock happens-before check on every instrumented memory access and atomic operation, honouring the memory orderings the code asks for; two accesses of different threads to the same bytes, at least one a write and at least one non-atomic, with no happens-before path between them are a violation even if the schedule never put them next to each other. Distinct = distinct (history, schedule) hash; non-trivial = operations of two threads overlap.";
fn any_gen(r: &mut Rng) -> Prog {
    match r.below(12) {
        0 => num::gen(r, false),
        1 => num::gen(r, true),
        2 | 3 => hist::gen(r, false),
        4 => hist::gen(r, true),
        5 => lazy::gen(r, false),
        6 => lazy::gen(r, true),
        7..=9 => {
            let k = [7, 8, 9, 10, 11, 23][r.below(6) as usize];
            reg::gen(r, k)
        }
        _ => {
            let v = r.chance(1, 2);
            snap::gen(r, v)
        }
    }
}
fn life_tune(r: &mut Rng, c: &mut Cfg) {
    c.reuse = true;
    let _ = r;
}
fn no_tune(_: &mut Rng, _: &mut Cfg) {}

pub fn family(name: &str) -> fn(&'static Prog) {
    match name {
        "num" => num::exec,
        "hist" => hist::exec,
        "lazy" => lazy::exec,
        "reg" => reg::exec,
        "snap" => snap::exec,
        "life" => life::exec,
        _ => panic!("family {name}"),
    }
}

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop { id: "C01", salt: 1, gen: |r| num::gen(r, false), tune: no_tune, rule: num::RULE, cov: num::COV, runs: (150_000, 2_000_000), only: &[] },
        "C02" => Prop { id: "C02", salt: 2, gen: |r| num::gen(r, true), tune: no_tune, rule: num::RULE, cov: num::COV, runs: (150_000, 2_000_000), only: &[] },
        "C03" => Prop { id: "C03", salt: 3, gen: |r| hist::gen(r, false), tune: no_tune, rule: hist::RULE_A, cov: hist::COV_A, runs: (150_000, 2_000_000), only: &[] },
        "C04" => Prop { id: "C04", salt: 4, gen: |r| hist::gen(r, true), tune: no_tune, rule: hist::RULE_B, cov: hist::COV_B, runs: (150_000, 2_000_000), only: &[] },
        "C05" => Prop { id: "C05", salt: 5, gen: |r| lazy::gen(r, false), tune: no_tune, rule: lazy::RULE5, cov: lazy::COV, runs: (150_000, 2_000_000), only: &[] },
        "C06" => Prop { id: "C06", salt: 6, gen: |r| lazy::gen(r, true), tune: no_tune, rule: lazy::RULE6, cov: lazy::COV, runs: (150_000, 2_000_000), only: &[] },
        "C07" => Prop { id: "C07", salt: 7, gen: |r| reg::gen(r, 7), tune: no_tune, rule: reg::RULE7, cov: reg::COV, runs: (120_000, 2_000_000), only: &[] },
        "C08" => Prop { id: "C08", salt: 8, gen: |r| reg::gen(r, 8), tune: uaf_tune, rule: reg::RULE8, cov: reg::COV, runs: (120_000, 2_000_000), only: &[] },
        "C09" => Prop { id: "C09", salt: 9, gen: |r| reg::gen(r, 9), tune: no_tune, rule: reg::RULE9, cov: reg::COV, runs: (120_000, 2_000_000), only: &[] },
        "C10" => Prop { id: "C10", salt: 10, gen: |r| reg::gen(r, 10), tune: no_tune, rule: reg::RULE10, cov: reg::COV, runs: (120_000, 2_000_000), only: &[] },
        "C11" => Prop { id: "C11", salt: 11, gen: |r| reg::gen(r, 11), tune: no_tune, rule: reg::RULE11, cov: reg::COV, runs: (120_000, 2_000_000), only: &[] },
        "C12" => Prop { id: "C12", salt: 12, gen: |r| snap::gen(r, false), tune: no_tune, rule: snap::RULE12, cov: snap::COV, runs: (120_000, 2_000_000), only: &[] },
        "C13" => Prop { id: "C13", salt: 13, gen: |r| snap::gen(r, true), tune: clock_tune, rule: snap::RULE13, cov: snap::COV, runs: (120_000, 2_000_000), only: &[] },
        "C14" => Prop { id: "C14", salt: 14, gen: any_gen, tune: race_tune, rule: RULE14, cov: &[], runs: (120_000, 2_000_000), only: &["data-race", "crash"] },
        "C23" => Prop { id: "C23", salt: 23, gen: |r| reg::gen(r, 23), tune: no_tune, rule: reg::RULE23, cov: reg::COV, runs: (120_000, 2_000_000), only: &[] },
        "C24" => Prop { id: "C24", salt: 24, gen: life::gen, tune: life_tune, rule: life::RULE, cov: life::COV, runs: (60_000, 1_000_000), only: &[] },
        _ => return None,
    })
}

fn main() {
    std::panic::set_hook(if std::env::var("SIM_DEBUG").is_ok() { Box::new(|i| eprintln!("{i}")) } else { Box::new(|_| {}) });
    let a: Vec<String> = std::env::args().collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = prop(&a[2]).expect("unknown property");
            let tier = flag("--tier").unwrap_or("quick".into());
            let thorough = tier == "thorough";
            let o = drive::Opts {
                seed: flag("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: flag("--evidence").unwrap_or_default(),
                replays: flag("--replays").unwrap_or("/tmp".into()),
                runs: flag("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.runs.1 } else { p.runs.0 }),
                cap_s: flag("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 90 }),
                workers: flag("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                tier,
            };
            drive::check(&p, &o)
        }
        Some("replay") => drive::replay(&a[2]),
        Some("one") => {
            let p = prop(&a[2]).expect("unknown property");
            let seed = a[3].parse().unwrap();
            let idx = a[4].parse().unwrap();
            let (pr, c) = drive::make(&p, seed, idx);
            println!("{}{}", pr.text(), prog::cfg_text(&c));
            let o = drive::run_one(&p, &pr, &c);
            println!("ok={} kind={} msg={}\n{}steps={} trace={:x} hist={:x} dec={}", o.ok, o.kind, o.msg, o.trace, o.stats.steps, o.stats.trace_hash, o.hist_hash, o.dec.len());
            0
        }
        _ => 2,
    };
    detrt::raw::exit_group(code)
}
