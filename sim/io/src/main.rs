mod dev;
mod drive;
mod give;
mod live;
mod path;
mod props;
mod refm;
mod rng;
mod run;
mod scen;
use rng::Rng;
use scen::Scen;

#[global_allocator]
static A: give::Counted = give::Counted;

pub struct Prop {
    pub id: &'static str,
    pub salt: u64,
    pub gen: fn(&mut Rng) -> Scen,
    pub exec: fn(&Scen),
    pub rule: &'static str,
    pub runs: (u64, u64),
}

const R15: &str = "seeded sequences of old- and new-format snapshots (0 to 80 (now and then 2600) snapshots of up to 40 (now and then 300) metrics, extreme values, odd names, histograms of several shapes) are encoded by the library or by an independent encoder of the same format, delivered in seeded fragments with interruptions, optionally cut at a seeded byte, and decoded in several reading styles; every complete snapshot must come back identical and a cut one must be an error. Distinct = distinct (input bytes, I/O call sequence, outcome) hash; non-trivial = at least one short transfer, interruption or cut happened.";
const R16: &str = "seeded recordings are converted through fragmenting, interrupting readers and writers under seeded hash seeds, twice with different batch size, compression, fragmentation and hash seed (or through the writer API directly), and the parquet output, read back by the parquet crate, is compared cell by cell with a reference table computed from the scenario. Distinct and non-trivial as in C15's hash.";
const R17: &str = "a fault-free conversion counts the I/O calls, then the same conversion runs with one fault on a seeded call (read, seek, write, flush error of several kinds, transient or sticky, zero-length write, full device), or with a truncated, corrupted, growing, shrinking or non-zero-offset input; a fault that fired must surface as an error, success must come with the complete exact table, interruptions alone must not fail, and nothing may panic or hang. Distinct = distinct (input, I/O call sequence, outcome) hash; non-trivial = a fault, short transfer or interruption happened.";
const R18: &str = "the byte stream of a conversion is cut at seeded points (write-call boundaries and their neighbours, the footer region, anywhere) and every proper prefix must be rejected by the parquet reader; conversions that fail on a seeded fault, writers dropped at any point and processes killed at a seeded file-system call must leave nothing that reads as a different recording; after success every byte must have been flushed. Distinct as in C17.";
const R19: &str = "one recording is converted four times under different hash seeds, metadata insertion orders, snapshot format versions and entry points; the set of columns must be identical and equal to a reference model of the documented naming rule, with first-seen column metadata and overriding file metadata. Distinct as in C16.";
const R20: &str = "conversions by path run over a scratch directory whose open, read, write and lseek calls are interposed at the libc boundary: seeded fragmentation, interruption, open/read/seek/write failures, full disk, missing or unreadable input, uncreatable output, truncated input, previous output content, symlinks; checks success content against the reference table, errors for every fault that fired, input bytes unchanged, existing output untouched when the input cannot be opened. Distinct as in C17.";
const R21: &str = "a simulated process creates, updates and drops real metrics, moves a simulated clock (also backwards), takes real snapshots and appends them to a simulated disk; seeded crashes lose or tear unsynced bytes, the process restarts after the intact part; finally the recording is converted and compared with a reference model of every metric's value at each surviving snapshot. Distinct = distinct (program, I/O) hash; non-trivial = a crash, short transfer or interruption happened.";

const R25: &str = "seeded recordings (half of the time each of other metrics) are converted 5-8 times in one process, by path, over the caller's files or through the writer dropped at a seeded point, each time under the same seeded fault (open, read, seek, write, truncation or renaming failure, full disk, interruption, cut or missing input) at the libc boundary; after each, the open descriptors must be those from before, no new file may be there but the output, and what is allocated must not grow with the number of conversions (suspected growth is confirmed over 60 more). One run in fifty converts a recording and one four times as long, made up while it is read, and compares the peak of allocated memory: the longer one may not need more by half the bytes it has more. Distinct as in C17.";

pub fn prop(id: &str) -> Option<Prop> {
    use props::*;
    Some(match id {
        "C15" => Prop { id: "C15", salt: 15, gen: gen15, exec: exec15, rule: R15, runs: (40_000, 1_000_000) },
        "C16" => Prop { id: "C16", salt: 16, gen: gen16, exec: exec16, rule: R16, runs: (20_000, 500_000) },
        "C17" => Prop { id: "C17", salt: 17, gen: gen17, exec: exec17, rule: R17, runs: (20_000, 500_000) },
        "C18" => Prop { id: "C18", salt: 18, gen: gen18, exec: exec18, rule: R18, runs: (16_000, 500_000) },
        "C19" => Prop { id: "C19", salt: 19, gen: gen19, exec: exec19, rule: R19, runs: (16_000, 500_000) },
        "C20" => Prop { id: "C20", salt: 20, gen: gen20, exec: exec20, rule: R20, runs: (16_000, 500_000) },
        "C21" => Prop { id: "C21", salt: 21, gen: gen21, exec: exec21, rule: R21, runs: (20_000, 500_000) },
        "C25" => Prop { id: "C25", salt: 25, gen: give::gen25, exec: give::exec25, rule: R25, runs: (12_000, 400_000) },
        _ => return None,
    })
}

fn main() {
    run::hook();
    let a: Vec<String> = std::env::args().collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = prop(&a[2]).expect("unknown property");
            let tier = flag("--tier").unwrap_or("quick".into());
            let thorough = tier == "thorough";
            let o = drive::Opts {
                seed: flag("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: flag("--evidence").unwrap_or_default(),
                replays: flag("--replays").unwrap_or("/tmp".into()),
                runs: flag("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.runs.1 } else { p.runs.0 }),
                cap_s: flag("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 90 }),
                workers: flag("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                tier,
            };
            drive::check(&p, &o)
        }
        Some("replay") => drive::replay(&a[2]),
        Some("one") => {
            let p = prop(&a[2]).expect("unknown property");
            let sc = drive::make(&p, a[3].parse().unwrap(), a[4].parse().unwrap());
            println!("{}", serde_json::to_string(&sc).unwrap());
            drive::scratch(0);
            let o = run::run_one(&p, &sc);
            println!("ok={} kind={} msg={} trace={:x}", o.ok, o.kind, o.msg, o.trace);
            drive::clean(0);
            0
        }
        _ => 2,
    };
    run::exit(code)
}
