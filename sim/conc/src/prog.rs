//! Programs (what each simulated thread does) and replay files.
use detrt::{Cfg, Decision, Strategy};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub n: String,
    pub a: Vec<u64>,
}
impl Op {
    pub fn new(n: &str, a: &[u64]) -> Op {
        Op { n: n.to_string(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn text(&self) -> String {
        let mut s = self.n.clone();
        for a in &self.a {
            s.push_str(&format!(" {a}"));
        }
        s
    }
    fn parse(s: &str) -> Option<Op> {
        let mut w = s.split_whitespace();
        let n = w.next()?.to_string();
        Some(Op { n, a: w.filter_map(|x| x.parse().ok()).collect() })
    }
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub fam: String,
    pub p: Vec<u64>,
    pub th: Vec<Vec<Op>>,
}
impl Prog {
    pub fn ops(&self) -> usize {
        self.th.iter().map(|t| t.len()).sum()
    }
    pub fn param(&self, i: usize) -> u64 {
        self.p.get(i).copied().unwrap_or(0)
    }
    pub fn text(&self) -> String {
        let mut s = format!("family {}\nparam", self.fam);
        for p in &self.p {
            s.push_str(&format!(" {p}"));
        }
        s.push('\n');
        for t in &self.th {
            s.push_str("thread ");
            s.push_str(&t.iter().map(|o| o.text()).collect::<Vec<_>>().join("; "));
            s.push('\n');
        }
        s
    }
}

pub fn cfg_text(c: &Cfg) -> String {
    let st = match c.strategy {
        Strategy::Random { sync_den, mem_den } => format!("random:{sync_den}:{mem_den}"),
        Strategy::Pct { depth, horizon } => format!("pct:{depth}:{horizon}"),
        Strategy::Burst { max_log, wake_den } => format!("burst:{max_log}:{wake_den}"),
    };
    format!(
        "cfg seed={} strategy={} spurious={} reuse={} clock={} stall={} freeze={} max_steps={} races={} uaf={}",
        c.seed, st, c.spurious_den, c.reuse as u8, c.clock_mode, c.stall_den, c.freeze_den, c.max_steps, c.races as u8, c.uaf as u8
    )
}

const DK: [char; 6] = ['s', 'p', 'w', 'c', 't', 'f'];

pub fn dec_text(d: &[Decision]) -> String {
    let mut s = String::from("decisions");
    for x in d {
        s.push_str(&format!(" {}@{}={}", DK[x.kind as usize], x.at, x.val as i64));
    }
    s
}

/// Parse a replay file: (property, recorded violation, program, configuration).
pub fn parse(text: &str) -> Option<(String, String, Prog, Cfg)> {
    let mut prop = String::new();
    let mut viol = String::new();
    let mut pr = Prog { fam: String::new(), p: vec![], th: vec![] };
    let mut cfg = Cfg {
        seed: 0,
        strategy: Strategy::Random { sync_den: 4, mem_den: 16 },
        replay: None,
        spurious_den: 0,
        reuse: true,
        clock_mode: 0,
        stall_den: 0,
        freeze_den: 0,
        max_steps: 400_000,
        races: false,
        uaf: false,
    };
    for l in text.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => prop = r.trim().to_string(),
            "violation" => viol = r.trim().to_string(),
            "family" => pr.fam = r.trim().to_string(),
            "param" => pr.p = r.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            "thread" => pr.th.push(r.split(';').filter_map(Op::parse).collect()),
            "cfg" => {
                for kv in r.split_whitespace() {
                    let (k, v) = kv.split_once('=')?;
                    match k {
                        "seed" => cfg.seed = v.parse().ok()?,
                        "spurious" => cfg.spurious_den = v.parse().ok()?,
                        "reuse" => cfg.reuse = v == "1",
                        "clock" => cfg.clock_mode = v.parse().ok()?,
                        "stall" => cfg.stall_den = v.parse().ok()?,
                        "freeze" => cfg.freeze_den = v.parse().ok()?,
                        "max_steps" => cfg.max_steps = v.parse().ok()?,
                        "races" => cfg.races = v == "1",
                        "uaf" => cfg.uaf = v == "1",
                        "strategy" => {
                            let p: Vec<&str> = v.split(':').collect();
                            let a = p.get(1)?.parse().ok()?;
                            let b = p.get(2)?.parse().ok()?;
                            cfg.strategy = if p[0] == "pct" {
                                Strategy::Pct { depth: a, horizon: b }
                            } else if p[0] == "burst" {
                                Strategy::Burst { max_log: a, wake_den: b }
                            } else {
                                Strategy::Random { sync_den: a, mem_den: b }
                            };
                        }
                        _ => {}
                    }
                }
            }
            "decisions" => {
                let mut v = vec![];
                for d in r.split_whitespace() {
                    let (k, rest) = d.split_at(1);
                    let kind = DK.iter().position(|c| k.starts_with(*c))? as u8;
                    let (at, val) = rest.strip_prefix('@')?.split_once('=')?;
                    let val: i64 = val.parse().ok()?;
                    v.push(Decision { kind, at: at.parse().ok()?, val: val as u64 });
                }
                cfg.replay = Some(v);
            }
            _ => {}
        }
    }
    Some((prop, viol, pr, cfg))
}
