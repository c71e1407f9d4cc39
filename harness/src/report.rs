//! Verdicts, evidence and known findings.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum J {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn o(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn render(&self) -> String {
        match self {
            J::S(s) => {
                let mut o = String::from("\"");
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
                o
            }
            J::I(i) => i.to_string(),
            J::F(f) => format!("{f:.3}"),
            J::B(b) => b.to_string(),
            J::A(v) => format!("[{}]", v.iter().map(|x| x.render()).collect::<Vec<_>>().join(",")),
            J::O(v) => format!(
                "{{{}}}",
                v.iter()
                    .map(|(k, x)| format!("{}:{}", J::s(k.clone()).render(), x.render()))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// Signature that identifies the failing input or history class.
    pub sig: String,
    pub what: String,
    pub witness: J,
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    /// signature and text of the recorded findings of this property
    known: Vec<(String, String)>,
    viol: Mutex<Vec<Viol>>,
    failed: AtomicBool,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, i64>>,
    samples: Mutex<Vec<J>>,
    inconclusive: Mutex<Vec<String>>,
    rule: Mutex<String>,
}
pub type C = Arc<Ctx>;

/// finding: property=C00 sig=<signature> <text>
fn known_findings(id: &str) -> Vec<(String, String)> {
    let root = std::env::var("RKV_ROOT").unwrap_or_else(|_| "/verif".into());
    std::fs::read_to_string(format!("{root}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (p, r) = r.split_once(" sig=")?;
            let (sig, text) = r.split_once(' ')?;
            (p == id).then(|| (sig.to_string(), text.to_string()))
        })
        .collect()
}

impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64) -> C {
        Arc::new(Ctx {
            id: id.into(),
            tier: tier.into(),
            seed,
            thorough: tier == "thorough",
            start: Instant::now(),
            known: known_findings(id),
            viol: Default::default(),
            failed: AtomicBool::new(false),
            evals: AtomicU64::new(0),
            distinct: Default::default(),
            counters: Default::default(),
            samples: Default::default(),
            inconclusive: Default::default(),
            rule: Default::default(),
        })
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// quick/thorough sizing
    pub fn q(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn violation(&self, sig: impl Into<String>, what: impl Into<String>, witness: J) {
        let sig = sig.into();
        if self.known.iter().any(|k| k.0 == sig) {
            self.add(&format!("known_finding_seen_{sig}"), 1);
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.iter().filter(|x| x.sig == sig).count() >= 3 || v.len() > 60 {
            return;
        }
        let what = what.into();
        eprintln!("[violation] {} sig={} {}", self.id, sig, what);
        v.push(Viol { sig, what, witness });
        self.failed.store(true, SeqCst);
    }
    pub fn failed(&self) -> bool {
        self.failed.load(SeqCst)
    }
    /// Records one evaluated case; `key` identifies it for the distinct count.
    pub fn case(&self, key: &[u8], nontrivial: bool) {
        self.evals.fetch_add(1, Relaxed);
        if nontrivial {
            self.distinct.lock().unwrap().insert(crate::rt::hash64(key));
        }
    }
    pub fn add(&self, k: &str, n: i64) {
        *self.counters.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn max(&self, k: &str, n: i64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(k.into()).or_insert(n);
        *e = (*e).max(n);
    }
    pub fn get(&self, k: &str) -> i64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    pub fn sample(&self, j: J) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(j);
        }
    }
    pub fn rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.into();
    }
    pub fn inconclusive(&self, why: impl Into<String>) {
        let w = why.into();
        eprintln!("[inconclusive] {w}");
        self.inconclusive.lock().unwrap().push(w);
    }

    /// Panics inside the library are violations of whichever property is being checked under `sig`.
    pub fn take_panics(&self, sig: &str) {
        for p in crate::rt::lib_panic_records() {
            self.violation(
                format!("{sig}:panic"),
                format!("panic inside the library at {}: {}", p.at, p.msg),
                J::o(vec![
                    ("at", J::s(p.at)),
                    ("message", J::s(p.msg)),
                    ("frames", J::A(p.trace.into_iter().map(J::S).collect())),
                ]),
            );
        }
    }

    pub fn finish(&self, root: &str) -> i32 {
        let fresh = self.viol.lock().unwrap().clone();
        for (sig, text) in &self.known {
            println!("KNOWN-FINDING: property={} [{}] {}", self.id, sig, text);
        }
        let harness = crate::rt::harness_panics();
        let inc = self.inconclusive.lock().unwrap().clone();
        let evals = self.evals.load(Relaxed);
        let distinct = self.distinct.lock().unwrap().len() as i64;
        let mut cov: Vec<(String, J)> = vec![
            ("evaluations".into(), J::I(evals as i64)),
            ("distinct_nontrivial".into(), J::I(distinct)),
            ("rule".into(), J::S(self.rule.lock().unwrap().clone())),
            ("samples".into(), J::A(self.samples.lock().unwrap().clone())),
        ];
        let mut obs: Vec<(String, J)> =
            self.counters.lock().unwrap().iter().map(|(k, v)| (k.clone(), J::I(*v))).collect();
        obs.push(("task_polls".into(), J::I(crate::rt::POLLS.load(Relaxed) as i64)));
        obs.push(("injected_scheduling_delays".into(), J::I(crate::rt::CHAOS_HITS.load(Relaxed) as i64)));
        for (k, v) in crate::rt::phases() {
            obs.push((format!("calls_{k}"), J::I(v as i64)));
        }
        obs.push(("library_panics".into(), J::I(crate::rt::lib_panics() as i64)));
        cov.push(("observed".into(), J::O(obs)));
        if !inc.is_empty() {
            cov.push(("inconclusive".into(), J::A(inc.iter().cloned().map(J::S).collect())));
        }
        let level = if self.id == "C09" { "fault_enumeration" } else { "exploration" };
        let ev = J::o(vec![
            ("property", J::s(self.id.clone())),
            ("tier", J::s(self.tier.clone())),
            ("seed", J::I(self.seed as i64)),
            ("level", J::s(level)),
            ("coverage", J::O(cov)),
            (
                "assumptions",
                J::A(vec![
                    J::s("held on the executions of this run only; loopback UDP; deadlines in logical ticks of the runtime"),
                    J::s("library built with opt-level 1, overflow checks and debug assertions"),
                ]),
            ),
            ("wall_s", J::F(self.elapsed())),
            ("violations", J::I(fresh.len() as i64)),
        ]);
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let _ = std::fs::write(format!("{root}/evidence/{}.json", self.id), ev.render() + "\n");
        if !fresh.is_empty() {
            let _ = std::fs::create_dir_all(format!("{root}/replay"));
            let path = format!("{root}/replay/{}-{}-{}.json", self.id, self.tier, self.seed);
            let body = J::o(vec![
                ("property", J::s(self.id.clone())),
                ("seed", J::I(self.seed as i64)),
                ("tier", J::s(self.tier.clone())),
                ("replay", J::s(format!("cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {}", self.seed, self.tier, self.id))),
                (
                    "violations",
                    J::A(
                        fresh
                            .iter()
                            .map(|v| {
                                J::o(vec![
                                    ("signature", J::s(v.sig.clone())),
                                    ("what", J::s(v.what.clone())),
                                    ("witness", v.witness.clone()),
                                ])
                            })
                            .collect(),
                    ),
                ),
            ]);
            let _ = std::fs::write(&path, body.render() + "\n");
            for v in &fresh {
                println!("  {} [{}] {}", self.id, v.sig, v.what);
            }
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        if !harness.is_empty() {
            for p in harness.iter().take(3) {
                println!("harness error: panic at {}: {}", p.at, p.msg);
            }
            return 3;
        }
        if !inc.is_empty() || evals == 0 || distinct < 2 {
            println!("INCONCLUSIVE property={} evaluations={evals} distinct={distinct} {:?}", self.id, inc);
            return 2;
        }
        println!(
            "OK property={} tier={} seed={} evaluations={evals} distinct={distinct} wall={:.1}s",
            self.id,
            self.tier,
            self.seed,
            self.elapsed()
        );
        0
    }
}
