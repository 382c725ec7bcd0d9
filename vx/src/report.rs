//! Evidence, violations and exit status of one check run.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub struct Report {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    t0: Instant,
    pub evaluations: u64,
    pub nontrivial: BTreeSet<u64>,
    pub rule: String,
    pub samples: Vec<Value>,
    pub labels: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    pub known: Vec<String>,
}

impl Report {
    pub fn new(id: &str, seed: u64, thorough: bool, scale: f64) -> Self {
        Report { id: id.into(), seed, thorough, scale, t0: Instant::now(), evaluations: 0, nontrivial: BTreeSet::new(), rule: String::new(), samples: vec![], labels: BTreeMap::new(), violations: vec![], known: vec![] }
    }
    pub fn elapsed(&self) -> f64 { self.t0.elapsed().as_secs_f64() }
    pub fn label(&mut self, l: &str) { *self.labels.entry(l.to_string()).or_default() += 1; }
    pub fn count(&mut self, l: &str, n: u64) { *self.labels.entry(l.to_string()).or_default() += n; }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    /// records a violation; `replay` is written to /verif/replays
    pub fn violation(&mut self, what: &str, replay: &Value) {
        let dir = crate::batch::root().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let p = dir.join(format!("{}-{}-{}.json", self.id, self.seed, self.violations.len()));
        std::fs::write(&p, serde_json::to_string_pretty(replay).unwrap()).ok();
        self.violations.push((what.to_string(), p.display().to_string()));
        println!("{}: {}", self.id, what);
        println!("VIOLATION property={} replay={}", self.id, p.display());
    }
    pub fn finish(&self) -> i32 {
        for k in &self.known {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        let ev = json!({
            "property": self.id, "tier": if self.thorough { "thorough" } else { "quick" }, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial.len(), "rule": self.rule, "samples": self.samples,
                "classes": self.labels,
            },
            "wall_s": self.elapsed(), "violations": self.violations.len(),
        });
        let dir = crate::batch::root().join("evidence");
        std::fs::create_dir_all(&dir).ok();
        let p = dir.join(format!("{}.json", self.id));
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            crate::fatal(&format!("cannot write {}: {}", p.display(), e));
        }
        println!("{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1} s", self.id, self.evaluations, self.nontrivial.len(), self.violations.len(), self.elapsed());
        if self.violations.is_empty() { 0 } else { 1 }
    }
}
