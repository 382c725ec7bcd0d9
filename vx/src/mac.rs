//! Checks of whole annotated modules: each case is a piece of Rust source that either must compile
//! (and then answer requests as expected) or must be rejected with a fitting message.
use crate::batch::{self, Built, Unit};
use crate::pipe::DocCase;
use crate::proc::Resp;
use crate::report::Report;
use crate::tape::{candidates, hash_str, mix, Gen, Tape};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub type Rejected = Box<dyn Fn(&[String]) -> Result<(), String>>;
pub struct MCase {
    pub unit: Unit,
    /// how the compiler must reject the unit; None = it must compile
    pub rejected: Option<Rejected>,
    pub docs: Vec<DocCase>,
    pub label: String,
}
pub struct Macro {
    pub id: &'static str,
    pub rule: &'static str,
    /// (quick, thorough) batches; cases per batch
    pub rounds: (usize, usize),
    pub units: usize,
    pub gen: fn(&mut Gen) -> Option<MCase>,
}
fn describe(c: &MCase) -> Value {
    json!({ "files": c.unit.files, "source": batch::unit_source(0, &c.unit, "crate"), "class": c.label, "expected": if c.rejected.is_some() { "rejected by the compiler" } else { "compiles" },
        "inputs": c.docs.iter().flat_map(|d| d.reqs.iter().map(|q| (q.0, String::from_utf8_lossy(&q.1).into_owned()))).collect::<Vec<_>>() })
}
fn len(c: &MCase) -> usize {
    c.unit.files.iter().map(|f| f.1.len()).sum::<usize>() + batch::unit_source(0, &c.unit, "crate").len()
}
fn judge(c: &MCase, i: usize, b: &Built, run: &mut dyn FnMut(&DocCase) -> Option<Vec<Resp>>) -> Result<(), String> {
    match (b.failed.get(&i), &c.rejected) {
        (Some(m), Some(f)) => f(m).map_err(|e| format!("unfit rejection: {} (messages: {})", e, m.join(" | "))),
        (Some(m), None) => Err(format!("does not compile: {}", m.join(" | "))),
        (None, Some(_)) => Err(format!("accepted: the compiler accepts what has to be rejected ({})", c.label)),
        (None, None) => {
            for d in &c.docs {
                if let Some(r) = run(d) {
                    (d.judge)(&r).map_err(|e| format!("behaviour: {}", e))?;
                }
            }
            Ok(())
        }
    }
}
impl Macro {
    fn eval(&self, name: &str, cases: &[MCase]) -> Vec<Result<(), String>> {
        let units: Vec<Unit> = cases.iter().map(|c| c.unit.clone()).collect();
        let b = batch::build(name, &units, 8);
        let mut reqs = vec![];
        for (i, c) in cases.iter().enumerate() {
            if b.failed.contains_key(&i) {
                continue;
            }
            for d in &c.docs {
                for q in &d.reqs {
                    reqs.push((i, q.0, q.1.clone()));
                }
            }
        }
        let resp = b.run(&reqs);
        let mut at = 0;
        cases.iter().enumerate().map(|(i, c)| {
            let n: usize = if b.failed.contains_key(&i) { 0 } else { c.docs.iter().map(|d| d.reqs.len()).sum() };
            let mut p = at;
            at += n;
            judge(c, i, &b, &mut |d| {
                let r = resp[p..p + d.reqs.len()].iter().cloned().collect();
                p += d.reqs.len();
                r
            })
        }).collect()
    }
    pub fn run(&self, r: &mut Report) -> bool {
        if r.rule.is_empty() {
            r.rule = self.rule.to_string();
        } else {
            r.rule = format!("{}; and {}", r.rule, self.rule);
        }
        let all = std::env::var_os("VX_ALL").is_some();
        for round in 0..if r.thorough { self.rounds.1 } else { self.rounds.0 } {
            let n = (self.units as f64 * r.scale).max(1.0) as usize;
            let base = mix(&[r.seed, hash_str(self.id), 99, round as u64]);
            let mut cases = vec![];
            let mut tapes = vec![];
            for i in 0..n {
                let mut g = Gen::random(mix(&[base, i as u64]));
                if let Some(c) = (self.gen)(&mut g) {
                    cases.push(c);
                    tapes.push(g.tape.clone());
                }
            }
            let res = self.eval(&format!("m{}", self.id), &cases);
            let mut fails = vec![];
            for (i, c) in cases.iter().enumerate() {
                r.evaluations += 1;
                r.label(&c.label);
                if r.nontrivial.insert(hash_str(&describe(c).to_string())) && i % 31 == 7 {
                    r.sample(describe(c));
                }
                if let Err(m) = &res[i] {
                    if all {
                        println!("=== {} case {} [{}]: {}\n{}", self.id, i, c.label, m, batch::unit_source(i, &c.unit, "crate"));
                    }
                    fails.push(i);
                }
            }
            if all {
                println!("{} failing of {}", fails.len(), cases.len());
                continue;
            }
            fails.sort_by_key(|i| len(&cases[*i]));
            let Some(i) = fails.first().copied() else { continue };
            let kind = |m: &str| m.split(':').next().unwrap_or("").to_string();
            let mut msg = res[i].clone().unwrap_err();
            let mut best: Tape = tapes[i].clone();
            let mut tried = BTreeSet::new();
            let t0 = std::time::Instant::now();
            for _ in 0..8 {
                if t0.elapsed().as_secs() > 120 {
                    break;
                }
                let bl = len(&(self.gen)(&mut Gen::replay(&best)).unwrap());
                let mut cs: Vec<(MCase, Tape)> = vec![];
                let cands = candidates(&best);
                let step = cands.len() / 300 + 1;
                for t in cands.iter().take(40).chain(cands.iter().skip(40).step_by(step)) {
                    let mut g = Gen::replay(t);
                    if let Some(c) = (self.gen)(&mut g) {
                        if len(&c) < bl && tried.insert(hash_str(&describe(&c).to_string())) {
                            cs.push((c, g.tape.clone()));
                        }
                    }
                }
                cs.sort_by_key(|c| len(&c.0));
                cs.truncate(48);
                if cs.is_empty() {
                    break;
                }
                let (cc, ct): (Vec<MCase>, Vec<Tape>) = cs.into_iter().unzip();
                let rs = self.eval(&format!("m{}s", self.id), &cc);
                match rs.iter().position(|x| matches!(x, Err(m) if kind(m) == kind(&msg))) {
                    Some(k) => {
                        msg = rs[k].clone().unwrap_err();
                        best = ct[k].clone();
                    }
                    None => break,
                }
            }
            let c = (self.gen)(&mut Gen::replay(&best)).unwrap();
            println!("{}", batch::unit_source(0, &c.unit, "crate"));
            for (p, t) in &c.unit.files {
                println!("--- {}\n{}", p, t);
            }
            let mut v = describe(&c);
            v["check"] = json!(self.id);
            v["kind"] = json!("macro");
            v["tape"] = json!(best);
            v["message"] = json!(msg);
            r.violation(&msg, &v);
            return true;
        }
        false
    }
    pub fn replay(&self, v: &Value) -> i32 {
        let t: Tape = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
        let Some(c) = (self.gen)(&mut Gen::replay(&t)) else { println!("no case"); return 0 };
        println!("{}", batch::unit_source(0, &c.unit, "crate"));
        match &self.eval(&format!("m{}r", self.id), &[c])[0] {
            Err(m) => { println!("{}", m); 1 }
            Ok(()) => { println!("holds"); 0 }
        }
    }
}
