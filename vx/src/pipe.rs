//! The common pipeline: generate schemas, compile them through the real macro in batches, run
//! generated documents on the result, judge, shrink.
use crate::batch::{self, Built, Unit};
use crate::gen::{gen_set, Profile};
use crate::lower::Lowered;
use crate::model::*;
use crate::proc::Resp;
use crate::report::Report;
use crate::tape::{self, candidates, hash_str, mix, Gen, Tape};
use serde_json::json;

pub struct Schema {
    pub set: SchemaSet,
    pub low: Lowered,
    pub files: Vec<(String, String)>,
    /// types that can be probed, in probe order
    pub roots: Vec<String>,
}
impl Schema {
    pub fn text(&self) -> String {
        self.files.iter().map(|(p, t)| format!("--- {}\n{}", p, t)).collect::<Vec<_>>().join("\n")
    }
    pub fn hash(&self) -> u64 { hash_str(&self.text()) }
}

pub type Judge = Box<dyn Fn(&[Resp]) -> Result<(), String>>;
pub struct DocCase {
    pub reqs: Vec<(usize, Vec<u8>)>,
    pub judge: Judge,
    pub nontrivial: bool,
    pub label: String,
}

pub struct Pipe {
    pub id: &'static str,
    pub rule: &'static str,
    pub profiles: Vec<Profile>,
    /// (quick, thorough) batches, schemas per batch, documents per schema
    pub rounds: (usize, usize),
    pub units: usize,
    pub docs: usize,
    pub schema: fn(&mut Gen, &Profile) -> Schema,
    pub unit: fn(&Schema, &mut Gen) -> Unit,
    pub doc: fn(&Schema, &mut Gen) -> Option<DocCase>,
    pub compile_violation: bool,
    /// also judged without any document (e.g. compile-time assertions only)
    pub compile_counts: bool,
}

pub fn std_schema(g: &mut Gen, p: &Profile) -> Schema {
    let (set, low) = gen_set(g, p);
    let files = print_set(&set, g);
    let roots = low.elements().iter().map(|t| t.rust.clone()).collect();
    Schema { set, low, files, roots }
}
pub fn std_unit(s: &Schema, _g: &mut Gen) -> Unit {
    Unit { files: s.files.clone(), probes: s.roots.iter().map(|r| format!("m::{}", crate::lower::src_ident(r))).collect(), ..Default::default() }
}

struct Case { pi: usize, tape: Tape, s: Schema, u: Unit }

impl Pipe {
    fn case(&self, pi: usize, g: &mut Gen) -> Case {
        let s = (self.schema)(g, &self.profiles[pi]);
        let u = (self.unit)(&s, g);
        Case { pi, tape: g.tape.clone(), s, u }
    }
    pub fn run(&self, r: &mut Report) {
        r.rule = self.rule.to_string();
        let rounds = if r.thorough { self.rounds.1 } else { self.rounds.0 };
        for round in 0..rounds {
            if self.round(r, round) {
                return;
            }
        }
    }
    /// true = stop
    fn round(&self, r: &mut Report, round: usize) -> bool {
        let n = ((self.units as f64) * r.scale).max(1.0) as usize;
        let nd = self.docs;
        let base = mix(&[r.seed, hash_str(self.id), round as u64]);
        let cases: Vec<Case> = (0..n).map(|i| {
            let mut g = Gen::random(mix(&[base, i as u64]));
            self.case(i % self.profiles.len(), &mut g)
        }).collect();
        let units: Vec<Unit> = cases.iter().map(|c| c.u.clone()).collect();
        let name = format!("b{}", self.id);
        let built = batch::build(&name, &units, 8);
        for (i, c) in cases.iter().enumerate() {
            r.count("schemas", 1);
            r.count("schema types", c.s.low.types.len() as u64);
            if self.compile_counts {
                r.evaluations += 1;
                r.nontrivial.insert(c.s.hash());
                if i < 2 && round == 0 {
                    r.sample(json!({ "schema": c.s.text() }));
                }
            }
            if let Some(msgs) = built.failed.get(&i) {
                r.label("schemas that do not compile");
                if std::env::var_os("VX_ALL").is_some() {
                    println!("=== {} unit {} does not compile: {}\n{}", self.id, i, msgs.join(" | "), c.s.text());
                }
            }
        }
        let mut first_compile = None;
        if self.compile_violation {
            first_compile = built.failed.keys().min_by_key(|i| cases[**i].s.text().len()).copied();
        }
        // documents
        let mut docs: Vec<(usize, Tape, DocCase)> = vec![];
        for (i, c) in cases.iter().enumerate() {
            if built.failed.contains_key(&i) {
                continue;
            }
            for k in 0..nd {
                let mut g = Gen::random(mix(&[base, i as u64, 1 + k as u64]));
                if let Some(d) = (self.doc)(&c.s, &mut g) {
                    docs.push((i, g.tape.clone(), d));
                } else {
                    r.label("documents skipped");
                }
            }
        }
        let mut reqs = vec![];
        for (i, _, d) in &docs {
            for (f, b) in &d.reqs {
                reqs.push((*i, *f, b.clone()));
            }
        }
        let resp = built.run(&reqs);
        let mut at = 0;
        let mut fails: Vec<(usize, Tape, String)> = vec![];
        for (i, t, d) in &docs {
            let rs: Option<Vec<Resp>> = resp[at..at + d.reqs.len()].iter().cloned().collect();
            at += d.reqs.len();
            let Some(rs) = rs else { continue };
            r.evaluations += 1;
            r.label(&d.label);
            if d.nontrivial {
                let mut h = cases[*i].s.hash();
                for q in &d.reqs {
                    h = mix(&[h, q.0 as u64, hash_str(&String::from_utf8_lossy(&q.1))]);
                }
                if r.nontrivial.insert(h) && r.nontrivial.len() % 97 == 5 {
                    r.sample(json!({ "schema": cases[*i].s.text(), "inputs": d.reqs.iter().map(|q| String::from_utf8_lossy(&q.1).into_owned()).collect::<Vec<_>>(), "class": d.label }));
                }
            }
            if let Err(m) = (d.judge)(&rs) {
                fails.push((*i, t.clone(), m));
            }
        }
        if std::env::var_os("VX_ALL").is_some() {
            let mut seen = std::collections::BTreeSet::new();
            for (i, t, m) in &fails {
                if !seen.insert(*i) { continue }
                let c = &cases[*i];
                let mut g = Gen::replay(t);
                let d = (self.doc)(&c.s, &mut g).unwrap();
                println!("=== {} unit {} [{}]: {}\n{}", self.id, i, d.label, m, c.s.text());
                for q in &d.reqs {
                    println!("--- input {}\n{}", q.0, String::from_utf8_lossy(&q.1));
                }
            }
            println!("{} failing documents in {} schemas, {} schemas not compiling of {}", fails.len(), seen.len(), built.failed.len(), n);
            return true;
        }
        if let Some(i) = first_compile {
            let c = &cases[i];
            self.compile_violation(r, c, &built.failed[&i]);
            return true;
        }
        if !fails.is_empty() {
            // smallest schema first
            fails.sort_by_key(|f| (cases[f.0].s.text().len(), f.1.len()));
            // confirm on a fresh process
            let t0 = std::time::Instant::now();
            for (i, t, _) in fails.iter().take(20) {
                if t0.elapsed().as_secs() > 200 {
                    break;
                }
                let c = &cases[*i];
                if let Some(m) = self.try_doc(&built, *i, &c.s, t) {
                    self.doc_violation(r, c, &built, *i, t, m);
                    return true;
                }
            }
            r.label("unconfirmed failures");
        }
        false
    }
    fn try_doc(&self, built: &Built, i: usize, s: &Schema, t: &Tape) -> Option<String> {
        let mut g = Gen::replay(t);
        let d = (self.doc)(s, &mut g)?;
        let reqs: Vec<_> = d.reqs.iter().map(|(f, b)| (i, *f, b.clone())).collect();
        let rs: Option<Vec<Resp>> = built.run(&reqs).into_iter().collect();
        (d.judge)(&rs?).err()
    }
    /// shrink candidates of a schema that still fail, in batches
    fn shrink_schema(&self, c: &Case, fails: &dyn Fn(&[Case], &Built) -> Option<usize>, rounds: usize) -> Case {
        let mut best = Case { pi: c.pi, tape: c.tape.clone(), s: (self.schema)(&mut Gen::replay(&c.tape), &self.profiles[c.pi]), u: c.u.clone() };
        let mut tried = std::collections::BTreeSet::new();
        let t0 = std::time::Instant::now();
        for _ in 0..rounds {
            if t0.elapsed().as_secs() > 150 {
                break;
            }
            let mut cs: Vec<Case> = vec![];
            let bl = best.s.text().len();
            let mut cands = candidates(&best.tape);
            // large cuts first, then spread over the rest
            if cands.len() > 400 {
                let step = cands.len() / 400 + 1;
                cands = cands.iter().take(60).cloned().chain(cands.iter().skip(60).step_by(step).cloned()).collect();
            }
            for t in cands {
                let mut g = Gen::replay(&t);
                let k = self.case(c.pi, &mut g);
                let l = k.s.text().len();
                if l < bl && tried.insert(k.s.hash()) {
                    cs.push(k);
                }
            }
            cs.sort_by_key(|k| k.s.text().len());
            cs.truncate(64);
            if cs.is_empty() {
                break;
            }
            let units: Vec<Unit> = cs.iter().map(|c| c.u.clone()).collect();
            let built = batch::build(&format!("b{}s", self.id), &units, 8);
            match fails(&cs, &built) {
                Some(i) => best = cs.swap_remove(i),
                None => break,
            }
        }
        best
    }
    fn compile_violation(&self, r: &mut Report, c: &Case, msgs: &[String]) {
        let key = norm(&msgs[0]);
        let best = self.shrink_schema(c, &|cs, b| (0..cs.len()).find(|i| b.failed.get(i).map(|m| m.iter().any(|m| norm(m) == key)).unwrap_or(false)), 12);
        let what = format!("generated code does not compile: {}", msgs[0]);
        let v = json!({ "check": self.id, "kind": "compile", "profile": best.pi, "schema_tape": best.tape, "message": what, "files": best.s.files, "compiler": msgs });
        println!("{}", best.s.text());
        r.violation(&what, &v);
    }
    fn doc_violation(&self, r: &mut Report, c: &Case, built: &Built, i: usize, t: &Tape, m: String) {
        let id = self.id;
        let docs_of = |s: &Schema| -> Vec<Tape> {
            let mut v = vec![t.clone()];
            for k in 0..40u64 {
                let mut g = Gen::random(mix(&[hash_str(id), k]));
                if (self.doc)(s, &mut g).is_some() {
                    v.push(g.tape.clone());
                }
            }
            v
        };
        let failing = |cs: &[Case], b: &Built| -> Option<(usize, Tape, String)> {
            let mut reqs = vec![];
            let mut all = vec![];
            for (i, c) in cs.iter().enumerate() {
                if b.failed.contains_key(&i) {
                    continue;
                }
                for t in docs_of(&c.s) {
                    if let Some(d) = (self.doc)(&c.s, &mut Gen::replay(&t)) {
                        for (f, x) in &d.reqs {
                            reqs.push((i, *f, x.clone()));
                        }
                        all.push((i, t, d));
                    }
                }
            }
            let resp = b.run(&reqs);
            let mut at = 0;
            for (i, t, d) in all {
                let rs: Option<Vec<Resp>> = resp[at..at + d.reqs.len()].iter().cloned().collect();
                at += d.reqs.len();
                if let Some(rs) = rs {
                    if let Err(m) = (d.judge)(&rs) {
                        return Some((i, t, m));
                    }
                }
            }
            None
        };
        let found = std::cell::RefCell::new((t.clone(), m.clone()));
        // without a smaller schema the original executable serves for shrinking the document
        let best = self.shrink_schema(c, &|cs, b| {
            let (i, t, m) = failing(cs, b)?;
            *found.borrow_mut() = (t, m);
            Some(i)
        }, 8);
        let (t, m) = found.into_inner();
        let small = best.s.hash() != c.s.hash();
        let own;
        let (b, bi) = if small {
            own = batch::build(&format!("b{}s", self.id), &[best.u.clone()], 1);
            (&own, 0)
        } else { (built, i) };
        let m2 = std::cell::RefCell::new(m);
        let t0 = std::time::Instant::now();
        let t = tape::shrink(t, |t| match if t0.elapsed().as_secs() < 60 { self.try_doc(b, bi, &best.s, t) } else { None } {
            Some(m) => { *m2.borrow_mut() = m; true }
            None => false,
        }, 300);
        let what = self.try_doc(b, bi, &best.s, &t).unwrap_or_else(|| m2.borrow().clone());
        let d = (self.doc)(&best.s, &mut Gen::replay(&t));
        let inputs: Vec<(usize, String)> = d.map(|d| d.reqs.iter().map(|q| (q.0, String::from_utf8_lossy(&q.1).into_owned())).collect()).unwrap_or_default();
        println!("{}", best.s.text());
        for x in &inputs {
            println!("--- input ({})\n{}", x.0, x.1);
        }
        let v = json!({ "check": self.id, "kind": "doc", "profile": best.pi, "schema_tape": best.tape, "doc_tape": t, "message": what, "files": best.s.files, "roots": best.s.roots, "inputs": inputs });
        r.violation(&what, &v);
    }
    pub fn replay(&self, v: &serde_json::Value) -> i32 {
        let tp = |k: &str| -> Tape { v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default() };
        let pi = v["profile"].as_u64().unwrap_or(0) as usize;
        let c = self.case(pi, &mut Gen::replay(&tp("schema_tape")));
        println!("{}", c.s.text());
        let b = batch::build(&format!("b{}r", self.id), &[c.u.clone()], 1);
        if let Some(m) = b.failed.get(&0) {
            println!("does not compile: {}", m.join("\n"));
            return 1;
        }
        if v["kind"] == "compile" {
            println!("compiles");
            return 0;
        }
        match self.try_doc(&b, 0, &c.s, &tp("doc_tape")) {
            Some(m) => { println!("{}", m); 1 }
            None => { println!("holds"); 0 }
        }
    }
}
fn norm(m: &str) -> String {
    // drop quoted names
    let mut o = String::new();
    let mut q = false;
    for c in m.chars() {
        if c == '`' { q = !q; continue }
        if !q { o.push(c) }
    }
    o
}
