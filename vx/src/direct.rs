//! Checks that talk to the repository's crates directly, through the `vprobe` worker process.
use crate::batch;
use crate::proc::{Resp, Worker};
use crate::report::Report;
use crate::tape::{self, hash_str, mix, Gen, Tape};
use serde_json::{json, Value};
use std::path::Path;

pub type Judge = Box<dyn Fn(&[Value]) -> Result<(), String>>;
pub struct DCase {
    /// files written below the scratch directory before the requests are sent
    pub files: Vec<(String, String)>,
    /// `@DIR@` stands for the scratch directory
    pub reqs: Vec<Value>,
    pub judge: Judge,
    pub nontrivial: bool,
    pub label: String,
}
pub struct Direct {
    pub id: &'static str,
    pub rule: &'static str,
    pub n: (usize, usize),
    pub gen: fn(&mut Gen) -> Option<DCase>,
    /// builds the worker process that answers the requests
    pub exe: fn() -> std::path::PathBuf,
}
pub const DIR: &str = "@DIR@";

fn answer(w: &mut Worker, dir: &Path, c: &DCase) -> Vec<Value> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (p, t) in &c.files {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, t).unwrap();
    }
    let d = dir.display().to_string();
    c.reqs.iter().map(|q| {
        let q = q.to_string().replace(DIR, &d);
        match w.call(0, 0, q.as_bytes()) {
            Resp::Fields(f) => serde_json::from_slice(&f[0]).unwrap_or(json!({"bad": "unreadable answer"})),
            Resp::Crash(s) => json!({ "crash": s }),
            Resp::Hang => json!({"hang": true}),
        }
    }).collect()
}
/// what went wrong with the process itself
pub fn alive(v: &Value) -> Result<(), String> {
    if let Some(p) = v.get("panic") { return Err(format!("panic: {}", p)) }
    if let Some(p) = v.get("crash") { return Err(format!("the process died: {}", p)) }
    if v.get("hang").is_some() { return Err("no answer within the CPU budget".into()) }
    Ok(())
}
fn describe(c: &DCase) -> Value { json!({"files": c.files, "requests": c.reqs, "class": c.label}) }

impl Direct {
    pub fn run(&self, r: &mut Report) -> bool {
        if r.rule.is_empty() {
            r.rule = self.rule.to_string();
        } else {
            r.rule = format!("{}; and {}", r.rule, self.rule);
        }
        let exe = (self.exe)();
        let n = ((if r.thorough { self.n.1 } else { self.n.0 }) as f64 * r.scale) as usize;
        let base = mix(&[r.seed, hash_str(self.id), 77]);
        let all = std::env::var_os("VX_ALL").is_some();
        struct Out { eval: u64, labels: Vec<(String, u64)>, hashes: Vec<u64>, samples: Vec<Value>, fails: Vec<(Tape, String)> }
        // once something has failed, the search goes on for a while only
        let first: std::sync::Mutex<Option<std::time::Instant>> = std::sync::Mutex::new(None);
        let first = &first;
        let outs: Vec<Out> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8usize).map(|k| {
                let exe = &exe;
                sc.spawn(move || {
                    let mut w = Worker::new(exe);
                    let dir = batch::work().join(format!("d{}/t{}", self.id, k));
                    let mut o = Out { eval: 0, labels: vec![], hashes: vec![], samples: vec![], fails: vec![] };
                    let mut labels = std::collections::BTreeMap::<String, u64>::new();
                    let mut i = k;
                    while i < n {
                        let mut g = Gen::random(mix(&[base, i as u64]));
                        i += 8;
                        let Some(c) = (self.gen)(&mut g) else { *labels.entry("skipped".into()).or_default() += 1; continue };
                        let a = answer(&mut w, &dir, &c);
                        o.eval += 1;
                        *labels.entry(c.label.clone()).or_default() += 1;
                        for v in &a {
                            let k = ["items", "answers", "out", "xml"].iter().find(|k| v.get(**k).is_some()).map(|k| k.to_string()).or_else(|| v["err"].as_str().filter(|e| e.len() < 10).map(|e| format!("error ({})", e))).unwrap_or("other".into());
                            *labels.entry(format!("answered with: {}", k)).or_default() += 1;
                        }
                        if c.nontrivial {
                            o.hashes.push(hash_str(&describe(&c).to_string()));
                            if o.samples.is_empty() && i > n / 2 {
                                o.samples.push(describe(&c));
                            }
                        }
                        if let Err(m) = (c.judge)(&a) {
                            o.fails.push((g.tape.clone(), m));
                            if o.fails.len() > 40 && !all {
                                break;
                            }
                            first.lock().unwrap().get_or_insert_with(std::time::Instant::now);
                        }
                        if !all && first.lock().unwrap().map(|t| t.elapsed().as_secs() > 30).unwrap_or(false) {
                            break;
                        }
                    }
                    let _ = std::fs::remove_dir_all(&dir);
                    o.labels = labels.into_iter().collect();
                    o
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut fails = vec![];
        for o in outs {
            r.evaluations += o.eval;
            for (l, c) in o.labels {
                r.count(&l, c);
            }
            r.nontrivial.extend(o.hashes);
            for s in o.samples {
                r.sample(s);
            }
            fails.extend(o.fails);
        }
        fails.sort_by_key(|f| f.0.len());
        if all {
            for (t, m) in fails.iter().take(30) {
                let c = (self.gen)(&mut Gen::replay(t)).unwrap();
                println!("=== {} [{}] {}", self.id, c.label, m);
                for (p, t) in &c.files {
                    println!("--- {}\n{}", p, t);
                }
                for q in &c.reqs {
                    println!("--- request {}", q.to_string().chars().take(1500).collect::<String>());
                }
            }
            println!("{} failing of {}", fails.len(), n);
            return false;
        }
        let mut w = Worker::new(&exe);
        let dir = batch::work().join(format!("d{}/shrink", self.id));
        let t1 = std::time::Instant::now();
        for (t, _) in fails.iter().take(20) {
            if t1.elapsed().as_secs() > 200 {
                break;
            }
            let mut test = |t: &Tape| -> Option<String> {
                let c = (self.gen)(&mut Gen::replay(t))?;
                let a = answer(&mut w, &dir, &c);
                (c.judge)(&a).err()
            };
            let Some(m) = test(t) else { r.label("unconfirmed failures"); continue };
            // keep to the same kind of failure
            let kind: String = m.chars().take_while(|c| *c != ':').collect();
            let t0 = std::time::Instant::now();
            let t = tape::shrink(t.clone(), |t| t0.elapsed().as_secs() < 60 && test(t).map(|m| m.starts_with(&kind)).unwrap_or(false), 3000);
            let m = test(&t).unwrap_or(m);
            let c = (self.gen)(&mut Gen::replay(&t)).unwrap();
            for (p, t) in &c.files {
                println!("--- {}\n{}", p, t);
            }
            let mut v = describe(&c);
            v["check"] = json!(self.id);
            v["kind"] = json!("direct");
            v["tape"] = json!(t);
            v["message"] = json!(m);
            r.violation(&m, &v);
            return true;
        }
        false
    }
    pub fn replay(&self, v: &Value) -> i32 {
        let t: Tape = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
        let Some(c) = (self.gen)(&mut Gen::replay(&t)) else { println!("no case"); return 0 };
        for (p, t) in &c.files {
            println!("--- {}\n{}", p, t);
        }
        for q in &c.reqs {
            println!("--- request {}", q);
        }
        let mut w = Worker::new(&(self.exe)());
        let a = answer(&mut w, &batch::work().join(format!("d{}/replay", self.id)), &c);
        match (c.judge)(&a) {
            Err(m) => { println!("{}", m); 1 }
            Ok(()) => { println!("holds"); 0 }
        }
    }
}
