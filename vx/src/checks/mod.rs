pub mod docs;
pub mod known;
pub mod libs;
pub mod module;
pub mod nodes;
pub mod schema;
use crate::report::Report;

pub fn pipe(id: &str) -> Option<crate::pipe::Pipe> { docs::pipe(id) }

pub fn run(id: &str, r: &mut Report) -> bool {
    crate::batch::refresh();
    let mut any = false;
    if let Some(p) = pipe(id) {
        any = true;
        p.run(r);
    }
    for d in directs(id) {
        any = true;
        if r.violations.is_empty() {
            d.run(r);
        }
    }
    if let Some(m) = module::mac(id) {
        any = true;
        if r.violations.is_empty() {
            m.run(r);
        }
    }
    if any && r.violations.is_empty() {
        known::run(id, r);
    }
    any
}
pub fn directs(id: &str) -> Vec<crate::direct::Direct> {
    schema::direct(id).into_iter().chain(libs::direct(id)).chain(nodes::direct(id)).collect()
}
pub fn replay(f: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok()) { Some(v) => v, None => crate::fatal(&format!("cannot read {}", f)) };
    crate::batch::refresh();
    let id = v["check"].as_str().unwrap_or("").to_string();
    if v["kind"] == "direct" {
        return match directs(&id).into_iter().next() {
            Some(d) => d.replay(&v),
            None => crate::fatal("unknown check in replay file"),
        };
    }
    if v["kind"] == "probe" {
        return known::replay(&id, v["key"].as_str().unwrap_or(""));
    }
    if v["kind"] == "macro" {
        return match module::mac(&id) {
            Some(m) => m.replay(&v),
            None => crate::fatal("unknown check in replay file"),
        };
    }
    match pipe(&id) {
        Some(p) => p.replay(&v),
        None => crate::fatal("unknown check in replay file"),
    }
}
pub fn dump(id: &str, seed: u64, n: u64) {
    use crate::tape::*;
    let Some(p) = pipe(id) else { return };
    for i in 0..n {
        let mut g = Gen::random(mix(&[seed, i]));
        let s = (p.schema)(&mut g, &p.profiles[i as usize % p.profiles.len()]);
        println!("{}", s.text());
        for k in 0..3 {
            let mut g = Gen::random(mix(&[seed, i, k]));
            if let Some(d) = (p.doc)(&s, &mut g) {
                for q in d.reqs {
                    println!("[{}] {} {}", d.label, q.0, String::from_utf8_lossy(&q.1));
                }
            }
        }
    }
}
