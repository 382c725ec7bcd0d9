mod batch;
mod checks;
mod dbg;
mod direct;
mod gen;
mod inst;
mod lower;
mod mac;
mod model;
mod pipe;
mod proc;
mod report;
mod tape;

pub fn fatal(m: &str) -> ! {
    eprintln!("ERROR: {}", m);
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let scale: f64 = std::env::var("VX_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let mut r = report::Report::new(&id, seed, thorough, scale);
            if !checks::run(&id, &mut r) {
                fatal(&format!("no such check: {}", id));
            }
            std::process::exit(r.finish());
        }
        Some("setup") => {
            batch::refresh();
            batch::vprobe();
            batch::vnode();
            println!("ready");
        }
        Some("replay") => {
            let f = a.get(2).cloned().unwrap_or_default();
            std::process::exit(checks::replay(&f));
        }
        Some("dump") => {
            let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            checks::dump(a.get(2).map(|s| s.as_str()).unwrap_or("C01"), seed, n);
        }
        _ => fatal("usage: vx check <id> | vx replay <file> | vx dump <id> [n]"),
    }
}
