//! Compiles many schemas at once through the real macro and runs documents on the result.
use crate::proc::{Resp, Worker};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;

/// one schema to compile
#[derive(Clone, Debug, Default)]
pub struct Unit {
    /// relative path -> text; "main.xsd" is the entry
    pub files: Vec<(String, String)>,
    /// source placed before the module (imports etc.)
    pub pre: String,
    /// the annotated module; default `#[xsd::all(schema = "...")] pub mod m {}`
    pub module: Option<String>,
    /// extra source after the module
    pub extra: String,
    /// Rust types to probe (from_xml/to_xml), in call order
    pub probes: Vec<String>,
    /// Rust types with FromStr/Display, callable after the probes
    pub texts: Vec<String>,
    /// free functions (RunFn) defined in `extra`, callable after the texts
    pub fns: Vec<String>,
    /// Rust edition of the crate; 0 = 2021
    pub edition: u32,
}
pub const SCHEMA: &str = "@SCHEMA@";
/// stands for the directory of the unit's files, relative to the crate
pub const SDIR: &str = "@SDIR@";
/// stands for the name of the crate's directory
pub const CDIR: &str = "@CDIR@";

pub struct Built {
    pub bins: Vec<(PathBuf, Vec<usize>)>,
    pub where_: BTreeMap<usize, usize>,
    /// unit -> compiler messages, for units that did not compile
    pub failed: BTreeMap<usize, Vec<String>>,
}

pub fn root() -> PathBuf { PathBuf::from("/verif") }
pub fn work() -> PathBuf { root().join("work") }

pub fn cargo() -> Command {
    let mut c = Command::new("cargo");
    c.env("CARGO_NET_OFFLINE", "true").env("CARGO_TARGET_DIR", work().join("target")).env("CARGO_TERM_COLOR", "never").env("CARGO_INCREMENTAL", "0").env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu").env("RUSTC_WRAPPER", "").env_remove("RUSTFLAGS");
    if std::env::var_os("HOME").is_none() {
        c.env("HOME", "/root");
    }
    c
}

/// cargo only looks at modification times; forget what it knows about the repository's crates
/// whenever their content differs from what was built last.
pub fn refresh() {
    let t = work().join("target");
    std::fs::create_dir_all(&t).ok();
    let out = Command::new("bash").arg("-c").arg("cd /repo && find . \\( -path ./target -o -path ./.git \\) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum").output().unwrap();
    let sum = String::from_utf8_lossy(&out.stdout).into_owned();
    let stamp = t.join(".repo-sum");
    if std::fs::read_to_string(&stamp).unwrap_or_default() != sum {
        let fp = t.join("debug/.fingerprint");
        if let Ok(rd) = std::fs::read_dir(&fp) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if n.starts_with("xsd-") || n.starts_with("xsd_") || n.starts_with("vprobe") || n.starts_with("vnode") || n.starts_with("vbatch") {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        std::fs::write(&stamp, sum).ok();
    }
}

pub fn unit_source(i: usize, u: &Unit, crate_dir: &str) -> String {
    let schema = format!("schemas/s{}/main.xsd", i);
    let module = match &u.module {
        Some(m) => m.replace(SCHEMA, &schema).replace(SDIR, &format!("schemas/s{}", i)).replace(CDIR, crate_dir),
        None => format!("#[xsd::all(schema = \"{}\")]\npub mod m {{}}", schema),
    };
    let mut s = String::from("#![allow(unused, dead_code, non_camel_case_types, non_snake_case, confusable_idents, mixed_script_confusables, uncommon_codepoints, private_interfaces, clippy::all)]\n");
    // the macro reads the schema behind cargo's back: make the source depend on it
    let h = u.files.iter().fold(0u64, |h, f| crate::tape::mix(&[h, crate::tape::hash_str(&f.0), crate::tape::hash_str(&f.1)]));
    if u.edition != 0 {
        s.push_str(&format!("// edition {}\n", u.edition));
    }
    s.push_str(&format!("// schema content {:016x}\n{}\n{}\n{}\n", h, u.pre, module, u.extra));
    for t in &u.probes {
        s.push_str(&format!("crate::probe!({});\n", t));
    }
    s.push_str("pub const ROOTS: &[crate::rt::RunFn] = &[");
    for t in &u.probes {
        s.push_str(&format!("crate::rt::run::<{}>, ", t));
    }
    for t in &u.texts {
        s.push_str(&format!("crate::rt::text::<{}>, ", t));
    }
    for t in &u.fns {
        s.push_str(&format!("{}, ", t));
    }
    s.push_str("];\n");
    s
}

/// `name` distinguishes concurrent users of the work directory.
pub fn build(name: &str, units: &[Unit], nbins: usize) -> Built {
    let dir = work().join(name);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src/bin")).unwrap();
    let w = |p: PathBuf, s: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, s).unwrap_or_else(|e| crate::fatal(&format!("write {}: {}", p.display(), e)));
    };
    let pkg = "vbatch".to_string();
    w(dir.join("Cargo.toml"), &format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\nautobins = true\n[dependencies]\nxsd = {{ path = \"/repo/xsd\" }}\nrust_decimal = {{ version = \"1.6\", default-features = false, features = [\"std\"] }}\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 0\n[workspace]\n", pkg));
    if let Ok(l) = std::fs::read_to_string(root().join("batch.lock")) {
        w(dir.join("Cargo.lock"), &l);
    }
    w(dir.join("src/rt.rs"), include_str!("rt.rs.txt"));
    for (i, u) in units.iter().enumerate() {
        for (p, t) in &u.files {
            w(dir.join(format!("schemas/s{}", i)).join(p), t);
        }
        w(dir.join(format!("src/s{}.rs", i)), &unit_source(i, u, dir.file_name().unwrap().to_str().unwrap()));
    }
    // each executable holds units of one edition
    let mut by_ed: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (i, u) in units.iter().enumerate() {
        by_ed.entry(if u.edition == 0 { 2021 } else { u.edition }).or_default().push(i);
    }
    let mut alive: Vec<Vec<usize>> = vec![];
    let mut editions: Vec<u32> = vec![];
    for (e, us) in &by_ed {
        let n = (nbins * us.len() / units.len().max(1)).clamp(1, us.len());
        let at = alive.len();
        alive.resize(at + n, vec![]);
        editions.resize(at + n, *e);
        for (k, i) in us.iter().enumerate() {
            alive[at + k % n].push(*i);
        }
    }
    if alive.is_empty() {
        (alive, editions) = (vec![vec![]], vec![2021]);
    }
    let nb = alive.len();
    let mut failed: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut dirty: BTreeSet<usize> = (0..nb).collect();
    let tag = crate::tape::hash_str(name) & 0xffff;
    let bin = |b: usize| format!("vb{:04x}_{}", tag, b);
    if editions.iter().any(|e| *e != 2021) {
        let mut t = std::fs::read_to_string(dir.join("Cargo.toml")).unwrap();
        for b in 0..nb {
            t.push_str(&format!("[[bin]]\nname = \"{0}\"\npath = \"src/bin/{0}.rs\"\nedition = \"{1}\"\n", bin(b), editions[b]));
        }
        w(dir.join("Cargo.toml"), &t);
    }
    let mut screened = false;
    for round in 0..12 {
        for &b in &dirty {
            let mut s = String::from("#[macro_use]\n#[path = \"../rt.rs\"]\nmod rt;\n");
            for i in &alive[b] {
                s.push_str(&format!("#[path = \"../s{}.rs\"]\nmod s{};\n", i, i));
            }
            s.push_str(&format!("// {} {}\nfn main() {{ rt::serve(&[", std::process::id(), round));
            for i in &alive[b] {
                s.push_str(&format!("({}, s{}::ROOTS), ", i, i));
            }
            s.push_str("]) }\n");
            w(dir.join(format!("src/bin/{}.rs", bin(b))), &s);
        }
        let out = run_cargo(cargo().current_dir(&dir).args(["build", "--offline", "--keep-going", "--message-format=json", "--bins"]), &dir);
        let mut bad: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        let mut other: Vec<String> = vec![];
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
                continue;
            }
            let msg = v["message"]["message"].as_str().unwrap_or("").to_string();
            let mut files: BTreeSet<usize> = BTreeSet::new();
            collect_files(&v["message"], &mut files);
            if files.is_empty() {
                if !msg.starts_with("aborting due to") && !msg.starts_with("could not compile") {
                    other.push(format!("{}: {}", v["package_id"].as_str().unwrap_or(""), v["message"]["rendered"].as_str().unwrap_or(&msg)));
                }
            }
            // attribute to the file of the primary span
            let prim = primary_file(&v["message"]).or_else(|| files.iter().next().copied());
            if let Some(i) = prim {
                bad.entry(i).or_default().push(msg);
            }
        }
        if out.ok {
            let mut bins = vec![];
            let mut where_ = BTreeMap::new();
            for b in 0..nb {
                // executables are moved aside so that the shared target directory stays small
                let src = work().join("target/debug").join(bin(b));
                let dst = dir.join(format!("bin{}", b));
                std::fs::rename(&src, &dst).unwrap_or_else(|e| crate::fatal(&format!("executable {} missing: {}", src.display(), e)));
                for i in &alive[b] {
                    where_.insert(*i, b);
                }
                bins.push((dst, alive[b].clone()));
            }
            cleanup_target(&bin(0)[..7]);
            return Built { bins, where_, failed };
        }
        if bad.is_empty() && !screened {
            // the compiler hung or died without saying why: find the schemas that do not survive
            screened = true;
            let left: Vec<usize> = alive.iter().flatten().copied().collect();
            bad = screen(&dir, &left);
        }
        if bad.is_empty() {
            let err = String::from_utf8_lossy(&out.stderr).into_owned();
            cleanup_target(&bin(0)[..7]);
            crate::fatal(&format!("batch build failed without attributable errors:\n{}\n{}", other.join("\n"), err));
        }
        dirty.clear();
        for (i, m) in bad {
            failed.entry(i).or_default().extend(m);
            for b in 0..nb {
                if alive[b].contains(&i) {
                    alive[b].retain(|x| *x != i);
                    dirty.insert(b);
                }
            }
        }
    }
    crate::fatal("batch did not converge")
}
struct Out { ok: bool, stdout: Vec<u8>, stderr: Vec<u8> }
const BUILD_LIMIT_S: u64 = 240;
/// runs cargo with a time limit (a macro may loop); output through files
fn run_cargo(c: &mut Command, dir: &Path) -> Out {
    use std::os::unix::process::CommandExt;
    let (po, pe) = (dir.join("cargo.out"), dir.join("cargo.err"));
    let fo = std::fs::File::create(&po).unwrap();
    let fe = std::fs::File::create(&pe).unwrap();
    let mut ch = c.stdout(fo).stderr(fe).stdin(std::process::Stdio::null()).process_group(0).spawn().unwrap_or_else(|e| crate::fatal(&format!("cargo: {}", e)));
    let t0 = std::time::Instant::now();
    let mut ok = false;
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => { ok = st.success(); break }
            Ok(None) if t0.elapsed().as_secs() > BUILD_LIMIT_S => {
                let _ = Command::new("kill").args(["-KILL", "--", &format!("-{}", ch.id())]).status();
                let _ = ch.wait();
                break;
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(50)),
            Err(e) => crate::fatal(&format!("cargo: {}", e)),
        }
    }
    Out { ok, stdout: std::fs::read(&po).unwrap_or_default(), stderr: std::fs::read(&pe).unwrap_or_default() }
}
/// builds the worker around the repository's crates and returns its path
pub fn vprobe() -> PathBuf {
    use std::sync::OnceLock;
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| worker("vprobe")).clone()
}
/// builds the worker around the schema side's document API, which only some checks need
pub fn vnode() -> PathBuf {
    use std::sync::OnceLock;
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| worker("vnode")).clone()
}
fn worker(name: &str) -> PathBuf {
    let w = work();
    std::fs::create_dir_all(&w).ok();
    let o = run_cargo(cargo().current_dir(root().join(name)).args(["build", "--offline", "-q"]), &w);
    if !o.ok {
        crate::fatal(&format!("building {} failed:\n{}", name, String::from_utf8_lossy(&o.stderr)));
    }
    let dst = w.join(format!("{}-bin", name));
    let src = w.join("target/debug").join(name);
    std::fs::copy(&src, &dst).unwrap_or_else(|e| crate::fatal(&format!("{}: {}", src.display(), e)));
    dst
}
fn screen(dir: &Path, units: &[usize]) -> BTreeMap<usize, Vec<String>> {
    let exe = vprobe();
    let mut bad = BTreeMap::new();
    let res: Vec<Vec<(usize, Resp)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8).map(|k| {
            let exe = &exe;
            sc.spawn(move || {
                let mut w = Worker::new(exe);
                let mut hangs = 0;
                units.iter().copied().filter(|u| u % 8 == k).map(|u| {
                    if hangs >= 2 {
                        return (u, Resp::Hang);
                    }
                    let q = serde_json::json!({"op": "schema", "path": dir.join(format!("schemas/s{}/main.xsd", u))}).to_string();
                    let r = w.call(0, 0, q.as_bytes());
                    hangs += (r == Resp::Hang) as usize;
                    (u, r)
                }).collect::<Vec<_>>()
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (u, r) in res.into_iter().flatten() {
        match r {
            Resp::Crash(s) => { bad.insert(u, vec![format!("schema processing crashes ({})", s)]); }
            Resp::Hang => { bad.insert(u, vec!["schema processing does not terminate".to_string()]); }
            _ => {}
        }
    }
    bad
}
fn cleanup_target(prefix: &str) {
    for sub in ["debug/deps", "debug/.fingerprint", "debug", "debug/incremental"] {
        if let Ok(rd) = std::fs::read_dir(work().join("target").join(sub)) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if n.starts_with(prefix) {
                    let _ = std::fs::remove_file(e.path());
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}
fn file_of(s: &serde_json::Value) -> Option<usize> {
    let n = s["file_name"].as_str()?;
    let f = Path::new(n).file_name()?.to_str()?;
    f.strip_prefix('s')?.strip_suffix(".rs")?.parse().ok()
}
fn primary_file(m: &serde_json::Value) -> Option<usize> {
    let spans = m["spans"].as_array()?;
    for s in spans.iter().filter(|s| s["is_primary"] == true).chain(spans.iter()) {
        if let Some(i) = file_of(s) {
            return Some(i);
        }
        let mut e = &s["expansion"]["span"];
        while e.is_object() {
            if let Some(i) = file_of(e) {
                return Some(i);
            }
            e = &e["expansion"]["span"];
        }
    }
    None
}
fn collect_files(m: &serde_json::Value, out: &mut BTreeSet<usize>) {
    if let Some(spans) = m["spans"].as_array() {
        for s in spans {
            if let Some(i) = file_of(s) {
                out.insert(i);
            }
        }
    }
    if let Some(ch) = m["children"].as_array() {
        for c in ch {
            collect_files(c, out);
        }
    }
}

impl Built {
    /// runs requests (unit, fn index, input); answers in the same order
    pub fn run(&self, reqs: &[(usize, usize, Vec<u8>)]) -> Vec<Option<Resp>> {
        let mut out: Vec<Option<Resp>> = vec![None; reqs.len()];
        let results: Vec<Vec<(usize, Resp)>> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for (b, (exe, _)) in self.bins.iter().enumerate() {
                let mine: Vec<usize> = (0..reqs.len()).filter(|k| self.where_.get(&reqs[*k].0) == Some(&b)).collect();
                hs.push(sc.spawn(move || {
                    let mut w = Worker::new(exe);
                    let mut hangs = 0;
                    mine.into_iter().map_while(|k| {
                        if hangs >= 3 {
                            return None;
                        }
                        let r = w.call(reqs[k].0 as u32, reqs[k].1 as u32, &reqs[k].2);
                        if r == Resp::Hang {
                            hangs += 1;
                        }
                        Some((k, r))
                    }).collect::<Vec<_>>()
                }));
            }
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in results {
            for (k, v) in r {
                out[k] = Some(v);
            }
        }
        out
    }
}
