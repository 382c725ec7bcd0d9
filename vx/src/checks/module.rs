//! C21: the annotated module itself; C12 through the macro.
use super::docs::{doc_std, valid};
use super::schema::{clean_path, inject, Injected};
use crate::batch::{Unit, CDIR, SDIR};
use crate::gen::Profile;
use crate::inst::{write_plain, ValCfg};
use crate::lower::src_ident;
use crate::mac::{MCase, Macro, Rejected};
use crate::pipe::{std_schema, DocCase, Schema};
use crate::proc::Resp;
use crate::tape::Gen;

fn profile(g: &mut Gen) -> Profile {
    let d = Profile { defs: (1, 4), ..Default::default() };
    match g.below(3) {
        0 => d,
        1 => Profile { files: (1, 3), subdirs: true, mixed_ns: true, ..d },
        _ => Profile { name_wild: 20, ..d },
    }
}
fn raw(s: &str) -> String {
    // a Rust string literal
    let mut n = 0;
    while s.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    format!("r{}\"{}\"{}", "#".repeat(n), s, "#".repeat(n))
}
/// how the schema argument is written
fn literal(g: &mut Gen, path: &str) -> String {
    match g.below(4) {
        0 | 1 => format!("\"{}\"", path),
        2 => format!("r\"{}\"", path),
        _ => format!("\"{}\"", path.replace('.', "\\u{2e}").replace("/", "\\x2f")),
    }
}
fn attribute(g: &mut Gen, path: &str) -> String {
    let l = literal(g, path);
    match g.below(6) {
        0 | 1 | 2 => format!("#[xsd::all(schema = {})]", l),
        3 => format!("#[::xsd::all(schema = {},)]", l),
        4 => format!("#[cfg_attr(all(), xsd::all(schema={}))]", l),
        _ => format!("#[xsd::all(\n    schema =\n        {}\n)]", l),
    }
}
/// moves the schema files below some directory; returns the path of the entry
fn place(g: &mut Gen, s: &Schema) -> (Vec<(String, String)>, String) {
    let dir = *g.pick(&["", "", "sub/", "a/b c/", "dïr/", "x.y/", ".hidden/", "..data/", "UPPER/src/"]);
    let name = *g.pick(&["main.xsd", "main.xsd", "schema.v1.xsd", "no-extension", "schéma 1.xml", ".xsd", "..main.xsd", "main.xsd.xsd", "-m.XSD", "%20.xsd"]);
    let files: Vec<(String, String)> = s.files.iter().map(|(p, t)| {
        let p = if p == "main.xsd" { name.to_string() } else { p.clone() };
        (format!("{}{}", dir, p), t.clone())
    }).collect();
    let up = format!("../{}/", CDIR);
    let odd = *g.pick(&["", "", "./", ".//", "src/../", "./src/bin/../../", &up]);
    (files, format!("{}{}/{}{}", odd, SDIR, dir, name))
}
fn inner_name(g: &mut Gen) -> String {
    g.pick(&["m", "schema", "r#type", "Schema", "_m", "xsd_all", "r#mod", "ñame", "xml", "std_", "vx"]).to_string()
}

struct Shape {
    /// source of the wrapped module
    text: String,
    /// path of the module as seen from the unit
    path: String,
    /// expressions of type String evaluated from outside, with the expected value
    exprs: Vec<(String, String)>,
    label: &'static str,
}
/// existing items of the module, using generated types
fn items(g: &mut Gen, s: &Schema, path: &str, exprs: &mut Vec<(String, String)>, macro_use: bool) -> (Vec<String>, Vec<String>) {
    let n = g.usize(0, 6);
    let mut out = vec![];
    let mut after = vec![];
    let doc = if s.roots.is_empty() { None } else { valid(s, g, &ValCfg { opt_pct: 50, ..Default::default() }) };
    let mut shadow = false;
    let mut done = std::collections::BTreeSet::new();
    for k in 0..n {
        let v = g.range(1, 99999);
        let mut kind = g.below(16);
        if kind >= 6 && doc.is_none() && kind < 13 {
            kind = g.below(6);
        }
        let (t, d) = match &doc {
            Some((ri, _, x)) => (src_ident(&s.roots[*ri]), raw(&write_plain(x))),
            None => (String::new(), String::new()),
        };
        let mut ex = |e: String, want: String| exprs.push((e, want));
        match kind {
            0 => {
                out.push(format!("/// a constant\n#[allow(dead_code)]\npub const VX_C{}: u32 = {};", k, v));
                ex(format!("{}::VX_C{}.to_string()", path, k), v.to_string());
            }
            1 => {
                out.push(format!("#[inline]\npub fn vx_f{}(x: u64) -> u64 {{\n    let y = x + {};\n    y * 2\n}}", k, v));
                ex(format!("{}::vx_f{}(7).to_string()", path, k), ((7 + v) * 2).to_string());
            }
            2 => {
                out.push(format!("pub static VX_S{}: &[&str] = &[\"a\\u{{e9}}\", {}];", k, raw(&format!("q\"{}", v))));
                ex(format!("{}::VX_S{}.join(\"+\")", path, k), format!("aé+q\"{}", v));
            }
            3 => {
                out.push(format!("#[cfg(any())]\ncompile_error!(\"dropped\");\n#[cfg(all())]\npub mod vx_n{} {{\n    pub(crate) fn get() -> i64 {{ super::vx_p{}() }}\n}}\nfn vx_p{}() -> i64 {{ -{} }}", k, k, k, v));
                ex(format!("{}::vx_n{}::get().to_string()", path, k), format!("-{}", v));
            }
            4 => {
                out.push(format!("#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[repr(u8)]\npub enum VxE{} {{ A = 3, B = 7 }}\nimpl ::std::default::Default for VxE{} {{ fn default() -> Self {{ VxE{}::B }} }}", k, k, k));
                ex(format!("format!(\"{{:?}}{{}}\", {}::VxE{}::default(), {}::VxE{}::A as u8)", path, k, path, k), "B3".into());
            }
            5 => {
                out.push(format!("macro_rules! vx_mac{} {{ ($x:expr) => {{ $x * {} }} }}\npub fn vx_u{}() -> u64 {{ vx_mac{}!(3) }}", k, v, k, k));
                ex(format!("{}::vx_u{}().to_string()", path, k), (3 * v).to_string());
                if macro_use {
                    after.push(format!("pub fn vx_out{}() -> u64 {{ vx_mac{}!(5u64) }}", k, k));
                    ex(format!("vx_out{}().to_string()", k), (5 * v).to_string());
                }
            }
            6 => {
                out.push(format!("#[derive(Debug, Clone, PartialEq)]\npub struct VxS{} {{\n    pub a: {},\n    pub b: ::std::vec::Vec<{}>,\n}}", k, t, t));
                ex(format!("{{ let a = {p}::{t}::from_xml({d}).unwrap(); let s = {p}::VxS{k} {{ a: a.clone(), b: vec![a.clone()] }}; (s.clone() == s && s.b[0] == a).to_string() }}", p = path, t = t, d = d, k = k), "true".into());
            }
            7 => {
                out.push(format!("pub type VxA{} = {};", k, t));
                ex(format!("{p}::VxA{k}::from_xml({d}).is_ok().to_string()", p = path, k = k, d = d), "true".into());
            }
            8 => {
                out.push(format!("impl {} {{\n    pub fn vx_m{}(&self) -> ::std::string::String {{ ::std::format!(\"{}-{{}}\", self.to_xml().unwrap().len() > 0) }}\n}}", t, k, v));
                ex(format!("{p}::{t}::from_xml({d}).unwrap().vx_m{k}()", p = path, t = t, d = d, k = k), format!("{}-true", v));
            }
            9 => {
                out.push(format!("pub trait VxT{} {{ const N{}: u64; fn vx_t{}(&self) -> u64; }}\nimpl VxT{} for {} {{\n    const N{}: u64 = {};\n    fn vx_t{}(&self) -> u64 {{ Self::N{} + 1 }}\n}}", k, k, k, k, t, k, v, k, k));
                ex(format!("{{ use {p}::VxT{k}; {p}::{t}::from_xml({d}).unwrap().vx_t{k}().to_string() }}", p = path, t = t, d = d, k = k), (v + 1).to_string());
            }
            10 => {
                let user = *g.pick(&["use super::*;", "#[allow(unused_imports)] use super::{self as up};"]);
                let name = if user.contains('*') { t.clone() } else { format!("up::{}", t) };
                out.push(format!("pub mod vx_n{} {{\n    {}\n    pub fn dec(s: &str) -> bool {{ {}::from_xml(s).is_ok() }}\n}}", k, user, name));
                ex(format!("{p}::vx_n{k}::dec({d}).to_string()", p = path, k = k, d = d), "true".into());
            }
            11 => {
                out.push(format!("pub enum VxW{} {{ One(::std::boxed::Box<{}>), None_ }}\nimpl ::std::convert::From<{}> for VxW{} {{ fn from(x: {}) -> Self {{ VxW{}::One(::std::boxed::Box::new(x)) }} }}", k, t, t, k, t, k));
                ex(format!("{{ let a = {p}::{t}::from_xml({d}).unwrap(); match {p}::VxW{k}::from(a.clone()) {{ {p}::VxW{k}::One(b) => (*b == a).to_string(), _ => String::new() }} }}", p = path, t = t, d = d, k = k), "true".into());
            }
            12 => {
                out.push(format!("pub struct VxG{}<'a, T: ?Sized + 'a>(pub &'a T);\nimpl<'a> VxG{}<'a, {}> {{ pub fn same(&self, o: &{}) -> bool {{ self.0 == o }} }}", k, k, t, t));
                ex(format!("{{ let a = {p}::{t}::from_xml({d}).unwrap(); {p}::VxG{k}(&a).same(&a.clone()).to_string() }}", p = path, t = t, d = d, k = k), "true".into());
            }
            13 => {
                out.push(format!("use ::std::collections::BTreeMap as VxMap{};\npub fn vx_map{}() -> VxMap{}<u64, &'static str> {{ [({}, \"x\")].into_iter().collect() }}", k, k, k, v));
                ex(format!("{}::vx_map{}().len().to_string()", path, k), "1".into());
            }
            14 => {
                // items named like something of the standard library
                let x = *g.pick(&["pub type Result<T> = ::std::result::Result<T, ()>;", "pub struct Option;", "pub struct Vec;", "pub struct String;", "pub struct Error;", "pub struct Context;", "pub struct Node;", "use ::std::fmt::Result;", "pub struct Box;"]);
                let name = x.split(|c: char| !c.is_alphanumeric()).find(|w| ["Result", "Option", "Vec", "String", "Error", "Context", "Node", "Box"].contains(w)).unwrap();
                if !s.low.types.contains_key(name) && done.insert(name) {
                    shadow = true;
                    out.push(x.to_string());
                }
            }
            _ => {
                out.push(format!("const _: () = ();\nextern crate std as vx_std{};\npub fn vx_z{}() -> usize {{ vx_std{}::mem::size_of::<u64>() }}", k, k, k));
                ex(format!("{}::vx_z{}().to_string()", path, k), "8".into());
            }
        }
    }
    let _ = shadow;
    (out, after)
}
fn shape(g: &mut Gen, s: &Schema, arg: &str) -> Shape {
    let name = inner_name(g);
    let wraps = *g.pick(&[0, 0, 0, 1, 2]);
    let vis = match wraps {
        0 => *g.pick(&["pub ", "", "pub(crate) ", "pub(self) ", "pub(super) "]),
        _ => *g.pick(&["pub ", "pub(crate) ", "pub(super) "]),
    };
    let mut path = String::new();
    for k in 0..wraps {
        path.push_str(&format!("w{}::", k));
    }
    path.push_str(&name);
    let macro_use = wraps == 0 && g.chance(25);
    let mut exprs = vec![];
    let (items, after) = items(g, s, &path, &mut exprs, macro_use);
    let mut before = vec![];
    let mut behind = vec![];
    for _ in 0..g.usize(0, 3) {
        let a = *g.pick(&["/// The schema.", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]", "#[cfg_attr(all(), allow(unused))]", "#[deprecated(note = \"old\")]", "/** block\n docs */", "#[cfg_attr(any(), deny(warnings))]", "#[rustfmt::skip]"]);
        if a.contains("deprecated") && (before.contains(&a) || behind.contains(&a)) {
            continue;
        }
        if g.chance(50) { before.push(a) } else { behind.push(a) }
    }
    if macro_use {
        if g.chance(50) { before.push("#[macro_use]") } else { behind.push("#[macro_use]") }
    }
    let mut inner = vec![];
    if g.chance(20) {
        inner.push(*g.pick(&["//! Inner docs.", "#![allow(dead_code)]", "#![cfg_attr(all(), allow(unused_variables))]", "/*! more */"]));
    }
    let at = attribute(g, arg);
    let sep = *g.pick(&["\n", "\n", "\n\n", " "]);
    let module = format!("{}\n{}\n{}\n{}mod {} {{\n{}\n{}\n}}", before.join("\n"), at, behind.join("\n"), vis, name, inner.join("\n"), items.join(sep));
    let mut text = module;
    for k in (0..wraps).rev() {
        // visible to the parent only matters for the innermost module
        let v = if vis == "pub(super) " && k + 1 == wraps && wraps > 1 { "pub " } else { *g.pick(&["pub ", "pub(crate) "]) };
        let text2 = format!("{}mod w{} {{\n{}\n}}", v, k, text);
        text = text2;
    }
    // pub(super) in two wrappers is not visible from the unit: open it up
    if wraps == 2 && vis == "pub(super) " {
        text = text.replacen("pub(super) mod", "pub mod", 1);
    }
    text.push('\n');
    text.push_str(&after.join("\n"));
    let label = if items.is_empty() { "empty module" } else { "module with items" };
    Shape { text, path, exprs, label }
}
fn needles(ns: Vec<Vec<&'static str>>) -> Rejected {
    Box::new(move |m| {
        let all = m.join("\n").to_lowercase();
        if all.contains("panicked") {
            return Err("the macro panics".into());
        }
        for alt in &ns {
            if !alt.iter().any(|n| all.contains(&n.to_lowercase())) {
                return Err(format!("no message mentions {}", alt.join(" or ")));
            }
        }
        Ok(())
    })
}
fn gen_c21(g: &mut Gen) -> Option<MCase> {
    let p = profile(g);
    let s = std_schema(g, &p);
    let (files, arg) = place(g, &s);
    if g.chance(62) {
        return valid_module(g, s, files, arg);
    }
    let at = format!("#[xsd::all(schema = \"{}\")]", arg);
    let r = |label: &str, module: String, ns: Vec<Vec<&'static str>>| Some(MCase { unit: Unit { files: files.clone(), module: Some(module), ..Default::default() }, rejected: Some(needles(ns)), docs: vec![], label: format!("rejected: {}", label) });
    let body = if g.chance(40) { "pub const VX: u32 = 1;" } else { "" };
    let vis = *g.pick(&["pub ", "", "pub(crate) "]);
    match g.below(13) {
        0 => {
            let a = *g.pick(&["#[xsd::all]", "#[xsd::all()]", "#[::xsd::all ( )]"]);
            r("no schema argument", format!("{}\n{}mod m {{ {} }}", a, vis, body), vec![vec!["schema"]])
        }
        1 => {
            let a = g.pick(&["schema", "schema = 5", "schema(\"x\")", "schema = main", "schema: \"x\"", "schema = b\"x\"", "schema = 'x'", "schema = "]).to_string();
            r("malformed schema argument", format!("#[xsd::all({})]\n{}mod m {{ {} }}", a, vis, body), vec![vec!["expected"]])
        }
        2 => {
            let u = *g.pick(&["shema", "Schema", "path", "schemas", "file", "r#type", "element", "schema2"]);
            let (sep, val) = (*g.pick(&[", ", ","]), *g.pick(&[" = \"x\"", "", "(a)"]));
            let a = match g.below(3) {
                0 => format!("{} = \"{}\"", u, arg),
                1 => format!("schema = \"{}\"{}{}{}", arg, sep, u, val),
                _ => format!("{}{}{}schema = \"{}\"", u, val, sep, arg),
            };
            r("unknown argument", format!("#[xsd::all({})]\n{}mod m {{ {} }}", a, vis, body), vec![vec!["unsupported", "unknown", "unexpected"]])
        }
        3 => {
            let a = match g.below(2) { 0 => format!("\"{}\"", arg), _ => format!("schema = \"{}\" other", arg) };
            r("malformed arguments", format!("#[xsd::all({})]\n{}mod m {{ {} }}", a, vis, body), vec![vec!["expected"]])
        }
        4 => {
            let a = match g.below(4) {
                0 => format!("{}/vx-gone.xsd", SDIR),
                1 => format!("{}/nowhere/vx-gone.xsd", SDIR),
                2 => "vx-gone.xsd".into(),
                _ => format!("{}/vx-gone.xsd/x", arg),
            };
            r("missing schema file", format!("#[xsd::all(schema = \"{}\")]\n{}mod m {{ {} }}", a, vis, body), vec![vec!["vx-gone.xsd"]])
        }
        5 => r("a directory as schema file", format!("#[xsd::all(schema = \"{}\")]\n{}mod m {{ {} }}", SDIR, vis, body), vec![vec!["schemas/s"]]),
        6 | 7 => {
            let i = *g.pick(&["pub struct M;", "pub struct M { pub a: u8 }", "pub enum M { A }", "pub fn m() {}", "pub const M: u8 = 1;", "pub trait M {}", "pub type M = u8;", "use ::std::vec::Vec as M;", "pub static M: u8 = 1;", "macro_rules! m { () => {} }", "impl crate::rt::Nothing for u8 {}"]);
            r("not a module", format!("{}\n{}", at, i), vec![vec!["mod"]])
        }
        8 => {
            // the module keeps its visibility
            let (v, reexport) = match g.below(5) {
                0 => ("", false), 1 => ("pub(self) ", false), 2 => ("pub(crate) ", true), 3 => ("pub(super) ", true), _ => ("", true),
            };
            let name = inner_name(g);
            let tail = if reexport { format!("pub use w::{} as vx_again;", name) } else { format!("pub fn vx_use() -> u32 {{ w::{}::VX }}", name) };
            r("module keeps its visibility", format!("pub mod w {{\n{}\n{}mod {} {{ pub const VX: u32 = 1; }}\n}}\n{}", at, v, name, tail), vec![vec!["private", "only public within"]])
        }
        9 => {
            let i = *g.pick(&["fn vx_hidden() {}", "const vx_hidden: u8 = 1;", "pub(self) static vx_hidden: u8 = 1;", "struct vx_hidden;", "mod vx_hidden {}"]);
            r("items keep their visibility", format!("{}\n{}mod m {{ {} }}\nuse m::vx_hidden;", at, vis, i), vec![vec!["private"]])
        }
        10 => {
            // lint levels of the module apply to its items
            let (lint, item, needle): (&str, &str, Vec<&'static str>) = match g.below(3) {
                0 => ("deny(unused_variables)", "pub fn f() { let vx = 1; }", vec!["unused variable"]),
                1 => ("forbid(unsafe_code)", "pub fn f(x: *const u8) -> u8 { unsafe { *x } }", vec!["unsafe"]),
                _ => ("deny(unused_mut)", "pub fn f() -> u8 { let mut vx = 1; vx }", vec!["does not need to be mutable"]),
            };
            let (a, b, c) = match g.below(3) { 0 => (format!("#[{}]", lint), String::new(), String::new()), 1 => (String::new(), format!("#[{}]", lint), String::new()), _ => (String::new(), String::new(), format!("#![{}]", lint)) };
            r("module keeps its attributes (lint)", format!("{}\n{}\n{}\n{}mod m {{\n{}\n{}\n}}", a, at, b, vis, c, item), vec![needle])
        }
        11 => {
            let (a, b) = if g.chance(50) { ("#[deprecated(note = \"vxnote\")]", "") } else { ("", "#[deprecated(note = \"vxnote\")]") };
            r("module keeps its attributes (deprecated)", format!("{}\n{}\n{}\n{}mod m {{ pub fn f() {{}} }}\n#[deny(deprecated)]\npub fn vx_use() {{ m::f() }}", a, at, b, vis), vec![vec!["vxnote"]])
        }
        _ => {
            // the module is compiled out
            let (a, b) = if g.chance(50) { ("#[cfg(any())]", "") } else { ("", "#[cfg(any())]") };
            r("module keeps its attributes (cfg)", format!("{}\n{}\n{}\n{}mod m {{ pub fn f() {{}} }}\npub fn vx_use() {{ m::f() }}", a, at, b, vis), vec![vec!["m"]])
        }
    }
}
fn valid_module(g: &mut Gen, s: Schema, files: Vec<(String, String)>, arg: String) -> Option<MCase> {
    let sh = shape(g, &s, &arg);
    let mut extra = String::from("#[allow(deprecated)]\npub fn vx_items(_: &[u8], out: &mut Vec<Vec<u8>>) {\n");
    for (e, _) in &sh.exprs {
        extra.push_str(&format!("    out.push({{ let s: String = {}; s.into_bytes() }});\n", e));
    }
    extra.push_str("}\n");
    let probes: Vec<String> = s.roots.iter().map(|r| format!("{}::{}", sh.path, src_ident(r))).collect();
    let want: Vec<String> = sh.exprs.iter().map(|x| x.1.clone()).collect();
    let np = probes.len();
    let mut docs = vec![DocCase {
        reqs: vec![(np, vec![])], nontrivial: true, label: String::new(),
        judge: Box::new(move |r| match &r[0] {
            Resp::Fields(f) => {
                let got: Vec<String> = f.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
                if got == want { Ok(()) } else { Err(format!("the module's own items answer {:?} instead of {:?}", got, want)) }
            }
            r => Err(format!("the module's own items: {:?}", r)),
        }),
    }];
    if !s.roots.is_empty() {
        for _ in 0..3 {
            docs.extend(doc_std(&s, g));
        }
    }
    Some(MCase { unit: Unit { files, module: Some(sh.text), extra, probes, fns: vec!["vx_items".into()], ..Default::default() }, rejected: None, docs, label: sh.label.to_string() })
}

fn gen_c12(g: &mut Gen) -> Option<MCase> {
    let i = inject(g)?;
    let files = i.files.clone();
    let label = format!("through the macro: {}", i.label);
    Some(MCase { unit: Unit { files, ..Default::default() }, rejected: Some(Box::new(move |m| located(&i, m))), docs: vec![], label })
}
fn located(i: &Injected, m: &[String]) -> Result<(), String> {
    let ok = m.iter().any(|m| {
        let file = i.open.clone().unwrap_or_else(|| clean_path(&i.file));
        if i.open.is_some() {
            return m.contains(&file);
        }
        i.needles.iter().all(|n| m.contains(n.as_str())) && clean_text(m).contains(&file) && i.at.iter().any(|(a, b)| (a.0..=b.0).any(|r| has_number(m, r)))
    });
    if ok { Ok(()) } else { Err(format!("no message names {} and the place {} row {:?}", i.needles.join(", "), i.file, i.at)) }
}
fn has_number(m: &str, n: u64) -> bool {
    let n = n.to_string();
    m.split(|c: char| !c.is_ascii_digit()).any(|w| w == n)
}
fn clean_text(m: &str) -> String {
    m.split_whitespace().map(|w| clean_path(w)).collect::<Vec<_>>().join(" ")
}

pub fn mac(id: &str) -> Option<Macro> {
    Some(match id {
        "C21" => Macro { id: "C21", rounds: (1, 8), units: 400, rule: "an annotated module with generated name, visibility, attributes and existing items that use the generated types, or one that has to be rejected; every distinct case counts", gen: gen_c21 },
        "C12" => Macro { id: "C12", rounds: (1, 6), units: 48, rule: "the same injected schemas through the attribute macro", gen: gen_c12 },
        _ => return None,
    })
}
