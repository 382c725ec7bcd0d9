//! Checks of schema processing itself: C06 (item list), C11, C12, C14 (item comparison), C15, C19.
use super::docs::mutate_text;
use crate::direct::{alive, DCase, Direct, DIR};
use crate::gen::{gen_set, Profile};
use crate::lower::*;
use crate::model::*;
use crate::tape::Gen;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn main_req(extra: Value) -> Value {
    let mut q = json!({"op": "schema", "path": format!("{}/main.xsd", DIR)});
    if let Some(o) = extra.as_object() {
        for (k, v) in o {
            q[k] = v.clone();
        }
    }
    q
}
pub fn base_profile(g: &mut Gen) -> Profile {
    let d = Profile::default();
    match g.below(3) {
        0 => d,
        1 => Profile { files: (1, 3), mixed_ns: true, subdirs: true, ..d },
        _ => Profile { depth: 4, items: (1, 5), defs: (3, 6), ..d },
    }
}
pub fn items(v: &Value) -> Result<&Vec<Value>, String> {
    alive(v)?;
    if let Some(e) = v.get("err") {
        return Err(format!("a supported schema was refused: {} {}", e, v["text"]));
    }
    if let Some(e) = v.get("invalid") {
        return Err(format!("the generated code is not a list of Rust items: {}", e));
    }
    v["items"].as_array().ok_or_else(|| format!("no answer: {}", v))
}
fn decls(v: &[Value]) -> impl Iterator<Item = &Value> {
    v.iter().filter(|i| i["kind"] == "struct" || i["kind"] == "enum")
}
fn names<'a>(v: impl Iterator<Item = &'a Value>) -> Vec<String> {
    v.map(|i| strip(i["name"].as_str().unwrap_or(""))).collect()
}
fn strip(s: &str) -> String { s.strip_prefix("r#").unwrap_or(s).to_string() }

// ------------------------------------------------------------------ C06: the list of types

fn gen_c06(g: &mut Gen) -> Option<DCase> {
    let mut p = base_profile(g);
    p.name_wild = if g.chance(40) { 40 } else { 0 };
    p.enum_wild = 20;
    let (set, low) = gen_set(g, &p);
    let files = print_set(&set, g);
    let exp: BTreeMap<String, &'static str> = low.types.values().map(|t| (t.rust.clone(), if matches!(t.kind, LKind::Enum(_) | LKind::Choice(_)) { "enum" } else { "struct" })).collect();
    let n = exp.len();
    Some(DCase {
        files, reqs: vec![main_req(json!({}))], nontrivial: n > 1, label: format!("item list, {} types", if n < 4 { "1-3" } else if n < 10 { "4-9" } else { "10+" }),
        judge: Box::new(move |a| {
            let it = items(&a[0])?;
            let mut seen = BTreeMap::new();
            for i in decls(it) {
                let n = strip(i["name"].as_str().unwrap());
                if i["vis"] != "pub" {
                    return Err(format!("type {} is not public", n));
                }
                for f in i["fields"]["list"].as_array().into_iter().flatten() {
                    if f["vis"] != "pub" {
                        return Err(format!("field {} of {} is not public", f["name"], n));
                    }
                }
                if seen.insert(n.clone(), i["kind"].as_str().unwrap().to_string()).is_some() {
                    return Err(format!("type {} is declared twice", n));
                }
            }
            for (n, k) in &exp {
                match seen.remove(n) {
                    None => return Err(format!("no type {} is generated", n)),
                    Some(x) if x != *k => return Err(format!("type {} is a {} instead of a {}", n, x, k)),
                    _ => {}
                }
            }
            if let Some(n) = seen.keys().next() {
                return Err(format!("type {} corresponds to nothing in the schema", n));
            }
            Ok(())
        }),
    })
}

// ------------------------------------------------------------------ C14: same items however it is spelled

fn canon_items(v: &Value) -> Result<Vec<Value>, String> {
    let mut out: Vec<Value> = items(v)?.iter().map(|i| {
        let mut i = i.clone();
        if let Some(vs) = i.get_mut("variants").and_then(|v| v.as_array_mut()) {
            // the order of variants is no guarantee of the generator
            vs.sort_by_key(|v| v.to_string());
        }
        i
    }).collect();
    out.sort_by_key(|v| v.to_string());
    Ok(out)
}
fn same_items(a: &Value, b: &Value, what: &str) -> Result<(), String> {
    let (x, y) = (canon_items(a)?, canon_items(b)?);
    for (i, j) in x.iter().zip(&y) {
        if i != j {
            return Err(format!("{}: {} against {}", what, i, j));
        }
    }
    if x.len() != y.len() {
        return Err(format!("{}: {} items against {}", what, x.len(), y.len()));
    }
    Ok(())
}
fn respell(set: &mut SchemaSet, g: &mut Gen) {
    for f in &mut set.files {
        f.sp.noise = 100;
        f.sp.xs = g.pick(&["xs", "xsd", "s", "schema", "x"]).to_string();
        f.sp.tns_prefix = Some(g.pick(&["tns", "t", "ns1", "my-ns", "ns2", "ns0"]).to_string());
        if f.tns.is_some() {
            match g.below(3) {
                1 => f.sp.tns_prefix = None,
                2 => f.sp.xs = String::new(),
                _ => {}
            }
        }
        g.shuffle(&mut f.defs);
        g.shuffle(&mut f.links);
    }
}
fn gen_c14(g: &mut Gen) -> Option<DCase> {
    let mut p = base_profile(g);
    p.docs_pct = 20;
    p.docs_wild = true;
    let (set, _) = gen_set(g, &p);
    let mut files: Vec<(String, String)> = print_set(&set, g).into_iter().map(|(n, t)| (format!("a/{}", n), t)).collect();
    let mut other = set.clone();
    respell(&mut other, g);
    files.extend(print_set(&other, g).into_iter().map(|(n, t)| (format!("b/{}", n), t)));
    let q = |d: &str| json!({"op": "schema", "path": format!("{}/{}/main.xsd", DIR, d)});
    Some(DCase {
        files, reqs: vec![q("a"), q("b"), q("a")], nontrivial: true, label: "two spellings".into(),
        judge: Box::new(|a| {
            same_items(&a[0], &a[2], "the same files give different items")?;
            same_items(&a[0], &a[1], "another spelling gives different items")
        }),
    })
}

// ------------------------------------------------------------------ C15: single definitions

fn no_prohibited(set: &mut SchemaSet) {
    fn et(t: &mut EType) { if let EType::Complex(c) = t { cx(c) } }
    fn it(i: &mut Item) { match i { Item::Elem(e) => et(&mut e.ty), Item::Choice(_, v) | Item::Seq(_, _, v) => v.iter_mut().for_each(it), _ => {} } }
    fn cx(c: &mut Complex) {
        c.attrs.retain(|a| a.use_ != Use::Prohibited);
        match &mut c.content {
            Content::Seq(_, v) | Content::All(_, v) | Content::Choice(v) => v.iter_mut().for_each(it),
            Content::Ext { seq: Some((_, v)), .. } => v.iter_mut().for_each(it),
            _ => {}
        }
    }
    for d in set.files.iter_mut().flat_map(|f| f.defs.iter_mut()) {
        match &mut d.kind { DefKind::Element(t) => et(t), DefKind::Complex(c) => cx(c), _ => {} }
    }
}
fn gen_c15(g: &mut Gen) -> Option<DCase> {
    let mut p = base_profile(g);
    p.defs = (3, 9);
    p.w_item = [8, 5, 2, 2];
    p.w_etype = [4, 9, 3, 2, 0];
    p.w_attr = [2, 5, 3];
    p.recursion_pct = 25;
    let (mut set, _) = gen_set(g, &p);
    // whether a prohibited attribute makes its type a dependency is left open
    no_prohibited(&mut set);
    let low = lower(&set).ok()?;
    let files = print_set(&set, g);
    let globals: Vec<&LType> = low.types.values().filter(|t| t.global.is_some()).collect();
    let mut seqs: Vec<Vec<(String, String)>> = vec![];
    for _ in 0..g.usize(1, 4) {
        let n = g.usize(1, 6);
        seqs.push((0..n).map(|_| { let t = *g.pick(&globals); (t.xml.name.clone(), t.rust.clone()) }).collect());
    }
    // every definition in turn
    let mut all: Vec<(String, String)> = globals.iter().map(|t| (t.xml.name.clone(), t.rust.clone())).collect();
    g.shuffle(&mut all);
    seqs.push(all);
    let elements: Vec<Vec<(String, Option<u64>)>> = seqs.iter().map(|s| s.iter().map(|x| (x.0.clone(), None)).collect()).collect();
    let reach: BTreeMap<String, BTreeSet<String>> = globals.iter().map(|t| (t.rust.clone(), low.reach(&t.rust))).collect();
    let multi = reach.values().any(|r| r.len() > 1 && r.len() < low.types.len());
    Some(DCase {
        files, reqs: vec![main_req(json!({ "elements": elements })), main_req(json!({}))], nontrivial: multi, label: format!("{} requests", seqs.iter().map(|s| s.len()).sum::<usize>() / 5 * 5),
        judge: Box::new(move |a| {
            alive(&a[0])?;
            let Some(ans) = a[0]["answers"].as_array() else { return Err(format!("a supported schema was refused: {}", a[0])) };
            let everything = items(&a[1])?;
            let mut by_name: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for i in everything {
                let mut i = i.clone();
                if let Some(vs) = i.get_mut("variants").and_then(|v| v.as_array_mut()) {
                    vs.sort_by_key(|v| v.to_string());
                }
                by_name.entry(strip(i["name"].as_str().unwrap_or(""))).or_default().push(i.to_string());
            }
            for v in by_name.values_mut() {
                v.sort();
            }
            for (s, an) in seqs.iter().zip(ans) {
                let mut done: BTreeSet<String> = BTreeSet::new();
                for ((raw, rust), v) in s.iter().zip(an.as_array().unwrap()) {
                    if v.get("missing").is_some() {
                        return Err(format!("definition `{}` is not among the elements", raw));
                    }
                    let it = items(v)?;
                    let got = names(decls(it));
                    let mut set = BTreeSet::new();
                    for n in &got {
                        if !set.insert(n.clone()) {
                            return Err(format!("request for `{}` emits {} twice", raw, n));
                        }
                        if done.contains(n) {
                            return Err(format!("request for `{}` emits {} again", raw, n));
                        }
                    }
                    let exp: BTreeSet<String> = reach[rust].difference(&done).cloned().collect();
                    if let Some(m) = exp.difference(&set).next() {
                        return Err(format!("request for `{}` does not emit {}, which it depends on", raw, m));
                    }
                    if let Some(m) = set.difference(&exp).next() {
                        return Err(format!("request for `{}` emits {}, which it does not depend on", raw, m));
                    }
                    // and what is emitted is what generating everything emits for that name
                    for n in &set {
                        let mut own: Vec<String> = it.iter().filter(|i| strip(i["name"].as_str().unwrap_or("")) == *n).map(|i| {
                            let mut i = i.clone();
                            if let Some(vs) = i.get_mut("variants").and_then(|v| v.as_array_mut()) {
                                vs.sort_by_key(|v| v.to_string());
                            }
                            i.to_string()
                        }).collect();
                        own.sort();
                        if by_name.get(n) != Some(&own) {
                            return Err(format!("request for `{}` emits {} differently than generating everything", raw, n));
                        }
                    }
                    done.extend(set);
                }
            }
            Ok(())
        }),
    })
}

// ------------------------------------------------------------------ C19: documentation

fn strip_docs(set: &mut SchemaSet) {
    fn s(x: &mut Simple) { x.docs = Docs::default() }
    fn et(t: &mut EType) { match t { EType::Complex(c) => cx(c), EType::Simple(x) => s(x), _ => {} } }
    fn it(i: &mut Item) {
        match i {
            Item::Elem(e) => { e.docs = Docs::default(); et(&mut e.ty) }
            Item::Ref(..) => {}
            Item::Choice(_, v) => v.iter_mut().for_each(it),
            Item::Seq(_, d, v) => { *d = Docs::default(); v.iter_mut().for_each(it) }
        }
    }
    fn cx(c: &mut Complex) {
        c.docs = Docs::default();
        match &mut c.content {
            Content::Seq(_, v) | Content::All(_, v) | Content::Choice(v) => v.iter_mut().for_each(it),
            Content::Ext { seq: Some((_, v)), .. } => v.iter_mut().for_each(it),
            _ => {}
        }
        for a in &mut c.attrs {
            a.docs = Docs::default();
            if let AttrTy::Simple(x) = &mut a.ty {
                s(x);
            }
        }
    }
    for f in &mut set.files {
        for d in &mut f.defs {
            d.docs = Docs::default();
            match &mut d.kind { DefKind::Element(t) => et(t), DefKind::Complex(c) => cx(c), DefKind::Simple(x) => s(x) }
        }
    }
}
fn undoc(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| *k != "docs").map(|(k, v)| (k.clone(), undoc(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(undoc).collect()),
        v => v.clone(),
    }
}
fn doc_text(v: &Value) -> String {
    // documentation of places that become no item of their own may be anywhere or nowhere
    let l: Vec<&str> = v.as_array().into_iter().flatten().filter_map(|x| x.as_str()).filter(|x| !x.trim().starts_with(STRAY)).collect();
    l.join("\n").trim().to_string()
}
/// an item without documentation has no doc attribute either, not even an empty one
fn empty_doc(v: &Value) -> bool {
    doc_text(v).is_empty() && v.as_array().into_iter().flatten().filter_map(|x| x.as_str()).any(|x| !x.trim().starts_with(STRAY))
}
fn gen_c19(g: &mut Gen) -> Option<DCase> {
    let mut p = base_profile(g);
    p.docs_pct = 65;
    p.docs_wild = true;
    p.w_item = [8, 2, 2, 4];
    let (set, low) = gen_set(g, &p);
    let mut bare = set.clone();
    strip_docs(&mut bare);
    let mut files: Vec<(String, String)> = print_set(&set, g).into_iter().map(|(n, t)| (format!("a/{}", n), t)).collect();
    files.extend(print_set(&bare, g).into_iter().map(|(n, t)| (format!("b/{}", n), t)));
    let q = |d: &str| json!({"op": "schema", "path": format!("{}/{}/main.xsd", DIR, d)});
    let documented = low.types.values().filter(|t| t.docs.is_some()).count();
    Some(DCase {
        files, reqs: vec![q("a"), q("b")], nontrivial: documented > 0, label: "documented schema".into(),
        judge: Box::new(move |a| {
            let it = items(&a[0])?;
            for i in it {
                let n = strip(i["name"].as_str().unwrap_or(""));
                if i["kind"] != "struct" && i["kind"] != "enum" {
                    continue;
                }
                let Some(t) = low.types.get(&n) else { return Err(format!("type {} corresponds to nothing in the schema", n)) };
                let norm = |d: &Option<String>| d.clone().unwrap_or_default();
                let exp = norm(&t.docs);
                if !matches!(t.kind, LKind::Enum(_)) && doc_text(&i["docs"]) != exp {
                    return Err(format!("type {} is documented as {:?} instead of {:?}", n, doc_text(&i["docs"]), exp));
                }
                if empty_doc(&i["docs"]) {
                    return Err(format!("type {} got an empty doc comment", n));
                }
                if let LKind::Struct(fs) = &t.kind {
                    for (f, v) in fs.iter().zip(i["fields"]["list"].as_array().into_iter().flatten()) {
                        let exp = norm(&f.docs);
                        if empty_doc(&v["docs"]) {
                            return Err(format!("field {}.{} got an empty doc comment", n, f.rust));
                        }
                        if doc_text(&v["docs"]) != exp {
                            return Err(format!("field {}.{} is documented as {:?} instead of {:?}", n, f.rust, doc_text(&v["docs"]), exp));
                        }
                    }
                }
                if let LKind::Choice(fs) = &t.kind {
                    // documentation of alternatives may be missing, but is never that of another item
                    for (f, v) in fs.iter().zip(i["variants"].as_array().into_iter().flatten()) {
                        let got = doc_text(&v["docs"]);
                        if !got.is_empty() && got != norm(&f.docs) {
                            return Err(format!("variant {}::{} is documented as {:?} instead of {:?}", n, f.rust, got, norm(&f.docs)));
                        }
                    }
                }
                if let LKind::Newtype(_) = &t.kind {
                    for v in i["fields"]["list"].as_array().into_iter().flatten() {
                        if !doc_text(&v["docs"]).is_empty() {
                            return Err(format!("the inner field of {} is documented as {:?}", n, doc_text(&v["docs"])));
                        }
                    }
                }
            }
            same_items(&undoc(&a[0]), &undoc(&a[1]), "documentation changes the generated items")
        }),
    })
}

// ------------------------------------------------------------------ text edits on schemas

#[derive(Clone, Debug)]
pub struct Att { name: String, range: (usize, usize), ns: bool }
#[derive(Clone, Debug)]
pub struct Nd { pub tag: String, pub qname: String, pub start: usize, pub end: usize, pub tag_end: usize, empty: bool, parent: Option<usize>, kids: Vec<usize>, atts: Vec<Att>, has_ref: bool }
impl Nd {
    fn att(&self, n: &str) -> Option<&Att> { self.atts.iter().find(|a| a.name == n && !a.ns) }
}
pub fn nodes(text: &str) -> Option<Vec<Nd>> {
    let doc = roxmltree::Document::parse(text).ok()?;
    let mut out: Vec<Nd> = vec![];
    let mut ids = std::collections::HashMap::new();
    for n in doc.descendants().filter(|n| n.is_element()) {
        let r = n.range();
        let s = &text[r.clone()];
        let mut q: Option<char> = None;
        let mut te = r.start;
        for (i, c) in s.char_indices() {
            match (q, c) {
                (Some(x), c) if x == c => q = None,
                (None, '"' | '\'') => q = Some(c),
                (None, '>') => { te = r.start + i + 1; break }
                _ => {}
            }
        }
        let qname: String = s[1..].chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
        let parent = n.parent_element().map(|p| ids[&p.id()]);
        let id = out.len();
        ids.insert(n.id(), id);
        if let Some(p) = parent {
            let x: &mut Nd = &mut out[p];
            x.kids.push(id);
        }
        let atts: Vec<Att> = n.attributes().map(|a| Att { name: a.name().to_string(), range: (a.range().start, a.range().end), ns: a.namespace().is_some() }).collect();
        let has_ref = n.attribute("ref").is_some();
        out.push(Nd { tag: n.tag_name().name().to_string(), qname, start: r.start, end: r.end, tag_end: te, empty: text[..te].ends_with("/>"), parent, kids: vec![], atts, has_ref });
    }
    Some(out)
}
fn splice(t: &str, a: usize, b: usize, new: &str) -> String { format!("{}{}{}", &t[..a], new, &t[b..]) }
fn add_attr(t: &str, n: &Nd, k: &str, v: &str) -> String {
    let at = n.start + 1 + n.qname.len();
    splice(t, at, at, &format!(" {}=\"{}\"", k, esc_attr(v)))
}
/// inserts a child; returns the new text and where the child starts
fn add_child(t: &str, nds: &[Nd], i: usize, xml: &str, at: usize) -> (String, usize) {
    let n = &nds[i];
    if n.empty {
        let cut = n.tag_end - 2;
        return (splice(t, cut, n.tag_end, &format!(">{}</{}>", xml, n.qname)), cut + 1);
    }
    let pos = if at < n.kids.len() { nds[n.kids[at]].start } else if let Some(k) = n.kids.last() { nds[*k].end } else { n.tag_end };
    (splice(t, pos, pos, xml), pos)
}
fn pos_at(t: &str, at: usize) -> (u64, u64) {
    let before = &t[..at];
    let row = before.matches('\n').count() as u64 + 1;
    let col = before.rsplit('\n').next().unwrap_or("").chars().count() as u64 + 1;
    (row, col)
}
pub fn clean_path(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') {
        match s { "" | "." => {} ".." => { v.pop(); } s => v.push(s) }
    }
    v.join("/")
}

// ------------------------------------------------------------------ C11: arbitrary schema text

const ODD: &[&str] = &[
    "", " ", "a b", "1", "1a", "-", ".", "_", "a:b:c", ":", ":x", "xs:", "xs:string", "xs:nonsense", "tns:x", "self", "Self", "super", "crate", "unbounded", "0", "-1", "2", "4294967295", "4294967296",
    "99999999999999999999", "true", "false", "qualified", "required", "prohibited", "type", "\u{e9}", "\u{540d}", "\u{1F600}", "#", "a<b", "\"", "{", "}", "(", "//", "/*", "r#x", "'a", "\\", "::", "a\u{a0}b", "\n", "?", "!", "$x", "x=y",
    "+1", "1e5", "NaN", "main.xsd", "./main.xsd", "part1.xsd", ".", "..", "/", "missing.xsd", "", "sub", "a\u{0308}",
];
const TAGS: &[&str] = &["schema", "element", "complexType", "simpleType", "sequence", "choice", "all", "attribute", "extension", "restriction", "simpleContent", "complexContent", "annotation", "documentation", "enumeration", "include", "import", "any", "group", "union", "list", "pattern", "minLength", "foo"];
const ATTS: &[&str] = &["name", "type", "ref", "base", "minOccurs", "maxOccurs", "use", "fixed", "default", "form", "value", "mixed", "schemaLocation", "targetNamespace", "elementFormDefault", "attributeFormDefault", "xmlns", "xmlns:xs", "id"];

fn odd(g: &mut Gen, set: &SchemaSet) -> String {
    if g.chance(45) {
        // names that exist somewhere, in any spelling
        let f = g.pick(&set.files).clone();
        if !f.defs.is_empty() {
            let d = g.pick(&f.defs).name.clone();
            let p = f.sp.tns_prefix.clone().unwrap_or_default();
            return match g.below(4) { 0 => d, 1 => format!("{}:{}", p, d), 2 => format!("{}:{}", f.sp.xs, d), _ => d.to_uppercase() };
        }
    }
    g.pick(ODD).to_string()
}
fn tree_edit(t: &str, g: &mut Gen, set: &SchemaSet) -> Option<String> {
    let nds = nodes(t)?;
    let i = g.usize(0, nds.len() - 1);
    let n = &nds[i];
    Some(match g.below(12) {
        11 => {
            // numbers at the limits, as occurrences and facets
            let v = g.pick(&["0", "1", "2", "255", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999", "79228162514264337593543950335", "79228162514264337593543950336", "-1", "-79228162514264337593543950335", "0.0000000000000000000000000001", "1e9", "007", "+5"]).to_string();
            let nums: Vec<Att> = nds.iter().flat_map(|n| n.atts.iter()).filter(|a| matches!(a.name.as_str(), "minOccurs" | "maxOccurs") && !a.ns).cloned().collect();
            let res: Vec<usize> = (0..nds.len()).filter(|i| nds[*i].tag == "restriction").collect();
            if !nums.is_empty() && g.chance(40) {
                let a = g.pick(&nums).clone();
                splice(t, a.range.0, a.range.1, &format!("{}=\"{}\"", a.name, v))
            } else if !res.is_empty() {
                let j = *g.pick(&res);
                let p = nds[j].qname.split_once(':').map(|x| format!("{}:", x.0)).unwrap_or_default();
                let f = g.pick(&["length", "minLength", "maxLength", "totalDigits", "fractionDigits", "minInclusive", "maxInclusive", "enumeration", "pattern"]);
                let at = g.usize(0, nds[j].kids.len());
                add_child(t, &nds, j, &format!("<{p}{f} value=\"{v}\"/>"), at).0
            } else {
                return None;
            }
        }
        0 if i > 0 => splice(t, n.start, n.end, ""),
        1 if i > 0 => { let s = t[n.start..n.end].to_string(); splice(t, n.end, n.end, &s) }
        2 | 3 => {
            // copy a node somewhere else
            let j = g.usize(0, nds.len() - 1);
            if t[n.start..n.end].len() > 3000 { return None }
            let s = t[n.start..n.end].to_string();
            let at = g.usize(0, nds[j].kids.len());
            add_child(t, &nds, j, &s, at).0
        }
        4 if i > 0 && !n.empty => splice(t, n.start, n.end, &t[n.tag_end..n.end - n.qname.len() - 3].to_string()),
        5 => {
            let tag = g.pick(TAGS);
            let q = match n.qname.split_once(':') { Some((p, _)) => format!("{}:{}", p, tag), None => tag.to_string() };
            let mut s = t.to_string();
            if !n.empty {
                let e = n.end - 1 - n.qname.len();
                s = splice(&s, e, n.end - 1, &q);
            }
            splice(&s, n.start + 1, n.start + 1 + n.qname.len(), &q)
        }
        6 | 7 if !n.atts.is_empty() => {
            let a = g.pick(&n.atts).clone();
            let k = t[a.range.0..a.range.1].split('=').next().unwrap().trim_end().to_string();
            if g.chance(25) { splice(t, a.range.0, a.range.1, "") } else { let v = odd(g, set); splice(t, a.range.0, a.range.1, &format!("{}=\"{}\"", k, esc_attr(&v))) }
        }
        8 => {
            let k = g.pick(ATTS).to_string();
            if n.att(&k).is_some() { return None }
            let v = odd(g, set);
            add_attr(t, n, &k, &v)
        }
        9 => {
            let p = n.qname.split_once(':').map(|x| format!("{}:", x.0)).unwrap_or_default();
            let tag = g.pick(TAGS);
            let mut x = format!("<{}{}", p, tag);
            for _ in 0..g.usize(0, 3) {
                let k = *g.pick(ATTS);
                if x.contains(&format!(" {}=", k)) { continue }
                let v = odd(g, set);
                x.push_str(&format!(" {}=\"{}\"", k, esc_attr(&v)));
            }
            x.push_str("/>");
            let at = g.usize(0, n.kids.len());
            add_child(t, &nds, i, &x, at).0
        }
        _ => {
            // references turned around: an existing reference points to another name
            let refs: Vec<Att> = nds.iter().flat_map(|n| n.atts.iter()).filter(|a| matches!(a.name.as_str(), "type" | "ref" | "base" | "schemaLocation") && !a.ns).cloned().collect();
            if refs.is_empty() { return None }
            let a = g.pick(&refs).clone();
            let v = if a.name == "schemaLocation" { g.pick(&["main.xsd", "part1.xsd", "part2.xsd", ".", "../main.xsd", "sub/part1.xsd", "nope.xsd", ""]).to_string() } else { odd(g, set) };
            splice(t, a.range.0, a.range.1, &format!("{}=\"{}\"", a.name, esc_attr(&v)))
        }
    })
}
fn gen_c11(g: &mut Gen) -> Option<DCase> {
    let mut p = base_profile(g);
    p.enum_wild = 0;
    p.name_wild = if g.chance(30) { 40 } else { 0 };
    p.defs = (1, 4);
    p.noise = if g.chance(30) { 60 } else { 0 };
    let (set, _) = gen_set(g, &p);
    let mut files = print_set(&set, g);
    let label;
    match g.below(12) {
        0 | 1 | 2 => {
            label = "text mutations";
            let k = g.usize(0, files.len() - 1);
            let n = g.usize(1, 5);
            files[k].1 = mutate_text(&files[k].1, g, n);
        }
        6..=8 => {
            label = "odd values";
            for _ in 0..g.usize(1, 4) {
                let k = g.usize(0, files.len() - 1);
                let Some(nds) = nodes(&files[k].1) else { continue };
                let want: &[&str] = g.pick(&[&["name"][..], &["name", "value", "fixed"], &["type", "ref", "base"], &["minOccurs", "maxOccurs", "default", "fixed", "elementFormDefault", "targetNamespace"]]);
                let c: Vec<Att> = nds.iter().flat_map(|n| n.atts.iter()).filter(|a| !a.ns && want.contains(&a.name.as_str())).cloned().collect();
                if c.is_empty() {
                    continue;
                }
                let a = g.pick(&c).clone();
                let v = odd(g, &set);
                files[k].1 = splice(&files[k].1, a.range.0, a.range.1, &format!("{}=\"{}\"", a.name, esc_attr(&v)));
            }
        }
        3..=5 => {
            label = "tree mutations";
            for _ in 0..g.usize(1, 4) {
                let k = g.usize(0, files.len() - 1);
                if let Some(t) = tree_edit(&files[k].1, g, &set) {
                    files[k].1 = t;
                }
            }
        }
        9 => {
            label = "include graphs";
            // any graph of files, cycles and self-includes allowed
            let n = g.usize(1, 6);
            files.clear();
            for i in 0..n {
                let mut t = format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns=\"urn:a\" targetNamespace=\"{}\">", g.pick(&["urn:a", "urn:a", "urn:b"]));
                let k = g.usize(0, 4);
                for _ in 0..k {
                    let j = g.usize(0, n);
                    let dot = *g.pick(&["", "./", "././", "x/../", "../t/"]);
                    let path = if j == 0 { "main.xsd".to_string() } else { format!("f{}.xsd", j) };
                    t.push_str(&format!("<xs:{} schemaLocation=\"{}{}\"/>", g.pick(&["include", "import"]), dot, path));
                }
                t.push_str(&format!("<xs:element name=\"e{}\" type=\"{}\"/>", if g.chance(90) { i } else { 0 }, g.pick(&["xs:string", "e0", "e1", "e2", "t0"])));
                if g.chance(50) {
                    t.push_str(&format!("<xs:complexType name=\"t{}\"><xs:sequence><xs:element ref=\"e{}\" minOccurs=\"0\"/></xs:sequence></xs:complexType>", i, g.below(n as u64)));
                }
                t.push_str("</xs:schema>");
                files.push((if i == 0 { "main.xsd".into() } else { format!("f{}.xsd", i) }, t));
            }
        }
        10 => {
            label = "nesting and size";
            let x = "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">";
            let n = g.usize(1, 60);
            let (a, b) = *g.pick(&[("<xs:sequence>", "</xs:sequence>"), ("<xs:choice>", "</xs:choice>"), ("<xs:sequence><xs:element name=\"a\"><xs:complexType>", "</xs:complexType></xs:element></xs:sequence>"), ("<xs:sequence><xs:choice>", "</xs:choice></xs:sequence>")]);
            let mut t = format!("{}<xs:element name=\"r\"><xs:complexType>", x);
            t.push_str(&a.repeat(n));
            t.push_str(&b.repeat(n));
            t.push_str("</xs:complexType></xs:element>");
            // long chains of aliases and extensions
            let m = g.usize(0, 200);
            for i in 0..m {
                t.push_str(&format!("<xs:element name=\"al{}\" type=\"al{}\"/>", i, (i + 1) % (m + g.usize(0, 1))));
            }
            for i in 0..g.usize(0, 100) {
                t.push_str(&format!("<xs:complexType name=\"c{}\"><xs:complexContent><xs:extension base=\"c{}\"/></xs:complexContent></xs:complexType>", i, i + 1));
            }
            t.push_str("</xs:schema>");
            files = vec![("main.xsd".into(), t)];
        }
        _ => {
            label = "fragments";
            let mut t = String::new();
            for _ in 0..g.usize(0, 12) {
                if g.chance(40) {
                    t.push_str(g.pick(&["<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">", "</xs:schema>", "<xs:element name=\"a\"/>", "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\"/>", "<xs:schema xmlns:xs=\"urn:other\"/>", "<a/>", "<?xml version=\"1.0\"?>", "<!DOCTYPE x [<!ENTITY y \"z\">]>"]));
                } else {
                    t = mutate_text(&t, g, 1);
                }
            }
            files = vec![("main.xsd".into(), t)];
        }
    }
    // known finding: letters that cannot start a Rust identifier are probed separately
    if files.iter().any(|f| f.1.chars().any(|c| c.is_alphabetic() && !c.is_ascii() && !unicode_ident::is_xid_start(c))) {
        return None;
    }
    let data = if g.chance(20) { Some(files[0].1.clone()) } else { None };
    let req = main_req(match data { Some(d) => json!({ "data": d }), None => json!({}) });
    Some(DCase {
        files, reqs: vec![req], nontrivial: true, label: label.to_string(),
        judge: Box::new(|a| {
            let v = &a[0];
            alive(v)?;
            if let Some(e) = v.get("invalid") {
                return Err(format!("the generated code is not a list of Rust items: {}", e));
            }
            if let Some(i) = v["items"].as_array() {
                for i in i {
                    if i["kind"] == "other" {
                        return Err(format!("an unexpected item is generated: {}", i["name"]));
                    }
                }
                return Ok(());
            }
            if v.get("err").is_some() && v["text"].as_str().map(|t| !t.is_empty()).unwrap_or(false) {
                return Ok(());
            }
            Err(format!("neither code nor an error: {}", v))
        }),
    })
}

// ------------------------------------------------------------------ C12: located errors

pub struct Injected {
    pub files: Vec<(String, String)>,
    /// the file that was made unsupported
    pub file: String,
    /// accepted positions of the report, as (row, column) intervals
    pub at: Vec<((u64, u64), (u64, u64))>,
    /// texts the message must contain
    pub needles: Vec<String>,
    /// expect a failure to open this file instead
    pub open: Option<String>,
    pub label: &'static str,
}
/// a supported schema set with exactly one thing in it that is not supported
pub fn inject(g: &mut Gen) -> Option<Injected> {
    let mut p = base_profile(g);
    p.attrs = (0, 3);
    p.docs_pct = 20;
    p.noise = if g.chance(40) { 60 } else { 0 };
    p.form_pct = 8;
    p.w_content = [1, 8, 3, 4, 4, 4];
    if g.chance(30) {
        p.name_wild = 30;
    }
    let (set, _) = gen_set(g, &p);
    let mut files = print_set(&set, g);
    let k = g.usize(0, files.len() - 1);
    let t = files[k].1.clone();
    let nds = nodes(&t)?;
    let x = if set.files[k].sp.xs.is_empty() { String::new() } else { format!("{}:", set.files[k].sp.xs) };
    let pick = |g: &mut Gen, f: &dyn Fn(&Nd) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..nds.len()).filter(|i| !ignored(&nds, &nds[*i]) && f(&nds[*i])).collect();
        if v.is_empty() { None } else { Some(*g.pick(&v)) }
    };
    let global = |n: &Nd| n.parent == Some(0);
    let top = |n: &Nd| n.parent.map(|p| nds[p].tag == "complexType").unwrap_or(false);
    let ptag = |n: &Nd| n.parent.map(|p| nds[p].tag.clone()).unwrap_or_default();
    let val = |a: &Att| -> String { let s = &t[a.range.0..a.range.1]; let s = s.splitn(2, '=').nth(1).unwrap().trim(); s[1..s.len() - 1].to_string() };
    let prohibited = |n: &Nd| n.att("use").map(|a| val(a) == "prohibited").unwrap_or(false);
    // (new text, offset of the offending element, needles)
    let mut open = None;
    let mut extra_at: Vec<usize> = vec![];
    let label;
    let (new, at, needles): (String, usize, Vec<String>) = match g.below(16) {
        0 | 1 | 2 => {
            label = "unsupported child";
            let i = pick(g, &|n| !matches!(n.tag.as_str(), "documentation" | "include" | "import" | "enumeration" | "minLength" | "maxLength" | "pattern" | "minInclusive" | "maxInclusive" | "totalDigits" | "fractionDigits") && !(n.tag == "annotation" && matches!(ptag(n).as_str(), "sequence" | "choice" | "all") && !documented_seq(&nds, n)))?;
            let n = &nds[i];
            let tag = *match n.tag.as_str() {
                "schema" => g.pick(&["group", "attributeGroup", "attribute", "notation", "redefine", "annotation", "foo", "override"]),
                "complexType" => g.pick(&["group", "attributeGroup", "anyAttribute", "assert", "openContent", "foo", "element", "restriction"]),
                "simpleType" => g.pick(&["list", "union", "foo", "enumeration"]),
                "element" => g.pick(&["key", "unique", "keyref", "foo", "alternative", "sequence"]),
                "attribute" => g.pick(&["foo", "complexType", "restriction"]),
                "sequence" | "all" => g.pick(&["any", "group", "foo", "attribute", "all"]),
                "choice" => g.pick(&["any", "group", "choice", "foo", "all"]),
                "simpleContent" | "complexContent" => g.pick(&["restriction", "foo", "sequence"]),
                "extension" => g.pick(&["anyAttribute", "attributeGroup", "all", "group", "foo", "assert", "element"]),
                "restriction" => g.pick(&["whiteSpace", "minExclusive", "maxExclusive", "assertion", "explicitTimezone", "foo", "sequence", "attribute", "annotation"]),
                "annotation" => g.pick(&["appinfo", "foo", "element"]),
                _ => return None,
            };
            let xml = match g.below(5) {
                4 => {
                    // as it would be written in earnest
                    let atts = match tag {
                        "redefine" | "override" => {
                            let dir = match files[k].0.rsplit_once('/') { Some((d, _)) => format!("{}/", d), None => String::new() };
                            let tns = set.files[k].tns.as_ref().map(|t| format!(" targetNamespace=\"{}\"", esc_attr(t))).unwrap_or_default();
                            files.push((format!("{}vxextra.xsd", dir), format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"{}/>", tns)));
                            "schemaLocation=\"vxextra.xsd\"".to_string()
                        }
                        "any" | "anyAttribute" => "namespace=\"##any\" processContents=\"lax\"".to_string(),
                        "group" | "attributeGroup" => format!("{}=\"inj\"", if n.tag == "schema" { "name" } else { "ref" }),
                        "list" => format!("itemType=\"{x}string\""),
                        "union" => format!("memberTypes=\"{x}string {x}int\""),
                        "attribute" | "element" => format!("name=\"inj\" type=\"{x}string\""),
                        "whiteSpace" | "minExclusive" | "maxExclusive" | "explicitTimezone" | "enumeration" => "value=\"1\"".to_string(),
                        "assert" | "assertion" => "test=\"true()\"".to_string(),
                        _ => "id=\"inj\"".to_string(),
                    };
                    format!("<{x}{tag} {atts}/>")
                }
                0 => format!("<{x}{tag}/>"),
                1 => format!("<{x}{tag} name=\"inj\"/>"),
                2 => format!("<{x}{tag} name=\"inj\" ref=\"inj\"></{x}{tag}>"),
                _ => format!("\n   <{x}{tag} name=\"inj\">\n <{x}element name=\"q\" type=\"{x}string\"/></{x}{tag}>"),
            };
            let w = g.usize(0, n.kids.len());
            let (s, at) = add_child(&t, &nds, i, &xml, w);
            (s, at + xml.len() - xml.trim_start().len(), vec![tag.to_string()])
        }
        3 | 4 => {
            label = "unsupported attribute";
            let i = pick(g, &|n| matches!(n.tag.as_str(), "complexType" | "simpleType" | "element" | "attribute" | "sequence" | "choice" | "all" | "simpleContent" | "complexContent") && !prohibited(n))?;
            let n = &nds[i];
            let nested_seq = n.tag == "sequence" && ptag(n) == "sequence" || n.tag == "sequence" && ptag(n) == "extension";
            let top_choice = n.tag == "choice" && top(n);
            let k = *match n.tag.as_str() {
                "complexType" => g.pick(&["abstract", "block", "final", "id", "minOccurs", "type", "base"]),
                "simpleType" => g.pick(&["final", "id", "base", "minOccurs"]),
                "element" if global(n) => g.pick(&["abstract", "nillable", "substitutionGroup", "minOccurs", "maxOccurs", "ref", "form", "default", "id", "block"]),
                "element" if n.has_ref => g.pick(&["nillable", "id", "default", "fixed", "name", "type", "form"]),
                "element" => g.pick(&["nillable", "id", "abstract", "block", "use", "targetNamespace"]),
                "attribute" => g.pick(&["form", "ref", "id", "minOccurs", "inheritable", "nillable"]),
                "sequence" if nested_seq => g.pick(&["maxOccurs", "id", "name"]),
                "choice" if top_choice => g.pick(&["minOccurs", "maxOccurs", "id"]),
                "simpleContent" | "complexContent" => g.pick(&["mixed", "id", "base"]),
                _ => g.pick(&["id", "name", "ref", "type"]),
            };
            if n.att(k).is_some() {
                return None;
            }
            // `ref` and `type` are supported on some elements
            let v = *g.pick(&["true", "1", "x", "", "0"]);
            (add_attr(&t, n, k, v), n.start, vec![k.to_string()])
        }
        5 => {
            label = "missing attribute";
            let i = pick(g, &|n| match n.tag.as_str() {
                "element" | "complexType" | "simpleType" if global(n) => true,
                "element" => !n.has_ref,
                "attribute" | "extension" | "restriction" | "include" | "import" => true,
                "enumeration" | "minLength" | "maxLength" | "pattern" | "minInclusive" | "maxInclusive" | "totalDigits" | "fractionDigits" => true,
                _ => false,
            })?;
            let n = &nds[i];
            let a = match n.tag.as_str() {
                "element" | "complexType" | "simpleType" => "name",
                "attribute" => if n.att("type").is_some() && g.chance(50) { "type" } else { "name" },
                "extension" | "restriction" => "base",
                "include" | "import" => "schemaLocation",
                _ => "value",
            };
            let att = n.att(a)?;
            (splice(&t, att.range.0, att.range.1, ""), n.start, vec![a.to_string(), n.tag.clone()])
        }
        6 => {
            label = "missing element";
            let i = pick(g, &|n| matches!(n.tag.as_str(), "extension" | "restriction") || (global(n) && n.tag == "element"))?;
            let n = &nds[i];
            if n.tag == "element" {
                match n.att("type") {
                    Some(a) if n.att("fixed").is_none() => (splice(&t, a.range.0, a.range.1, ""), n.start, vec!["simpleType".into(), "complexType".into()]),
                    Some(_) => return None,
                    None => {
                        let kid = *n.kids.iter().find(|k| nds[**k].tag != "annotation")?;
                        (splice(&t, nds[kid].start, nds[kid].end, ""), n.start, vec!["simpleType".into(), "complexType".into()])
                    }
                }
            } else {
                (splice(&t, n.start, n.end, ""), nds[n.parent?].start, vec![n.tag.clone()])
            }
        }
        7 => {
            label = "bad number";
            let bad = *g.pick(&["", "-1", "x", "1.5", "1 1", "4294967296", "0x1", "one"]);
            match g.below(2) {
                0 => {
                    let i = pick(g, &|n| matches!(n.tag.as_str(), "element" | "sequence" | "choice" | "all") && (n.att("minOccurs").is_some() || n.att("maxOccurs").is_some()))?;
                    let n = &nds[i];
                    let a = n.att("minOccurs").or(n.att("maxOccurs"))?;
                    (splice(&t, a.range.0, a.range.1, &format!("{}=\"{}\"", a.name, bad)), n.start, vec!["int".into()])
                }
                _ => {
                    let i = pick(g, &|n| n.tag == "restriction")?;
                    let f = *g.pick(&["minLength", "maxLength", "length", "totalDigits", "fractionDigits", "minInclusive", "maxInclusive"]);
                    let bad = if f.ends_with("Inclusive") { *g.pick(&["x", "--1", "1,5", "abc"]) } else { *g.pick(&["", "-1", "x", "1.5", "1 1", "0x1"]) };
                    let xml = format!("<{x}{f} value=\"{bad}\"/>");
                    let w = g.usize(0, nds[i].kids.len());
                    let (s, at) = add_child(&t, &nds, i, &xml, w);
                    (s, at, vec![if f.ends_with("Inclusive") { "decimal".into() } else { "int".into() }])
                }
            }
        }
        8 => {
            label = "bad value";
            match g.below(6) {
                0 => {
                    let i = pick(g, &|n| n.tag == "attribute" && !prohibited(n))?;
                    let n = &nds[i];
                    let v = *g.pick(&["maybe", "Required", "true", "", "require"]);
                    let s = match n.att("use") { Some(a) => splice(&t, a.range.0, a.range.1, &format!("use=\"{}\"", v)), None => add_attr(&t, n, "use", v) };
                    (s, n.start, vec!["use".into(), v.into()])
                }
                1 => {
                    let i = pick(g, &|n| n.tag == "complexType" && n.att("mixed").is_none())?;
                    let v = *g.pick(&["true", "1"]);
                    (add_attr(&t, &nds[i], "mixed", v), nds[i].start, vec!["mixed".into(), v.into()])
                }
                2 => {
                    let i = pick(g, &|n| n.tag == "element" && !global(n) && !n.has_ref && n.att("form").is_none() && n.parent.is_some())?;
                    let v = *g.pick(&["Qualified", "", "both", "true"]);
                    (add_attr(&t, &nds[i], "form", v), nds[i].start, vec!["form".into(), v.into()])
                }
                3 => {
                    // a required attribute with a default
                    let i = pick(g, &|n| n.tag == "attribute" && n.att("use").map(|a| val(a) == "required").unwrap_or(false) && n.att("default").is_none())?;
                    (add_attr(&t, &nds[i], "default", "1"), nds[i].start, vec!["default".into()])
                }
                4 => {
                    let i = pick(g, &|n| n.has_ref)?;
                    let a = nds[i].att("ref")?;
                    (splice(&t, a.range.0, a.range.1, &format!("ref=\"{x}string\"")), nds[i].start, vec!["ref".into(), "string".into()])
                }
                _ => {
                    // complex content of a built-in type; a simple type derived from another one
                    let i = pick(g, &|n| n.tag == "restriction" || n.tag == "extension" && ptag(n) == "complexContent")?;
                    let a = nds[i].att("base")?;
                    let v = if nds[i].tag == "extension" { format!("{x}string") } else {
                        if x.is_empty() { return None }
                        "otherType".to_string()
                    };
                    (splice(&t, a.range.0, a.range.1, &format!("base=\"{v}\"")), nds[i].start, vec!["base".into(), v])
                }
            }
        }
        9 => {
            label = "bad type name";
            let i = pick(g, &|n| matches!(n.tag.as_str(), "element" | "attribute" | "extension" | "restriction") && (n.att("type").is_some() || n.att("base").is_some()))?;
            let n = &nds[i];
            let a = n.att("type").or(n.att("base"))?;
            let (v, nd) = if g.chance(60) {
                let b = *g.pick(&["double", "token", "ID", "NMTOKEN", "QName", "anyURI", "gYear", "unsignedInt", "short", "byte", "nonsense", "String", "normalizedString", "anySimpleType", "negativeInteger", "language", "INT", ""]);
                (format!("{x}{b}"), b)
            } else {
                let b = *g.pick(&["nope", "undeclared", "xml2"]);
                (format!("{b}:thing"), b)
            };
            (splice(&t, a.range.0, a.range.1, &format!("{}=\"{}\"", a.name, v)), n.start, vec![nd.to_string()])
        }
        10 => {
            label = "duplicate";
            if g.chance(55) {
                let i = pick(g, &|n| global(n) && n.att("name").is_some())?;
                let n = &nds[i];
                let name = val(n.att("name")?);
                let sep = *g.pick(&["", "\n", "\n  <!-- again -->\n "]);
                let s = match g.below(2) { 0 => t[n.start..n.end].to_string(), _ => format!("<{x}element name=\"{name}\" type=\"{x}string\"/>") };
                extra_at.push(n.start);
                // inline types of the copy collide first
                let kind = s.starts_with(&format!("<{x}element name=\"{name}\" type=\"{x}string\"/>"));
                let at = n.end + sep.len();
                let nd = if kind { vec![unesc(&name)] } else { vec!["Multiple definitions".to_string()] };
                if !kind {
                    // anywhere inside the copy
                    let full = splice(&t, n.end, n.end, &format!("{}{}", sep, s));
                    let iv = (pos_at(&full, at), pos_at(&full, at + s.len()));
                    let file = files[k].0.clone();
                    files[k].1 = full;
                    return Some(Injected { files, file, at: vec![iv], needles: nd, open: None, label });
                }
                (splice(&t, n.end, n.end, &format!("{}{}", sep, s)), at, nd)
            } else {
                // a second content model, annotation, or content
                let i = pick(g, &|n| matches!(n.tag.as_str(), "annotation" | "sequence" | "all" | "choice" | "simpleContent" | "complexContent" | "extension" | "restriction") && !matches!(ptag(n).as_str(), "sequence" | "choice" | "all"))?;
                let n = &nds[i];
                let s = t[n.start..n.end].to_string();
                let full = splice(&t, n.end, n.end, &s);
                if matches!(n.tag.as_str(), "extension" | "restriction" | "annotation") || top(n) || ptag(n) == "extension" {
                    (full, n.end, vec![n.tag.clone()])
                } else {
                    return None;
                }
            }
        }
        11 => {
            label = "missing file";
            let i = pick(g, &|n| matches!(n.tag.as_str(), "include" | "import"));
            let bad = *g.pick(&["missing.xsd", "sub/missing.xsd", "../missing.xsd"]);
            open = Some(bad.rsplit('/').next().unwrap().to_string());
            match i {
                Some(i) => {
                    let a = nds[i].att("schemaLocation")?;
                    (splice(&t, a.range.0, a.range.1, &format!("schemaLocation=\"{}\"", bad)), nds[i].start, vec![])
                }
                None => {
                    let (s, at) = add_child(&t, &nds, 0, &format!("<{x}include schemaLocation=\"{bad}\"/>"), 0);
                    (s, at, vec![])
                }
            }
        }
        13 => {
            label = "qualified attributes";
            // matters only where an attribute is declared, and is reported there
            if set.files[k].tns.is_none() || !nds.iter().any(|n| n.tag == "attribute") {
                return None;
            }
            let n = &nds[0];
            let full = match n.att("attributeFormDefault") {
                Some(a) => splice(&t, a.range.0, a.range.1, "attributeFormDefault=\"qualified\""),
                None => add_attr(&t, n, "attributeFormDefault", "qualified"),
            };
            let nn = nodes(&full)?;
            let at = nn.iter().filter(|n| n.tag == "attribute" || n.tag == "schema").map(|n| (pos_at(&full, n.start), pos_at(&full, n.tag_end))).collect();
            let file = files[k].0.clone();
            files[k].1 = full;
            return Some(Injected { files, file, at, needles: vec!["attributeFormDefault".into(), "qualified".into()], open: None, label });
        }
        14 => {
            label = "circular definition";
            let pf = match (&set.files[k].tns, &set.files[k].sp.tns_prefix) {
                (Some(_), Some(p)) => format!("{}:", p),
                (Some(_), None) => String::new(),
                (None, _) if x.is_empty() => return None,
                (None, _) => String::new(),
            };
            let n = g.usize(1, 6);
            // a ring, sometimes with a tail leading into it
            let tail = if g.chance(30) { g.usize(1, 3) } else { 0 };
            let mut ds: Vec<String> = (0..n).map(|i| format!("<{x}element name=\"vxc{}\" type=\"{pf}vxc{}\"/>", i, (i + 1) % n)).collect();
            ds.extend((0..tail).map(|i| format!("<{x}element name=\"vxt{}\" type=\"{pf}{}\"/>", i, if i == 0 { "vxc0".into() } else { format!("vxt{}", i - 1) })));
            g.shuffle(&mut ds);
            let mut full = t.clone();
            for d in ds {
                let nn = nodes(&full)?;
                let w = g.usize(0, nn[0].kids.len());
                full = add_child(&full, &nn, 0, &d, w).0;
            }
            let nn = nodes(&full)?;
            let at = nn.iter().filter(|n| full[n.start..n.tag_end].contains("\"vxc")).map(|n| (pos_at(&full, n.start), pos_at(&full, n.tag_end))).collect();
            let file = files[k].0.clone();
            files[k].1 = full;
            return Some(Injected { files, file, at, needles: vec!["vxc".into()], open: None, label });
        }
        15 => {
            label = "duplicate over files";
            // a definition of another file, which this one links to, again
            let l = if set.files[k].links.is_empty() { return None } else { g.pick(&set.files[k].links).target };
            // (a file that links to both would meet them, too)
            if set.files[l].tns != set.files[k].tns || l == k || set.files.iter().enumerate().any(|(i, f)| i != k && f.links.iter().any(|x| x.target == l)) {
                return None;
            }
            let other = nodes(&files[l].1)?;
            let v: Vec<&Nd> = other.iter().filter(|n| n.parent == Some(0) && n.att("name").is_some()).collect();
            if v.is_empty() {
                return None;
            }
            let a = g.pick(&v).att("name")?;
            let name = { let s = &files[l].1[a.range.0..a.range.1]; let s = s.splitn(2, '=').nth(1)?.trim(); s[1..s.len() - 1].replace('"', "&quot;") };
            let w = g.usize(0, nds[0].kids.len());
            let (full, at) = add_child(&t, &nds, 0, &format!("<{x}element name=\"{name}\" type=\"{x}string\"/>"), w);
            let nn = nodes(&full)?;
            // either of the two places where the definitions meet
            let at = nn.iter().filter(|n| n.start == at || matches!(n.tag.as_str(), "include" | "import")).map(|n| (pos_at(&full, n.start), pos_at(&full, n.tag_end))).collect();
            let file = files[k].0.clone();
            files[k].1 = full;
            return Some(Injected { files, file, at, needles: vec![unesc(&name)], open: None, label });
        }
        _ => {
            label = "not a schema";
            match g.below(3) {
                0 => {
                    // malformed: the position is that of the parser
                    let n = g.usize(1, 2);
                    let s = mutate_text(&t, g, n);
                    let e = match roxmltree::Document::parse(&s) { Err(e) => e, Ok(_) => return None };
                    let p = (e.pos().row as u64, e.pos().col as u64);
                    let file = files[k].0.clone();
                    files[k].1 = s;
                    return Some(Injected { files, file, at: vec![(p, p)], needles: vec![], open: None, label: "malformed" });
                }
                1 => {
                    let n = &nds[0];
                    let q = n.qname.replace("schema", "scheme");
                    let mut s = splice(&t, n.end - 1 - n.qname.len(), n.end - 1, &q);
                    s = splice(&s, n.start + 1, n.start + 1 + n.qname.len(), &q);
                    (s, n.start, vec!["scheme".into()])
                }
                _ => {
                    let s = t.replacen("http://www.w3.org/2001/XMLSchema", g.pick(&["http://www.w3.org/2001/XMLSchem", "urn:x", "http://www.w3.org/2001/xmlschema", "http://www.w3.org/2001/XMLSchema "]), 1);
                    (s, nds[0].start, vec!["schema".into()])
                }
            }
        }
    };
    let file = files[k].0.clone();
    let mut ivs = vec![];
    // the whole start tag of the offending element counts as its position
    let nn = nodes(&new)?;
    let n = nn.iter().find(|n| n.start == at)?;
    ivs.push((pos_at(&new, at), pos_at(&new, n.tag_end)));
    files[k].1 = new;
    Some(Injected { files, file, at: ivs, needles, open, label })
}
fn unesc(s: &str) -> String { s.replace("&lt;", "<").replace("&quot;", "\"").replace("&#39;", "'").replace("&amp;", "&") }
/// annotations of facets, enumeration values and links are not looked at
fn ignored(nds: &[Nd], n: &Nd) -> bool {
    n.parent.map(|p| {
        let p = &nds[p];
        (n.tag == "annotation" && (p.atts.iter().any(|a| a.name == "value" && !a.ns) || matches!(p.tag.as_str(), "include" | "import"))) || ignored(nds, p)
    }).unwrap_or(false)
}
/// annotations of nested sequences are looked at, those of other groups are not
fn documented_seq(nds: &[Nd], n: &Nd) -> bool {
    let p = &nds[n.parent.unwrap()];
    p.tag == "sequence" && p.parent.map(|g| matches!(nds[g].tag.as_str(), "sequence" | "choice" | "all")).unwrap_or(false) && p.kids.iter().find(|k| nds[**k].tag == "annotation").map(|k| nds[*k].start == n.start).unwrap_or(false)
}
pub fn judge_injected(i: &Injected, v: &Value) -> Result<(), String> {
    alive(v)?;
    if v.get("items").is_some() {
        return Err(format!("{}: the schema is accepted although {} is not supported or missing", i.label, i.needles.join(", ")));
    }
    if let Some(f) = &i.open {
        if v["err"] != "open" || !v["file"].as_str().unwrap_or("").ends_with(f.as_str()) {
            return Err(format!("{}: the failure to open {} is reported as {}", i.label, f, v));
        }
        if !v["text"].as_str().unwrap_or("").contains(f.as_str()) {
            return Err(format!("{}: the message does not name {}: {}", i.label, f, v["text"]));
        }
        return Ok(());
    }
    if v["err"] != "xsd" {
        return Err(format!("{}: unexpected kind of error {}", i.label, v));
    }
    let f = clean_path(v["file"].as_str().unwrap_or(""));
    if !f.ends_with(&format!("/{}", clean_path(&i.file))) {
        return Err(format!("{}: the error is in {} but reported for {}", i.label, i.file, f));
    }
    let p = (v["row"].as_u64().unwrap_or(0), v["col"].as_u64().unwrap_or(0));
    if !i.at.iter().any(|(a, b)| *a <= p && p <= *b) {
        return Err(format!("{}: reported at {:?} instead of {:?}: {}", i.label, p, i.at, v["text"]));
    }
    let inner = v["inner"].as_str().unwrap_or("");
    for n in &i.needles {
        if !inner.contains(n.as_str()) {
            return Err(format!("{}: the message does not name `{}`: {}", i.label, n, inner));
        }
    }
    let text = v["text"].as_str().unwrap_or("");
    for n in [inner.to_string(), p.0.to_string(), p.1.to_string(), v["file"].as_str().unwrap_or("").to_string()] {
        if !text.contains(n.as_str()) {
            return Err(format!("{}: the full message lacks {:?}: {}", i.label, n, text));
        }
    }
    Ok(())
}
fn gen_c12(g: &mut Gen) -> Option<DCase> {
    let i = inject(g)?;
    Some(DCase { files: i.files.clone(), reqs: vec![main_req(json!({}))], nontrivial: true, label: i.label.to_string(), judge: Box::new(move |a| judge_injected(&i, &a[0])) })
}

pub fn direct(id: &str) -> Option<Direct> {
    let d = |id, n, rule, gen| Direct { id, n, rule, gen, exe: crate::batch::vprobe };
    Some(match id {
        "C06" => d("C06", (6000, 60000), "a schema set whose list of generated items is compared with the types the schema stands for; non-trivial = more than one type", gen_c06),
        "C11" => d("C11", (40000, 1500000), "schema files from the supported grammar with text or tree mutations, arbitrary include graphs, deep nesting, fragments; every case counts", gen_c11),
        "C12" => d("C12", (60000, 600000), "a supported schema set with one unsupported or missing thing injected at a known place; every case counts", gen_c12),
        "C14" => d("C14", (6000, 60000), "two spellings of one schema set and the first one again, compared item by item; every case counts", gen_c14),
        "C15" => d("C15", (5000, 120000), "sequences of single-definition requests with a shared record, against the dependency closure of the model; non-trivial = some definition needs several but not all types", gen_c15),
        "C19" => d("C19", (8000, 120000), "a documented schema set and the same one without documentation; non-trivial = some type is documented", gen_c19),
        _ => return None,
    })
}
