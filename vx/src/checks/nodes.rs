//! Checks of the schema side's document API: C24 (ways to hand in a schema) and C25 (schema nodes).
use super::schema::{base_profile, inject, items, nodes};
use crate::direct::{alive, DCase, Direct, DIR};
use crate::gen::gen_set;
use crate::inst::{gen_string, LitCfg};
use crate::model::{esc_attr, esc_text, print_set};
use crate::tape::Gen;
use serde_json::{json, Value};

// ------------------------------------------------------------------ C24

/// attributes of a start tag: name, where it starts (with the space before it) and ends, raw value
fn tag_attrs(t: &str) -> Vec<(String, usize, usize, String)> {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 1;
    while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'>' && b[i] != b'/' {
        i += 1;
    }
    loop {
        let from = i;
        while i < b.len() && b[i].is_ascii_whitespace() {
            i += 1;
        }
        if i >= b.len() || b[i] == b'>' || b[i] == b'/' {
            return out;
        }
        let s = i;
        while b[i] != b'=' && !b[i].is_ascii_whitespace() {
            i += 1;
        }
        let name = t[s..i].to_string();
        while b[i] != b'"' && b[i] != b'\'' {
            i += 1;
        }
        let q = b[i];
        let v = i + 1;
        i += 1;
        while b[i] != q {
            i += 1;
        }
        out.push((name, from, i + 1, t[v..i].to_string()));
        i += 1;
    }
}
/// puts the schema into another document, some of its namespace declarations moving to the outside;
/// the document and the offset of the schema in it
fn embed(t: &str, g: &mut Gen) -> Option<(String, usize)> {
    let nds = nodes(t)?;
    let root = &nds[0];
    let body = &t[root.start..root.end];
    let tag = &t[root.start..root.tag_end];
    let mut cuts: Vec<(usize, usize)> = vec![];
    let mut outer: Vec<String> = vec![];
    let mut inner: Vec<String> = vec![];
    for (name, a, b, v) in tag_attrs(tag) {
        if name != "xmlns" && !name.starts_with("xmlns:") {
            continue;
        }
        match g.below(4) {
            0 | 1 => {
                let q = if v.contains('"') { '\'' } else { '"' };
                let d = format!(" {}={}{}{}", name, q, v, q);
                cuts.push((a, b));
                if g.chance(50) {
                    outer.push(d);
                } else {
                    inner.push(d);
                    // nearer declarations win
                    if g.chance(40) { outer.push(format!(" {}=\"urn:wrong\"", name)) }
                }
            }
            2 => { let w = format!(" {}=\"urn:wrong\"", name); if g.chance(50) { outer.push(w) } else { inner.push(w) } }
            _ => {}
        }
    }
    let mut s = body.to_string();
    for (a, b) in cuts.into_iter().rev() {
        s.replace_range(a..b, "");
    }
    if g.chance(30) {
        outer.push(" xmlns:unused=\"urn:unused\"".into());
    }
    let mut d = String::new();
    if g.chance(50) {
        d.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    d.push_str(&format!("<w0:definitions xmlns:w0=\"urn:wsdl\" name=\"x\"{}>\n{}<w0:types{}>", outer.concat(), g.pick(&["", "  ", "<!-- \u{e9} -->\n", "<w0:message/>"]), inner.concat()));
    if g.chance(30) {
        d.push_str("<x:schema xmlns:x=\"http://www.w3.org/2001/XMLSchema\" targetNamespace=\"urn:sibling\"><x:element name=\"sibling\" type=\"x:string\"/></x:schema>");
    }
    d.push_str(g.pick(&["", "\n    "]));
    let at = d.len();
    d.push_str(&s);
    d.push_str("</w0:types>\n</w0:definitions>");
    Some((d, at))
}
fn offset(t: &str, row: u64, col: u64) -> Option<usize> {
    let start: usize = t.split_inclusive('\n').take(row as usize - 1).map(|l| l.len()).sum();
    t[start..].char_indices().map(|x| x.0).chain([t.len() - start]).nth(col as usize - 1).map(|x| start + x)
}
/// items with the tokens in any order: the order of variants is no guarantee
fn bags(v: &Value) -> Result<Vec<String>, String> {
    let mut out: Vec<String> = items(v)?.iter().map(|i| {
        let mut t: Vec<&str> = i["tokens"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
        t.sort();
        format!("{} {} {}", i["kind"], i["name"], t.join(" "))
    }).collect();
    out.sort();
    Ok(out)
}
fn gen_c24(g: &mut Gen) -> Option<DCase> {
    let faulty = g.chance(30);
    let (files, label) = if faulty {
        let i = inject(g)?;
        (i.files, format!("refused: {}", i.label))
    } else {
        let mut p = base_profile(g);
        p.noise = if g.chance(50) { 60 } else { 0 };
        p.default_ns_pct = 40;
        p.tns_pct = 70;
        p.docs_pct = 15;
        p.form_pct = 10;
        let (set, _) = gen_set(g, &p);
        (print_set(&set, g), if set.files.len() > 1 { "several files" } else { "one file" }.to_string())
    };
    let main = files[0].1.clone();
    let (doc, at) = embed(&main, g)?;
    let base = *g.pick(&["", "/", "/."]);
    let name = *g.pick(&["main.xsd", "main.xsd", "absent.xsd"]);
    let reqs = vec![
        json!({"op": "schema", "path": format!("{}/main.xsd", DIR)}),
        json!({"op": "schema", "path": format!("{}/{}", DIR, name), "data": main}),
        json!({"op": "embedded", "doc": doc, "at": at, "base": format!("{}{}", DIR, base)}),
    ];
    Some(DCase {
        files, reqs, nontrivial: true, label,
        judge: Box::new(move |a| {
            for v in a {
                alive(v)?;
                if let Some(b) = v.get("bad") {
                    return Err(format!("unexpected: {}", b));
                }
            }
            let (file, text, emb) = (&a[0], &a[1], &a[2]);
            if file.get("err").is_none() {
                let f = bags(file)?;
                for (v, what) in [(text, "as text"), (emb, "inside another document")] {
                    let b = bags(v).map_err(|e| format!("{}: {}", what, e))?;
                    if let Some((x, y)) = f.iter().zip(&b).find(|(x, y)| x != y) {
                        return Err(format!("{} the schema gives other items: {} against {}", what, y, x));
                    }
                    if f.len() != b.len() {
                        return Err(format!("{} the schema gives {} items instead of {}", what, b.len(), f.len()));
                    }
                }
                return Ok(());
            }
            // the same fault is reported
            for k in ["err", "row", "col", "inner", "name"] {
                if file[k] != text[k] {
                    return Err(format!("as text the error is {} instead of {}", text, file));
                }
            }
            let local = |v: &Value| v["file"].as_str().map(|f| f.ends_with("/main.xsd") || f.ends_with("/absent.xsd")).unwrap_or(false);
            if local(file) && file["err"] == "xsd" {
                if emb["err"] != "xsd" || emb["text"] != file["inner"] {
                    return Err(format!("inside another document the error is {} instead of {}", emb, file));
                }
                let want = offset(&main, file["row"].as_u64().unwrap_or(1), file["col"].as_u64().unwrap_or(1));
                let (Some(o), Some(s)) = (want, emb["start"].as_u64().map(|x| x as usize)) else { return Err(format!("inside another document the error has no position: {}", emb)) };
                let nds = nodes(&main).unwrap();
                let (r0, r1) = (nds[0].start, nds[0].tag_end);
                let ok = if o < r1 {
                    // declarations may be missing from the start tag
                    s >= at && s < at + (r1 - r0)
                } else { main.len() - o >= 6 && doc.get(s..).map(|d| d.starts_with(&main[o..nds[0].end])).unwrap_or(false) };
                if !ok {
                    return Err(format!("inside another document the error is reported at {} instead of the place of {}", emb, file));
                }
            } else if emb["err"] != file["err"] || emb["row"] != file["row"] || emb["col"] != file["col"] || emb["inner"] != file["inner"] || emb["name"] != file["name"] {
                return Err(format!("inside another document the error is {} instead of {}", emb, file));
            }
            Ok(())
        }),
    })
}

// ------------------------------------------------------------------ C25

const NAMES: &[&str] = &["a", "b", "c", "A", "element", "elements", "ab"];
const URIS: &[&str] = &["urn:1", "urn:2", "http://www.w3.org/2001/XMLSchema", "URN:1", "urn:1/"];
const PFX: &[&str] = &["p", "q", "xs", "P"];
fn write(g: &mut Gen, depth: usize, scope: &[(String, String)], out: &mut String, budget: &mut usize) {
    let mut scope = scope.to_vec();
    let mut decl = String::new();
    for p in PFX.iter().copied().chain([""]) {
        if g.chance(18) {
            let u = *g.pick(URIS);
            decl.push_str(&if p.is_empty() { format!(" xmlns=\"{}\"", u) } else { format!(" xmlns:{}=\"{}\"", p, u) });
            scope.retain(|x| x.0 != p);
            scope.push((p.to_string(), u.to_string()));
        }
    }
    let pf: Vec<String> = scope.iter().map(|x| x.0.clone()).filter(|p| !p.is_empty()).collect();
    let name = *g.pick(NAMES);
    let q = if !pf.is_empty() && g.chance(60) { format!("{}:{}", g.pick(&pf), name) } else { name.to_string() };
    out.push_str(&format!("<{}{}", q, decl));
    for k in ["x", "y", "name", "type", "X", "Name"] {
        if g.chance(if k.starts_with(char::is_uppercase) { 12 } else { 30 }) {
            let v = if g.chance(70) { g.pick(&["1", "2", "", "a b"]).to_string() } else { gen_string(g, &LitCfg { wild: 30, ..Default::default() }) };
            out.push_str(&format!(" {}=\"{}\"", k, esc_attr(&v)));
        }
    }
    if !pf.is_empty() && g.chance(25) {
        out.push_str(&format!(" {}:{}=\"other\"", g.pick(&pf), g.pick(&["x", "z", "name"])));
    }
    out.push('>');
    let n = if depth == 0 { g.usize(0, 1) } else { g.usize(0, 7) };
    for _ in 0..n {
        match g.below(10) {
            0 => out.push_str("<!-- c -->"),
            1 => out.push_str("<?pi d?>"),
            2 => { let t = gen_string(g, &LitCfg { wild: 20, ..Default::default() }); out.push_str(&esc_text(&t)) }
            3 => out.push_str("\n  "),
            _ => if *budget > 0 && depth > 0 { *budget -= 1; write(g, depth - 1, &scope, out, budget) },
        }
    }
    out.push_str(&format!("</{}>", q));
}
type N<'a> = roxmltree::Node<'a, 'a>;
fn kids<'a>(n: &N<'a>) -> Vec<N<'a>> { n.children().filter(|c| c.is_element()).collect() }
fn is(n: &N, name: &str, ns: Option<&str>) -> bool { n.tag_name().name() == name && n.tag_name().namespace() == ns }
fn pos(n: &N) -> Value { json!([n.range().start, n.range().end]) }
/// an accepted answer: exactly this, or one of several
enum Exp { Is(Value), OneOf(Vec<Value>) }
fn gen_c25(g: &mut Gen) -> Option<DCase> {
    let mut xml = String::new();
    let mut budget = 30;
    write(g, 3, &[], &mut xml, &mut budget);
    let doc = roxmltree::Document::parse(&xml).ok()?;
    let all: Vec<N> = doc.descendants().filter(|n| n.is_element()).collect();
    struct Slot<'a> { n: N<'a>, seen: Vec<String> }
    let mut slots: Vec<Option<Slot>> = vec![Some(Slot { n: doc.root_element(), seen: vec![] })];
    let mut ops: Vec<Value> = vec![];
    let mut exp: Vec<Exp> = vec![];
    let mut asked = 0;
    for _ in 0..g.usize(4, 40) {
        let live: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].is_some()).collect();
        let w: Vec<u32> = live.iter().map(|i| { let n = slots[*i].as_ref().unwrap().n; 1 + 2 * kids(&n).len() as u32 + n.attributes().len() as u32 }).collect();
        let si = live[g.weighted(&w)];
        let me = slots[si].as_ref().unwrap().n;
        let ks = kids(&me);
        let target = |g: &mut Gen| -> (String, Option<String>) {
            let n = if !ks.is_empty() && g.chance(80) { *g.pick(&ks) } else { *g.pick(&all) };
            let ns = if g.chance(88) { n.tag_name().namespace().map(|s| s.to_string()) } else if g.chance(50) { None } else { Some(g.pick(URIS).to_string()) };
            (if g.chance(92) { n.tag_name().name().to_string() } else { g.pick(NAMES).to_string() }, ns)
        };
        let attrs: Vec<(String, String, usize, usize)> = me.attributes().filter(|a| a.namespace().is_none()).map(|a| (a.name().to_string(), a.value().to_string(), a.range().start, a.range().end)).collect();
        match g.below(15) {
            0 => {
                ops.push(json!(["self", si]));
                exp.push(Exp::Is(json!([me.tag_name().name(), me.tag_name().namespace(), me.range().start, me.range().end, me.default_namespace()])));
            }
            1 | 2 => {
                let (n, ns) = target(g);
                let hit = ks.iter().copied().find(|c| is(c, &n, ns.as_deref()));
                if g.chance(50) {
                    ops.push(json!(["child", si, n, ns]));
                    exp.push(Exp::Is(hit.as_ref().map(pos).unwrap_or(Value::Null)));
                } else {
                    ops.push(json!(["try_child", si, n, ns]));
                    exp.push(Exp::Is(hit.as_ref().map(pos).unwrap_or_else(|| json!({"err": "MissingElement", "name": n, "ns": ns, "range": pos(&me)}))));
                }
                asked += hit.is_some() as usize;
                slots.push(hit.map(|n| Slot { n, seen: vec![] }));
            }
            3 | 4 | 5 => {
                let (n, ns) = target(g);
                let name = if g.chance(60) { Some(n) } else { None };
                let ns = if g.chance(60) { ns } else { None };
                let at = if g.chance(50) {
                    let a: Vec<(String, String)> = ks.iter().flat_map(|c| c.attributes().filter(|a| a.namespace().is_none()).map(|a| (a.name().to_string(), a.value().to_string())).collect::<Vec<_>>()).collect();
                    if !a.is_empty() && g.chance(85) { Some(g.pick(&a).clone()) } else { Some(("x".to_string(), "1".to_string())) }
                } else { None };
                let hits: Vec<N> = ks.iter().copied().filter(|c| {
                    name.as_deref().map(|n| c.tag_name().name() == n).unwrap_or(true)
                        && ns.as_deref().map(|u| c.tag_name().namespace() == Some(u)).unwrap_or(true)
                        && at.as_ref().map(|(k, v)| c.attributes().any(|a| a.namespace().is_none() && a.name() == k && a.value() == v)).unwrap_or(true)
                }).collect();
                asked += hits.len();
                let (k, v) = match &at { Some((k, v)) => (Some(k.clone()), Some(v.clone())), None => (None, None) };
                if g.chance(60) {
                    ops.push(json!(["iter", si, name, ns, k, v]));
                    exp.push(Exp::Is(json!(hits.iter().map(pos).collect::<Vec<_>>())));
                } else {
                    ops.push(json!(["find", si, name, ns, k, v]));
                    let hit = hits.first().copied();
                    exp.push(Exp::Is(hit.as_ref().map(pos).unwrap_or_else(|| json!({"err": "ElementNotFound", "name": name, "ns": ns, "attr": k, "value": v, "range": pos(&me)}))));
                    slots.push(hit.map(|n| Slot { n, seen: vec![] }));
                }
            }
            6 | 7 => {
                let ns = if g.chance(50) { ks.first().and_then(|k| k.tag_name().namespace()).map(|s| s.to_string()) } else { None };
                let mut rest: Vec<N> = ks.iter().copied().filter(|c| ns.as_deref().map(|u| c.tag_name().namespace() == Some(u)).unwrap_or(true)).collect();
                let mut rs = vec![];
                let mut ex = vec![];
                let n = if g.chance(60) { rest.len() + 1 } else { g.usize(0, 4) };
                for _ in 0..n {
                    let (name, u) = if !rest.is_empty() && g.chance(85) { let n = *g.pick(&rest); (n.tag_name().name().to_string(), n.tag_name().namespace().map(|s| s.to_string())) } else { target(g) };
                    let at = rest.iter().position(|c| is(c, &name, u.as_deref()));
                    let tr = g.chance(40);
                    rs.push(json!([if tr { "try" } else { "" }, name, u]));
                    ex.push(match at {
                        Some(i) => { asked += 1; pos(&rest.remove(i)) }
                        None if tr => json!({"err": "MissingElement", "name": name, "ns": u, "range": pos(&me)}),
                        None => Value::Null,
                    });
                }
                ex.push(match rest.first() { None => json!("none left"), Some(c) => json!({"err": "UnsupportedElement", "name": c.tag_name().name(), "parent": me.tag_name().name(), "range": pos(c)}) });
                ops.push(json!(["collect", si, ns, rs]));
                exp.push(Exp::Is(json!(ex)));
            }
            8 | 9 => {
                let k = if !attrs.is_empty() && g.chance(80) { g.pick(&attrs).0.clone() } else { g.pick(&["x", "y", "z", "p:x", "", "X", "Y", "name", "Name", "nam", "name "]).to_string() };
                let hit = attrs.iter().find(|a| a.0 == k);
                let tr = g.chance(50);
                ops.push(json!([if tr { "try_attr" } else { "attr" }, si, k]));
                exp.push(Exp::Is(match hit {
                    Some(a) => json!([a.1, null, a.2, a.3]),
                    None if tr => json!({"err": "MissingAttribute", "name": k, "element": me.tag_name().name(), "range": pos(&me)}),
                    None => Value::Null,
                }));
                if hit.is_some() {
                    asked += 1;
                    slots[si].as_mut().unwrap().seen.push(k);
                }
            }
            10 | 14 => {
                // ask for most of what is there, and for names that only look alike
                if g.chance(60) {
                    for k in ["x", "y", "name", "type", "X", "Name", "z", "Y"] {
                        let hit = attrs.iter().find(|a| a.0 == k);
                        if g.chance(if hit.is_some() { 75 } else { 40 }) {
                            ops.push(json!(["attr", si, k]));
                            exp.push(Exp::Is(hit.map(|a| json!([a.1, null, a.2, a.3])).unwrap_or(Value::Null)));
                            if hit.is_some() {
                                slots[si].as_mut().unwrap().seen.push(k.to_string());
                            }
                        }
                    }
                }
                let seen = &slots[si].as_ref().unwrap().seen;
                let left: Vec<Value> = attrs.iter().filter(|a| !seen.contains(&a.0)).map(|a| json!({"err": "UnsupportedAttribute", "name": a.0, "element": me.tag_name().name(), "range": [a.2, a.3]})).collect();
                ops.push(json!(["unvisited", si]));
                exp.push(if left.is_empty() { Exp::Is(json!("none left")) } else { Exp::OneOf(left) });
            }
            11 => {
                let t = me.first_child().filter(|c| c.is_text()).and_then(|c| c.text());
                if g.chance(50) {
                    ops.push(json!(["text", si]));
                    exp.push(Exp::Is(json!(t)));
                } else {
                    ops.push(json!(["try_text", si]));
                    exp.push(Exp::Is(t.map(|t| json!(t)).unwrap_or_else(|| json!({"err": "TextExpected", "name": me.tag_name().name(), "range": pos(&me)}))));
                }
            }
            12 => {
                let u = g.pick(&["urn:1", "urn:2", "http://www.w3.org/2001/XMLSchema", "urn:none", "URN:1", "urn:1/"]).to_string();
                ops.push(json!(["prefix", si, u]));
                let fits: Vec<Value> = PFX.iter().filter(|p| me.lookup_namespace_uri(Some(p)) == Some(&u)).map(|p| json!(p)).collect();
                // a namespace that is only the default one may be said to have no prefix
                let dflt = me.default_namespace() == Some(&u);
                let none = json!({"err": "MissingNamespace", "uri": u, "range": pos(&me)});
                exp.push(if fits.is_empty() && !dflt { Exp::Is(none) } else if fits.is_empty() { Exp::OneOf(vec![none, json!("")]) } else if dflt { Exp::OneOf([fits, vec![json!(""), none]].concat()) } else { Exp::OneOf(fits) });
            }
            _ => {
                let p = g.pick(&["p", "q", "xs", "none", "P", "Q"]).to_string();
                ops.push(json!(["uri", si, p]));
                exp.push(Exp::Is(me.lookup_namespace_uri(Some(&p)).map(|u| json!(u)).unwrap_or_else(|| json!({"err": "MissingNamespace", "uri": p, "range": pos(&me)}))));
            }
        }
    }
    Some(DCase {
        files: vec![], nontrivial: asked > 1, label: format!("{} queries", ops.len() / 10 * 10), reqs: vec![json!({"op": "nodes", "xml": xml, "ops": ops})],
        judge: Box::new(move |a| {
            alive(&a[0])?;
            let Some(out) = a[0]["out"].as_array() else { return Err(format!("the document is refused: {}", a[0])) };
            for (i, (e, o)) in exp.iter().zip(out).enumerate() {
                let o = &messages(o).map_err(|m| format!("query {} {}: {}", i, ops[i], m))?;
                let ok = match e { Exp::Is(v) => v == o, Exp::OneOf(v) => v.contains(o) };
                if !ok {
                    let e = match e { Exp::Is(v) => v.to_string(), Exp::OneOf(v) => format!("one of {}", json!(v)) };
                    return Err(format!("query {} {} gives {} instead of {}", i, ops[i], o, e));
                }
            }
            if exp.len() != out.len() { Err("queries without an answer".to_string()) } else { Ok(()) }
        }),
    })
}
/// takes the messages out of errors, which have to name what the error is about
fn messages(v: &Value) -> Result<Value, String> {
    match v {
        Value::Array(a) => Ok(Value::Array(a.iter().map(messages).collect::<Result<_, _>>()?)),
        Value::Object(o) => {
            let text = o.get("text").and_then(|t| t.as_str()).unwrap_or("");
            for k in ["name", "element", "parent", "uri", "ns", "attr", "value"] {
                if let Some(n) = o.get(k).and_then(|n| n.as_str()) {
                    if !text.contains(n) && n.chars().all(|c| c.is_ascii_alphanumeric() || "-_.:/".contains(c)) {
                        return Err(format!("the message does not name {:?}: {}", n, text));
                    }
                }
            }
            Ok(Value::Object(o.iter().filter(|x| x.0 != "text").map(|(k, v)| (k.clone(), v.clone())).collect()))
        }
        v => Ok(v.clone()),
    }
}

pub fn direct(id: &str) -> Option<Direct> {
    let d = |id, n, rule, gen| Direct { id, n, rule, gen, exe: crate::batch::vnode };
    Some(match id {
        "C24" => d("C24", (8000, 300000), "one schema set (supported, or with one unsupported thing) handed in as a file, as text, and inside another document with some namespace declarations outside; every case counts", gen_c24),
        "C25" => d("C25", (120000, 3000000), "a random document and a random history of queries on its nodes, against the independent parser's tree; non-trivial = at least two things are found", gen_c25),
        _ => return None,
    })
}
