//! Checks of the runtime library: C16 (document cursor) and C17 (writer context).
use crate::direct::{alive, DCase, Direct};
use crate::inst::{gen_string, LitCfg};
use crate::model::{esc_attr, esc_text};
use crate::tape::Gen;
use serde_json::{json, Value};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C16

const NAMES: &[&str] = &["a", "b", "c", "A"];
const NSS: &[Option<&str>] = &[None, Some("urn:1"), Some("urn:2")];
/// writes an element; `dflt` is the default namespace in scope
fn write_el(g: &mut Gen, depth: usize, dflt: Option<&str>, out: &mut String, budget: &mut usize) {
    let name = *g.pick(NAMES);
    let ns = *g.pick(NSS);
    let mut decl = String::new();
    let mut inner = dflt;
    let q = match ns {
        Some(u) if g.chance(60) => {
            decl.push_str(&format!(" xmlns:p=\"{}\"", u));
            format!("p:{}", name)
        }
        ns => {
            if ns != dflt || g.chance(10) {
                decl.push_str(&format!(" xmlns=\"{}\"", ns.unwrap_or("")));
            }
            inner = ns;
            name.to_string()
        }
    };
    out.push_str(&format!("<{}{}", q, decl));
    for k in ["x", "y", "a"] {
        if g.chance(25) {
            let v = gen_string(g, &LitCfg { wild: 30, ..Default::default() });
            out.push_str(&format!(" {}=\"{}\"", k, esc_attr(&v)));
        }
    }
    if decl.contains("xmlns:p") && g.chance(30) {
        out.push_str(" p:x=\"namespaced\"");
    }
    out.push('>');
    let n = if depth == 0 { 0 } else if g.chance(3) { g.usize(8, 40) } else { g.usize(0, 6) };
    for _ in 0..n {
        match g.below(9) {
            0 => out.push_str("<!-- c -->"),
            1 => out.push_str("<?pi d?>"),
            2 => { let t = gen_string(g, &LitCfg { wild: 20, ..Default::default() }); out.push_str(&esc_text(&t)) }
            3 => out.push_str("<![CDATA[x<y]]>"),
            4 => out.push_str("\n  "),
            _ => if *budget > 0 { *budget -= 1; write_el(g, depth - 1, inner, out, budget) },
        }
    }
    out.push_str(&format!("</{}>", q));
}
fn named(n: &roxmltree::Node, name: &str, ns: Option<&str>) -> bool {
    n.tag_name().name() == name && n.tag_name().namespace().filter(|s| !s.is_empty()) == ns
}
fn gen_c16(g: &mut Gen) -> Option<DCase> {
    let mut xml = String::new();
    let budget_big = g.chance(5);
    let mut budget = if budget_big { 90 } else { 30 };
    write_el(g, 3, None, &mut xml, &mut budget);
    let doc = roxmltree::Document::parse(&xml).ok()?;
    let root = doc.root_element();
    // slots: a node and what remains of its children
    let mut slots: Vec<Option<(roxmltree::Node, Vec<roxmltree::Node>)>> = vec![];
    let mut ops: Vec<Value> = vec![];
    let mut exp: Vec<Value> = vec![];
    let kids = |n: roxmltree::Node<'_, '_>| -> usize { n.children().filter(|c| c.is_element()).count() };
    let node = |n: &roxmltree::Node| json!({"node": [n.range().start, n.range().end]});
    let mut consumed = 0;
    let mut ooo = 0;
    let len = if budget_big { g.usize(20, 160) } else { g.usize(4, 40) };
    for k in 0..len {
        let live: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].is_some()).collect();
        // mostly names that occur
        let all: Vec<roxmltree::Node> = doc.descendants().filter(|n| n.is_element()).collect();
        let (mut name, mut ns) = if g.chance(15) { (g.pick(NAMES).to_string(), *g.pick(NSS)) } else {
            let n = g.pick(&all);
            (n.tag_name().name().to_string(), n.tag_name().namespace().filter(|s| !s.is_empty()))
        };
        if k == 0 || live.is_empty() || g.chance(6) {
            if k == 0 || g.chance(60) {
                name = root.tag_name().name().to_string();
                ns = root.tag_name().namespace().filter(|s| !s.is_empty());
            }
            let tr = g.chance(50);
            ops.push(json!([if tr { "try_root" } else { "root" }, 0, name, ns]));
            if named(&root, &name, ns) {
                exp.push(node(&root));
                slots.push(Some((root, root.children().filter(|c| c.is_element()).collect())));
            } else {
                exp.push(if tr { json!({"err": "MissingElement", "name": name, "ns": ns}) } else { json!({ "node": null }) });
                slots.push(None);
            }
            continue;
        }
        // prefer slots with children
        let si = { let w: Vec<u32> = live.iter().map(|i| 1 + 2 * slots[*i].as_ref().unwrap().1.len() as u32).collect(); live[g.weighted(&w)] };
        let (me, rest) = slots[si].clone().unwrap();
        if g.chance(75) && !rest.is_empty() {
            // a name of this element's children
            let c = if g.chance(50) { rest[0] } else { *g.pick(&rest) };
            name = c.tag_name().name().to_string();
            if g.chance(90) {
                ns = c.tag_name().namespace().filter(|s| !s.is_empty());
            }
        }
        match g.below(12) {
            0 | 1 => {
                ops.push(json!(["peek", si, name, ns]));
                exp.push(json!(rest.first().map(|c| named(c, &name, ns)).unwrap_or(false)));
            }
            2 => {
                let a = *g.pick(&["x", "y", "a", "b", "p:x"]);
                let v = me.attributes().find(|t| t.namespace().is_none() && t.name() == a).map(|t| t.value().to_string());
                if g.chance(50) {
                    ops.push(json!(["attr", si, a, null]));
                    exp.push(json!({ "attr": v }));
                } else {
                    ops.push(json!(["try_attr", si, a, null]));
                    exp.push(match v { Some(v) => json!({ "attr": v }), None => json!({"err": "MissingAttribute", "name": a}) });
                }
            }
            3 => {
                ops.push(json!(["text", si, "", null]));
                exp.push(if kids(me) > 0 { json!({"err": "TextExpected", "name": me.tag_name().name()}) } else {
                    json!({"text": me.children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("")).collect::<String>()})
                });
            }
            4 => {
                ops.push(json!(["range", si, "", null]));
                exp.push(json!([me.range().start, me.range().end]));
            }
            o => {
                let next = o < 8;
                let tr = g.chance(50);
                let op = match (next, tr) { (true, false) => "next", (true, true) => "try_next", (false, false) => "child", (false, true) => "try_child" };
                ops.push(json!([op, si, name, ns]));
                let at = if next { rest.first().filter(|c| named(c, &name, ns)).map(|_| 0) } else { rest.iter().position(|c| named(c, &name, ns)) };
                match at {
                    Some(i) => {
                        consumed += 1;
                        if i > 0 { ooo += 1 }
                        let c = slots[si].as_mut().unwrap().1.remove(i);
                        exp.push(node(&c));
                        slots.push(Some((c, c.children().filter(|c| c.is_element()).collect())));
                    }
                    None => {
                        exp.push(if tr { json!({"err": "MissingElement", "name": name, "ns": ns}) } else { json!({ "node": null }) });
                        slots.push(None);
                    }
                }
            }
        }
    }
    let label = if ooo > 0 { "with out-of-order access" } else { "in order" }.to_string();
    Some(DCase {
        files: vec![], nontrivial: consumed > 1, label, reqs: vec![json!({"op": "cursor", "xml": xml, "ops": ops})],
        judge: Box::new(move |a| {
            alive(&a[0])?;
            let Some(out) = a[0]["out"].as_array() else { return Err(format!("the document is refused: {}", a[0])) };
            for (i, (e, o)) in exp.iter().zip(out).enumerate() {
                if e != o {
                    return Err(format!("operation {} {} gives {} instead of {}", i, ops[i], o, e));
                }
            }
            if exp.len() != out.len() { Err("operations without an answer".to_string()) } else { Ok(()) }
        }),
    })
}

// ------------------------------------------------------------------ C17

type Ns = BTreeMap<String, String>;
#[derive(Clone, Debug)]
struct El { name: (Option<String>, String), attrs: Vec<(Option<String>, String, String)>, ns: Ns, text: String, kids: Vec<El> }

/// what each prefix stands for on the ancestors
type History = Vec<Ns>;
struct Wg<'a> { g: &'a mut Gen, hist: History, features: BTreeMap<&'static str, u32> }
const URIS: &[&str] = &["urn:1", "urn:2", "http://example.com/a?b=1&c=2", "urn:\"q\"", "urn:<x>"];
const PFX: &[&str] = &["p", "q", "ns1", "ns2"];
impl Wg<'_> {
    fn hit(&mut self, f: &'static str) { *self.features.entry(f).or_default() += 1; }
    /// known finding: the writer does not declare a prefix again that an ancestor bound to the same
    /// namespace, even if another one in between binds it differently
    fn uri(&mut self, own: &Ns, p: &str) -> String {
        if let Some(u) = own.get(p) {
            return u.clone();
        }
        let cur = self.hist.last().and_then(|h| h.get(p)).cloned();
        let c: Vec<&str> = URIS.iter().copied().filter(|u| cur.as_deref() == Some(*u) || !self.hist.iter().any(|h| h.get(p).map(|x| x == u).unwrap_or(false))).collect();
        if c.is_empty() { cur.unwrap() } else { self.g.pick(&c).to_string() }
    }
    /// sets attributes and namespaces, partly through wrapped contexts; tags written there are none
    fn sets(&mut self, ops: &mut Vec<Value>, own: &mut Ns, attrs: &mut Vec<(String, String)>, depth: usize, n: usize) {
        for _ in 0..n {
            match self.g.below(8) {
                0 | 1 => {
                    let p = self.g.pick(PFX).to_string();
                    // setting a prefix again to the same namespace is common, to another one is not done
                    let u = self.uri(own, &p);
                    ops.push(json!(["ns", p, u]));
                    own.insert(p, u);
                }
                2 => {
                    let u = self.uri(own, "");
                    ops.push(json!(["default", u]));
                    own.insert(String::new(), u);
                    self.hit("default namespace");
                }
                3 | 4 if depth > 0 => {
                    let mut inner = vec![];
                    let m = self.g.usize(0, 3);
                    let tags = self.g.chance(60);
                    self.sets(&mut inner, own, attrs, depth - 1, m);
                    if tags {
                        inner.push(json!(["start"]));
                        let m = self.g.usize(0, 1);
                        // a wrapped context goes on collecting for the enclosing element
                        self.sets(&mut inner, own, attrs, depth - 1, m);
                        inner.push(json!(["end"]));
                        self.hit("wrapped context writing tags");
                    }
                    ops.push(json!(["wrap", inner]));
                    self.hit("wrapped context");
                }
                _ => {
                    let k = format!("{}{}", self.g.pick(&["x", "Y", "long-name", "\u{e9}"]), attrs.len());
                    let v = gen_string(self.g, &LitCfg { wild: 50, ..Default::default() }).replace('\t', " ");
                    ops.push(json!(["attr", k, v]));
                    attrs.push((k, v));
                }
            }
        }
    }
    /// One context and the elements it writes: usually one, sometimes another one of the same name after it.
    fn element(&mut self, scope: &Ns, depth: usize, root: bool) -> (String, Vec<Value>, Vec<El>) {
        let again = if !root && self.g.chance(8) { self.g.usize(1, 2) } else { 0 };
        let mut ops = vec![];
        let mut q: Option<(String, String, String)> = None;
        let mut els = vec![];
        for round in 0..=again {
            let mut one = vec![];
            let el = self.once(scope, depth, &mut one, &mut q, again > 0);
            if round > 0 {
                self.hit("context used again");
            }
            ops.extend(one);
            els.push(el);
        }
        let (p, l, _) = q.unwrap();
        (if p.is_empty() { l } else { format!("{}:{}", p, l) }, ops, els)
    }
    /// `q`: prefix, local name and namespace of the context's element, once they are known
    fn once(&mut self, scope: &Ns, depth: usize, ops: &mut Vec<Value>, q: &mut Option<(String, String, String)>, again: bool) -> El {
        let mut own = Ns::new();
        let mut attrs = vec![];
        let n = if self.g.chance(4) { self.g.usize(7, 25) } else { self.g.usize(0, 6) };
        self.sets(ops, &mut own, &mut attrs, 2, n);
        if let Some((p, _, u)) = q {
            // the prefix of the name has to be declared again
            if !p.is_empty() && !own.contains_key(p) && !scope.contains_key(p) {
                ops.push(json!(["ns", p, u]));
                own.insert(p.clone(), u.clone());
            }
        }
        let mut ns = scope.clone();
        ns.extend(own);
        let pfx: Vec<String> = ns.keys().filter(|p| !p.is_empty()).cloned().collect();
        if q.is_none() {
            let local = self.g.pick(&["el", "E", "b-c", "_x"]).to_string();
            let p = if !pfx.is_empty() && self.g.chance(40) { self.g.pick(&pfx).clone() } else { String::new() };
            *q = Some((p.clone(), local, ns.get(&p).cloned().unwrap_or_default()));
        }
        let (p, local, _) = q.clone().unwrap();
        let uri = ns.get(&p).cloned();
        // some attributes belong to a namespace
        let mut ats = vec![];
        for (k, v) in attrs {
            if !pfx.is_empty() && self.g.chance(15) {
                let p = self.g.pick(&pfx).clone();
                rename(ops, &k, &format!("{}:{}", p, k));
                ats.push((ns.get(&p).cloned(), k, v));
            } else {
                ats.push((None, k, v));
            }
        }
        ops.push(json!(["start"]));
        let mut el = El { name: (uri, local), attrs: ats, ns, text: String::new(), kids: vec![] };
        self.hist.push(el.ns.clone());
        let n = if depth == 0 { 0 } else { self.g.usize(0, 3) };
        let late = |me: &mut Self, ops: &mut Vec<Value>| {
            if !again && me.g.chance(12) {
                // too late for this element, and no business of any other
                ops.push(match me.g.below(3) { 0 => json!(["attr", "late", "1"]), 1 => json!(["ns", "late", "urn:late"]), _ => json!(["default", "urn:late"]) });
                me.hit("set after the start");
            }
        };
        late(self, ops);
        if n == 0 && self.g.chance(60) {
            el.text = gen_string(self.g, &LitCfg { wild: 40, ..Default::default() }).replace('\r', "");
            ops.push(json!(["text", el.text]));
        }
        for _ in 0..n {
            let (q, o, k) = self.element(&el.ns, depth - 1, false);
            let new = json!(["new", q, o]);
            if self.g.chance(25) {
                // as the content of a group
                let mut inner = vec![json!(["start"]), new, json!(["end"])];
                late(self, &mut inner);
                ops.push(json!(["wrap", inner]));
                self.hit("child within a wrapped context");
            } else {
                ops.push(new);
            }
            el.kids.extend(k);
            late(self, ops);
        }
        ops.push(json!(["end"]));
        self.hist.pop();
        el
    }
}
fn rename(ops: &mut [Value], k: &str, new: &str) {
    for o in ops {
        match o[0].as_str() {
            Some("attr") if o[1] == k => o[1] = json!(new),
            Some("wrap") => rename(o[1].as_array_mut().unwrap(), k, new),
            _ => {}
        }
    }
}
fn same(e: &El, n: roxmltree::Node, path: &str) -> Result<(), String> {
    let name = (n.tag_name().namespace().filter(|s| !s.is_empty()).map(|s| s.to_string()), n.tag_name().name().to_string());
    let path = format!("{}/{}", path, e.name.1);
    if name != e.name {
        return Err(format!("{}: element {:?} instead of {:?}", path, name, e.name));
    }
    let at: Vec<(Option<String>, String, String)> = n.attributes().map(|a| (a.namespace().map(|s| s.to_string()), a.name().to_string(), a.value().to_string())).collect();
    if at != e.attrs {
        return Err(format!("{}: attributes {:?} instead of {:?}", path, at, e.attrs));
    }
    let ns: Ns = n.namespaces().map(|x| (x.name().unwrap_or("").to_string(), x.uri().to_string())).filter(|x| x.0 != "xml").collect();
    if ns != e.ns {
        return Err(format!("{}: namespaces in scope {:?} instead of {:?}", path, ns, e.ns));
    }
    let kids: Vec<roxmltree::Node> = n.children().filter(|c| c.is_element()).collect();
    if kids.len() != e.kids.len() {
        return Err(format!("{}: {} children instead of {}", path, kids.len(), e.kids.len()));
    }
    let text: String = n.children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("")).collect();
    if kids.is_empty() {
        if text != e.text {
            return Err(format!("{}: text {:?} instead of {:?}", path, text, e.text));
        }
    } else if !text.trim().is_empty() {
        return Err(format!("{}: unexpected text {:?}", path, text));
    }
    for (k, c) in e.kids.iter().zip(kids) {
        same(k, c, &path)?;
    }
    Ok(())
}
fn count(e: &El) -> usize { 1 + e.kids.iter().map(count).sum::<usize>() }
fn gen_c17(g: &mut Gen) -> Option<DCase> {
    let depth = g.usize(0, 4);
    let indent = g.chance(50);
    let mut w = Wg { g, hist: vec![], features: Default::default() };
    let (q, ops, els) = w.element(&Ns::new(), depth, true);
    let el = els.into_iter().next().unwrap();
    let f = w.features;
    let label = if f.contains_key("context used again") { "context used again" } else if f.contains_key("set after the start") { "late settings" } else if f.contains_key("wrapped context writing tags") || f.contains_key("child within a wrapped context") { "wrapped tags" } else if f.contains_key("wrapped context") { "wrapped settings" } else { "plain" };
    Some(DCase {
        files: vec![], nontrivial: count(&el) > 1 || !el.attrs.is_empty(), label: label.into(),
        reqs: vec![json!({"op": "writer", "name": q, "ops": ops, "indent": indent})],
        judge: Box::new(move |a| {
            alive(&a[0])?;
            if let Some(e) = a[0].get("err") {
                return Err(format!("writing fails: {}", e));
            }
            let x = a[0]["xml"].as_str().unwrap_or("");
            let d = roxmltree::Document::parse(x).map_err(|e| format!("not well-formed: {}: {}", e, x))?;
            same(&el, d.root_element(), "").map_err(|e| format!("{} in {}", e, x))
        }),
    })
}

pub fn direct(id: &str) -> Option<Direct> {
    let d = |id, n, rule, gen| Direct { id, n, rule, gen, exe: crate::batch::vprobe };
    Some(match id {
        "C16" => d("C16", (150000, 3000000), "a random document and a random history of cursor operations on several of its elements, against a list model; non-trivial = at least two children are consumed", gen_c16),
        "C17" => d("C17", (150000, 3000000), "a random tree of writing contexts with attributes and namespaces set directly, through wrapped contexts and after the start, against the tree an independent parser must see; non-trivial = more than one element or an attribute", gen_c17),
        _ => return None,
    })
}
