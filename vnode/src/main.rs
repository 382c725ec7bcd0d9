//! Worker process around the schema side's own document API: embedded schemas and schema nodes.
#[path = "../../vprobe/src/common.rs"]
mod common;
use common::{err, items};
use serde_json::{json, Value};
use std::path::Path;
use xsd_internal::xsd::node::{Node, NodeError};
use xsd_internal::xsd::schema::{ParseError, Schema};

fn embedded(q: &Value) -> Value {
    let text = q["doc"].as_str().unwrap();
    let doc = match roxmltree::Document::parse(text) { Ok(d) => d, Err(e) => return json!({"bad": e.to_string()}) };
    let at = q["at"].as_u64().unwrap() as usize;
    let Some(n) = doc.descendants().find(|n| n.is_element() && n.range().start == at) else { return json!({"bad": "no such node"}) };
    let s = match Schema::parse_schema(&Node::from(n), Path::new(q["base"].as_str().unwrap())) {
        Ok(s) => s,
        Err(ParseError::Schema(e)) => return err(&e),
        Err(e @ ParseError::Xsd(_)) => {
            let start = e.range().map(|r| r.start);
            return json!({"err": "xsd", "text": e.to_string(), "start": start});
        }
    };
    match s.generate_all() {
        Ok(t) => items(t, true),
        Err(e) => err(&e),
    }
}

fn schema(q: &Value) -> Value {
    let path = q["path"].as_str().unwrap();
    let s = match q["data"].as_str() {
        Some(d) => Schema::parse(d, path),
        None => Schema::parse_file(path),
    };
    match s.and_then(|s| s.generate_all()) {
        Ok(t) => items(t, true),
        Err(e) => err(&e),
    }
}

fn fail(e: NodeError) -> Value {
    let range = e.range().map(|r| json!([r.start, r.end]));
    let text = e.to_string();
    match e {
        NodeError::MissingElement { name, namespace, .. } => json!({"err": "MissingElement", "name": name, "ns": namespace, "range": range, "text": text}),
        NodeError::ElementNotFound { element_name, element_namespace, attribute_name, attribute_value, .. } => json!({"err": "ElementNotFound", "name": element_name, "ns": element_namespace, "attr": attribute_name, "value": attribute_value, "range": range, "text": text}),
        NodeError::MissingAttribute { name, element, .. } => json!({"err": "MissingAttribute", "name": name, "element": element, "range": range, "text": text}),
        NodeError::TextExpected { name, .. } => json!({"err": "TextExpected", "name": name, "range": range, "text": text}),
        NodeError::UnsupportedAttribute { name, element, .. } => json!({"err": "UnsupportedAttribute", "name": name, "element": element, "range": range, "text": text}),
        NodeError::UnsupportedElement { name, parent, .. } => json!({"err": "UnsupportedElement", "name": name, "parent": parent, "range": range, "text": text}),
        NodeError::MissingNamespace { uri, .. } => json!({"err": "MissingNamespace", "uri": uri, "range": range, "text": text}),
        #[allow(unreachable_patterns)]
        _ => json!({"err": "other", "range": range, "text": text}),
    }
}
fn nodes(q: &Value) -> Value {
    let text = q["xml"].as_str().unwrap();
    let doc = match roxmltree::Document::parse(text) { Ok(d) => d, Err(e) => return json!({"bad": e.to_string()}) };
    // nodes are numbered as they are handed out
    let mut slots: Vec<Option<Node>> = vec![Some(Node::from(doc.root_element()))];
    let mut out = vec![];
    for op in q["ops"].as_array().unwrap() {
        let k = op[0].as_str().unwrap();
        let slot = op[1].as_u64().unwrap() as usize;
        let s = |i: usize| op[i].as_str();
        let Some(n) = slots[slot].as_ref() else { out.push(json!("no node")); continue };
        let pos = |n: &Node| { let r = n.range(); json!([r.start, r.end]) };
        let mut new = None;
        let v = match k {
            "self" => json!([n.name(), n.namespace(), n.range().start, n.range().end, n.default_namespace()]),
            "child" => { new = Some(n.child(s(2).unwrap(), s(3))); json!(new.as_ref().unwrap().as_ref().map(pos)) }
            "try_child" => match n.try_child(s(2).unwrap(), s(3)) {
                Ok(c) => { let p = pos(&c); new = Some(Some(c)); p }
                Err(e) => { new = Some(None); fail(e) }
            },
            "iter" | "find" => {
                let mut f = n.children();
                if let Some(x) = s(2) { f = f.element(x) }
                if let Some(x) = s(3) { f = f.namespace(x) }
                if let (Some(x), Some(y)) = (s(4), s(5)) { f = f.attribute(x, y) }
                if k == "iter" { json!(f.iter().map(|c| pos(&c)).collect::<Vec<_>>()) } else {
                    match f.try_find() { Ok(c) => { let p = pos(&c); new = Some(Some(c)); p } Err(e) => { new = Some(None); fail(e) } }
                }
            }
            "collect" => {
                let mut f = n.children();
                if let Some(x) = s(2) { f = f.namespace(x) }
                let mut c = f.collect();
                let mut a = vec![];
                for r in op[3].as_array().unwrap() {
                    let (name, ns) = (r[1].as_str().unwrap(), r[2].as_str());
                    a.push(if r[0] == "try" {
                        match c.try_remove(name, ns) { Ok(c) => pos(&c), Err(e) => fail(e) }
                    } else { json!(c.remove(name, ns).as_ref().map(pos)) });
                }
                a.push(match c.prevent_unvisited_children() { Ok(()) => json!("none left"), Err(e) => fail(e) });
                json!(a)
            }
            "attr" => match n.attribute(s(2).unwrap()) { Some(a) => json!([a.value(), a.namespace(), a.range().start, a.range().end]), None => json!(null) },
            "try_attr" => match n.try_attribute(s(2).unwrap()) { Ok(a) => json!([a.value(), a.namespace(), a.range().start, a.range().end]), Err(e) => fail(e) },
            "unvisited" => match n.prevent_unvisited_attributes() { Ok(()) => json!("none left"), Err(e) => fail(e) },
            "text" => json!(n.text()),
            "try_text" => match n.try_text() { Ok(t) => json!(t), Err(e) => fail(e) },
            "prefix" => match n.try_namespace_prefix(s(2).unwrap()) { Ok(t) => json!(t), Err(e) => fail(e) },
            "uri" => match n.try_namespace_uri(s(2).unwrap()) { Ok(t) => json!(t), Err(e) => fail(e) },
            o => panic!("unknown {}", o),
        };
        out.push(v);
        if let Some(x) = new {
            slots.push(x);
        }
    }
    json!({"out": out})
}

fn main() {
    common::serve(|q| match q["op"].as_str().unwrap() {
        "schema" => schema(q),
        "embedded" => embedded(q),
        "nodes" => nodes(q),
        o => panic!("unknown op {}", o),
    })
}
