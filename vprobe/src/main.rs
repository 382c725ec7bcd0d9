//! Worker process around the crates of /repo: reads framed JSON requests, answers with JSON.
//! Panics are caught and reported; aborts (stack overflow, out of memory) end the process.
mod common;
use common::{err, items};
use serde_json::{json, Value};
use std::collections::HashSet;
use xsd_internal::xsd::schema::Schema;

fn schema(q: &Value) -> Value {
    let path = q["path"].as_str().unwrap();
    let s = match q["data"].as_str() {
        Some(d) => Schema::parse(d, path),
        None => Schema::parse_file(path),
    };
    let s = match s { Ok(s) => s, Err(e) => return err(&e) };
    if let Some(reqs) = q["elements"].as_array() {
        // sequences of requests that share the record of what was emitted
        let mut answers = vec![];
        for r in reqs {
            let mut done = HashSet::new();
            let mut a = vec![];
            for n in r.as_array().unwrap() {
                let (n, ns) = (n[0].as_str().unwrap(), n[1].as_u64());
                let found = s.elements().find(|(k, _)| k.name == n && ns.map(|_| true).unwrap_or(true));
                let Some((name, _)) = found else { a.push(json!({"missing": n})); continue };
                a.push(match s.generate_element_and_dependencies(name, &mut done) {
                    Ok(t) => items(t, false),
                    Err(e) => err(&e),
                });
            }
            answers.push(json!(a));
        }
        return json!({"answers": answers});
    }
    match s.generate_all() {
        Ok(t) => items(t, q["tokens"] == true),
        Err(e) => err(&e),
    }
}

fn cursor(q: &Value) -> Value {
    use xsd::decode::{decode, FromXmlError, Node};
    let xml: &'static str = Box::leak(q["xml"].as_str().unwrap().to_string().into_boxed_str());
    let doc = match decode(xml) { Ok(d) => &*Box::leak(Box::new(d)), Err(e) => return json!({"xml": e.to_string()}) };
    let mut slots: Vec<Option<&'static Node<'static>>> = vec![];
    let mut out = vec![];
    let fail = |e: FromXmlError| match e {
        FromXmlError::MissingElement { name, namespace } => json!({"err": "MissingElement", "name": name, "ns": namespace}),
        FromXmlError::MissingAttribute { name } => json!({"err": "MissingAttribute", "name": name}),
        FromXmlError::TextExpected { name } => json!({"err": "TextExpected", "name": name}),
        e => json!({"err": e.to_string()}),
    };
    for op in q["ops"].as_array().unwrap() {
        let k = op[0].as_str().unwrap();
        let slot = op[1].as_u64().unwrap() as usize;
        let name = op[2].as_str().unwrap_or("");
        let ns = op[3].as_str();
        let mut res: Option<Result<Option<Node<'static>>, FromXmlError>> = None;
        if k == "root" {
            res = Some(Ok(doc.child(name, ns)));
        } else if k == "try_root" {
            res = Some(doc.try_child(name, ns).map(Some));
        } else {
            let n = slots[slot].unwrap();
            match k {
                "next" => res = Some(Ok(n.next_child(name, ns))),
                "try_next" => res = Some(n.try_next_child(name, ns).map(Some)),
                "child" => res = Some(Ok(n.child(name, ns))),
                "try_child" => res = Some(n.try_child(name, ns).map(Some)),
                "peek" => out.push(json!(n.peek_child(name, ns))),
                "attr" => out.push(json!({"attr": n.attribute(name)})),
                "try_attr" => out.push(n.try_attribute(name).map(|v| json!({"attr": v})).unwrap_or_else(fail)),
                "text" => out.push(n.text().map(|v| json!({"text": v})).unwrap_or_else(fail)),
                "range" => { let r = n.range(); out.push(json!([r.start, r.end])) }
                _ => panic!("op {}", k),
            }
        }
        match res {
            None => {}
            Some(Ok(Some(n))) => {
                let r = n.range();
                out.push(json!({"node": [r.start, r.end]}));
                slots.push(Some(Box::leak(Box::new(n))));
            }
            Some(Ok(None)) => { out.push(json!({"node": null})); slots.push(None) }
            Some(Err(e)) => { out.push(fail(e)); slots.push(None) }
        }
    }
    json!({"out": out})
}

fn leak(v: &Value) -> &'static str { Box::leak(v.as_str().unwrap().to_string().into_boxed_str()) }
type W = xsd::xml::writer::EventWriter<Vec<u8>>;
fn wexec(ctx: &mut xsd::Context<'static, '_>, ops: &Value, w: &mut W) -> Result<(), String> {
    for op in ops.as_array().unwrap() {
        let e = |r: Result<(), xsd::xml::writer::Error>| r.map_err(|e| e.to_string());
        match op[0].as_str().unwrap() {
            "attr" => ctx.set_attr(leak(&op[1]), leak(&op[2])),
            "ns" => ctx.set_ns(op[1].as_str().unwrap(), op[2].as_str().unwrap()),
            "default" => ctx.set_default_ns(op[1].as_str().unwrap()),
            "start" => e(ctx.write_start_element(w))?,
            "end" => e(ctx.write_end_element(w))?,
            "text" => e(w.write(xsd::xml::writer::XmlEvent::characters(op[1].as_str().unwrap())))?,
            "wrap" => {
                let mut c = xsd::Context::wrap(ctx);
                wexec(&mut c, &op[1], w)?;
            }
            "new" => {
                let mut c = xsd::Context::new(leak(&op[1]));
                wexec(&mut c, &op[2], w)?;
            }
            k => panic!("op {}", k),
        }
    }
    Ok(())
}
fn writer(q: &Value) -> Value {
    let mut w = xsd::xml::writer::EmitterConfig::new().perform_indent(q["indent"] == true).create_writer(Vec::new());
    let mut c = xsd::Context::new(leak(&q["name"]));
    match wexec(&mut c, &q["ops"], &mut w) {
        Ok(()) => json!({"xml": String::from_utf8_lossy(&w.into_inner())}),
        Err(e) => json!({"err": e}),
    }
}

fn main() {
    common::serve(|q| match q["op"].as_str().unwrap() {
        "schema" => schema(q),
        "cursor" => cursor(q),
        "writer" => writer(q),
        o => panic!("unknown op {}", o),
    })
}
