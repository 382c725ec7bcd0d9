//! Genuine defects that were recorded instead of repaired: each one is a fixed input that the
//! generators keep away from. The probe runs the input; what happens then depends on whether the
//! defect is listed in known-findings.txt.
use crate::batch::{self, Unit};
use crate::direct::alive;
use crate::proc::{Resp, Worker};
use crate::report::Report;
use serde_json::{json, Value};

type Probe = fn() -> Result<(), String>;

fn xs(body: &str) -> String {
    format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">\n{}\n</xs:schema>\n", body)
}
fn ask(q: Value) -> Value {
    let mut w = Worker::new(&batch::vprobe());
    match w.call(0, 0, q.to_string().as_bytes()) {
        Resp::Fields(f) => serde_json::from_slice(&f[0]).unwrap_or(Value::Null),
        Resp::Crash(s) => json!({ "crash": s }),
        Resp::Hang => json!({"hang": true}),
    }
}
fn schema(text: &str) -> Value {
    let d = batch::work().join("known");
    std::fs::create_dir_all(&d).ok();
    let p = d.join("main.xsd");
    std::fs::write(&p, text).ok();
    ask(json!({"op": "schema", "path": p}))
}
fn compiled(text: &str, root: Option<&str>, doc: &str) -> Result<Option<Resp>, String> {
    let u = Unit { files: vec![("main.xsd".into(), text.into())], probes: root.iter().map(|r| format!("m::{}", r)).collect(), ..Default::default() };
    let b = batch::build("known-unit", &[u], 1);
    if let Some(m) = b.failed.get(&0) {
        return Err(format!("does not compile: {}", m.join(" | ")));
    }
    Ok(root.and_then(|_| b.run(&[(0, 0, doc.as_bytes().to_vec())]).pop().flatten()))
}
fn tab_in_attribute() -> Result<(), String> {
    let s = xs("<xs:element name=\"a\"><xs:complexType><xs:attribute name=\"x\" type=\"xs:string\" use=\"required\"/></xs:complexType></xs:element>");
    let r = compiled(&s, Some("A"), "<a x=\"1&#9;2\"/>")?.ok_or("no answer")?;
    if r.s(0) == "ok" && r.s(3) == "ok" && r.s(5) == "eq" { Ok(()) } else { Err(format!("decode(encode(v)) differs: {} {}", r.s(1), r.s(6))) }
}
fn xml_of(v: &Value) -> Result<String, String> {
    alive(v)?;
    v["xml"].as_str().map(|s| s.to_string()).ok_or_else(|| v.to_string())
}
fn tab_in_attribute_writer() -> Result<(), String> {
    let x = xml_of(&ask(json!({"op": "writer", "name": "a", "indent": false, "ops": [["attr", "x", "1\t2"], ["start"], ["end"]]})))?;
    let d = roxmltree::Document::parse(&x).map_err(|e| e.to_string())?;
    if d.root_element().attribute("x") == Some("1\t2") { Ok(()) } else { Err(format!("the tab is lost: {:?}", x)) }
}
fn rebound_prefix() -> Result<(), String> {
    let x = xml_of(&ask(json!({"op": "writer", "name": "a", "indent": false, "ops": [
        ["ns", "p", "urn:1"], ["start"],
        ["new", "b", [["ns", "p", "urn:2"], ["start"], ["new", "p:c", [["ns", "p", "urn:1"], ["start"], ["end"]]], ["end"]]],
        ["end"]]})))?;
    let d = roxmltree::Document::parse(&x).map_err(|e| e.to_string())?;
    let c = d.descendants().find(|n| n.tag_name().name() == "c").ok_or("no element c")?;
    if c.tag_name().namespace() == Some("urn:1") { Ok(()) } else { Err(format!("the declaration is dropped: {}", x)) }
}
fn odd_letter_name() -> Result<(), String> {
    alive(&schema(&xs("<xs:element name=\"\u{e38}\" type=\"xs:string\"/>")))
}
fn odd_letter_value() -> Result<(), String> {
    alive(&schema(&xs("<xs:simpleType name=\"t\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"\u{e38}\"/></xs:restriction></xs:simpleType>")))
}
fn deep_schema() -> Result<(), String> {
    let n = 100_000;
    let s = format!("<xs:complexType name=\"t\">{}{}</xs:complexType>", "<xs:sequence>".repeat(n), "</xs:sequence>".repeat(n));
    alive(&schema(&xs(&s)))
}
fn deep_document() -> Result<(), String> {
    let n = 100_000;
    let s = xs("<xs:complexType name=\"t\"><xs:sequence><xs:element name=\"c\" type=\"t\" minOccurs=\"0\" maxOccurs=\"unbounded\"/></xs:sequence></xs:complexType>\n<xs:element name=\"r\" type=\"t\"/>");
    match compiled(&s, Some("R"), &format!("<r>{}{}</r>", "<c>".repeat(n), "</c>".repeat(n)))? {
        Some(Resp::Crash(m)) => Err(format!("the process dies: {}", m)),
        Some(Resp::Hang) => Err("no answer within the CPU budget".into()),
        _ => Ok(()),
    }
}
fn optional_recursion() -> Result<(), String> {
    compiled(&xs("<xs:complexType name=\"t\"><xs:sequence><xs:element name=\"c\" type=\"t\" minOccurs=\"0\"/></xs:sequence></xs:complexType>"), None, "").map(|_| ())
}
fn probes(id: &str) -> Vec<(&'static str, Probe)> {
    match id {
        "C03" => vec![("tab-in-attribute", tab_in_attribute)],
        "C17" => vec![("tab-in-attribute", tab_in_attribute_writer), ("rebound-prefix", rebound_prefix)],
        "C11" => vec![("odd-letter-name", odd_letter_name), ("deep-schema", deep_schema)],
        "C18" => vec![("odd-letter-value", odd_letter_value)],
        "C05" => vec![("optional-recursion", optional_recursion)],
        "C10" => vec![("deep-document", deep_document)],
        _ => vec![],
    }
}
pub fn run(id: &str, r: &mut Report) {
    let listed = std::fs::read_to_string(batch::root().join("known-findings.txt")).unwrap_or_default();
    for (key, p) in probes(id) {
        r.label("probes of recorded findings");
        let Err(m) = p() else { continue };
        let tag = format!("known: property={} key={} ", id, key);
        match listed.lines().find_map(|l| l.strip_prefix(tag.as_str())) {
            Some(what) => r.known.push(format!("key={} {}", key, what)),
            None => {
                r.violation(&m, &json!({"check": id, "kind": "probe", "key": key, "message": m}));
            }
        }
    }
}
pub fn replay(id: &str, key: &str) -> i32 {
    match probes(id).into_iter().find(|p| p.0 == key).map(|p| (p.1)()) {
        Some(Err(m)) => { println!("{}", m); 1 }
        _ => { println!("holds"); 0 }
    }
}
