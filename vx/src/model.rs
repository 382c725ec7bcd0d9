//! The abstract schema model the generator produces, and its XSD printer.
use crate::tape::Gen;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Bi {
    String, Boolean, Int, Integer, Long, NonNeg, Positive, Decimal, Float,
    DateTime, Time, Date, Duration, Base64, Hex, AnyType, Any,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Repr { Str, Bool, I64, U64, I32, Dec, F32 }

pub const ALL_BI: &[Bi] = &[
    Bi::String, Bi::Boolean, Bi::Int, Bi::Integer, Bi::Long, Bi::NonNeg, Bi::Positive, Bi::Decimal,
    Bi::Float, Bi::DateTime, Bi::Time, Bi::Date, Bi::Duration, Bi::Base64, Bi::Hex, Bi::AnyType, Bi::Any,
];
impl Bi {
    pub fn xsd(self) -> &'static str {
        match self {
            Bi::String => "string", Bi::Boolean => "boolean", Bi::Int => "int", Bi::Integer => "integer",
            Bi::Long => "long", Bi::NonNeg => "nonNegativeInteger", Bi::Positive => "positiveInteger",
            Bi::Decimal => "decimal", Bi::Float => "float", Bi::DateTime => "dateTime", Bi::Time => "time",
            Bi::Date => "date", Bi::Duration => "duration", Bi::Base64 => "base64Binary", Bi::Hex => "hexBinary",
            Bi::AnyType => "anyType", Bi::Any => "any",
        }
    }
    pub fn repr(self) -> Repr {
        match self {
            Bi::Boolean => Repr::Bool,
            Bi::Int => Repr::I32,
            Bi::Integer | Bi::Long => Repr::I64,
            Bi::NonNeg | Bi::Positive => Repr::U64,
            Bi::Decimal => Repr::Dec,
            Bi::Float => Repr::F32,
            _ => Repr::Str,
        }
    }
    pub fn rust(self) -> &'static str {
        match self.repr() {
            Repr::Str => "::std::string::String", Repr::Bool => "bool", Repr::I64 => "i64", Repr::U64 => "u64",
            Repr::I32 => "i32", Repr::Dec => "::rust_decimal::Decimal", Repr::F32 => "f32",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct QN { pub ns: Option<String>, pub name: String }

#[derive(Clone, Debug, PartialEq)]
pub enum TypeRef { Bi(Bi), Named(QN) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Max { N(u32), Unbounded }
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Occ { pub min: Option<u32>, pub max: Option<Max> }
impl Occ {
    pub fn opt(&self) -> bool { self.min == Some(0) }
    pub fn vec(&self) -> bool { matches!(self.max, Some(Max::Unbounded)) || matches!(self.max, Some(Max::N(n)) if n > 1) }
    pub fn min(&self) -> u32 { self.min.unwrap_or(1) }
    pub fn max(&self) -> u32 { match self.max { None => 1, Some(Max::N(n)) => n, Some(Max::Unbounded) => u32::MAX } }
}

#[derive(Clone, Debug, Default)]
pub struct Docs { pub text: Option<String>, pub extra: u8, /** how the text is spelled: plain, split by a comment, CDATA, markup, ... */ pub style: u8 }

#[derive(Clone, Debug)]
pub struct Simple { pub docs: Docs, pub base: Bi, pub enums: Vec<String>, pub facets: Vec<(String, String)> }
#[derive(Clone, Debug)]
pub enum AttrTy { Ref(TypeRef), Simple(Simple) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Use { Absent, Optional, Required, Prohibited }
#[derive(Clone, Debug)]
pub struct Attr { pub name: String, pub ty: AttrTy, pub use_: Use, pub fixed: Option<String>, pub default: Option<String>, pub docs: Docs }
#[derive(Clone, Debug)]
pub enum EType { Ref { ty: TypeRef, fixed: Option<String> }, Complex(Complex), Simple(Simple), None }
#[derive(Clone, Debug)]
pub struct Elem { pub name: String, pub occ: Occ, pub ty: EType, pub default: Option<String>, pub form: Option<bool>, pub docs: Docs }
#[derive(Clone, Debug)]
pub enum Item { Elem(Elem), Ref(QN, Occ), Choice(Occ, Vec<Item>), Seq(Occ, Docs, Vec<Item>) }
#[derive(Clone, Debug)]
pub enum Content {
    Empty,
    Seq(Occ, Vec<Item>),
    All(Occ, Vec<Item>),
    Choice(Vec<Item>),
    Simple(TypeRef),
    Ext { base: QN, seq: Option<(Occ, Vec<Item>)> },
}
#[derive(Clone, Debug)]
pub struct Complex { pub docs: Docs, pub mixed_false: bool, pub content: Content, pub attrs: Vec<Attr> }
#[derive(Clone, Debug)]
pub enum DefKind { Element(EType), Complex(Complex), Simple(Simple) }
#[derive(Clone, Debug)]
pub struct Def { pub name: String, pub docs: Docs, pub kind: DefKind }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Qual { Absent, Qualified, Unqualified }

#[derive(Clone, Debug)]
pub struct Link { pub import: bool, pub target: usize, pub dot: u8 }
#[derive(Clone, Debug)]
pub struct SFile {
    pub path: String,
    pub tns: Option<String>,
    pub qual: Qual,
    pub links: Vec<Link>,
    pub defs: Vec<Def>,
    pub sp: Spelling,
}
#[derive(Clone, Debug, Default)]
pub struct Spelling {
    /// "" = the schema namespace is the default namespace of the file
    pub xs: String,
    /// None = the target namespace is the default namespace of the file
    pub tns_prefix: Option<String>,
    /// 0 = tidy; otherwise percentage-like noise level
    pub noise: u32,
}
#[derive(Clone, Debug)]
pub struct SchemaSet { pub files: Vec<SFile> }

impl SchemaSet {
    pub fn find(&self, q: &QN) -> Option<(usize, &Def)> {
        for (i, f) in self.files.iter().enumerate() {
            if f.tns == q.ns {
                if let Some(d) = f.defs.iter().find(|d| d.name == q.name) {
                    return Some((i, d));
                }
            }
        }
        None
    }
}

// ------------------------------------------------------------------ printer

pub fn esc_attr(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"), '&' => o.push_str("&amp;"), '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#39;"),
            '\n' => o.push_str("&#10;"), '\r' => o.push_str("&#13;"), '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    o
}
pub fn esc_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"), '&' => o.push_str("&amp;"), '>' => o.push_str("&gt;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

/// start of documentation that belongs to no item
pub const STRAY: &str = "vx-stray";
struct Pr<'a> {
    out: String,
    g: &'a mut Gen,
    f: &'a SFile,
    nsp: BTreeMap<String, String>, // other namespaces -> prefix
    ind: usize,
}

impl Pr<'_> {
    fn noisy(&mut self, pct: u32) -> bool {
        self.f.sp.noise > 0 && self.g.chance((pct * self.f.sp.noise / 100).max(1))
    }
    fn tag(&self, n: &str) -> String {
        if self.f.sp.xs.is_empty() { n.to_string() } else { format!("{}:{}", self.f.sp.xs, n) }
    }
    fn nl(&mut self) {
        if self.noisy(12) {
            let c = *self.g.pick(&["<!-- c -->", "<!-- <xs:element name=\"x\"/> -->", "<?pi some data?>", "\t", "\r\n", ""]);
            self.out.push_str(c);
        }
        if self.noisy(15) {
            return;
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
    }
    fn qn(&self, q: &QN) -> String {
        match &q.ns {
            None => q.name.clone(),
            Some(u) if Some(u) == self.f.tns.as_ref() => match &self.f.sp.tns_prefix {
                None => q.name.clone(),
                Some(p) => format!("{}:{}", p, q.name),
            },
            Some(u) => format!("{}:{}", self.nsp[u], q.name),
        }
    }
    fn tr(&self, t: &TypeRef) -> String {
        match t {
            TypeRef::Bi(b) => self.tag(b.xsd()),
            TypeRef::Named(q) => self.qn(q),
        }
    }
    fn open(&mut self, n: &str, attrs: Vec<(String, String)>, empty: bool) {
        let mut attrs = attrs;
        if self.noisy(25) {
            self.g.shuffle(&mut attrs);
        }
        if self.noisy(8) {
            let a = self.g.pick(&["doc", "type", "name", "minOccurs", "ref", "use", "value", "base", "mixed", "id"]).to_string();
            let v = self.g.pick(&["", "0", "zzz", "true", "a b"]).to_string();
            attrs.push((format!("foreign:{}", a), v));
        }
        let t = self.tag(n);
        self.nl();
        write!(self.out, "<{}", t).unwrap();
        for (k, v) in attrs {
            let sep = if self.noisy(10) { "\n   " } else { " " };
            let mut e = esc_attr(&v);
            // any character may be written as a reference
            if matches!(k.as_str(), "type" | "base" | "ref" | "value" | "schemaLocation" | "minOccurs" | "maxOccurs" | "targetNamespace" | "elementFormDefault") && !v.is_empty() && self.noisy(6) {
                let i = self.g.usize(0, v.chars().count() - 1);
                e = v.chars().enumerate().map(|(j, c)| if j == i { format!("&#x{:x};", c as u32) } else { esc_attr(&c.to_string()) }).collect();
            }
            if self.noisy(20) {
                write!(self.out, "{}{}='{}'", sep, k, e).unwrap();
            } else {
                write!(self.out, "{}{}=\"{}\"", sep, k, e).unwrap();
            }
        }
        if empty {
            if self.noisy(30) {
                write!(self.out, "></{}>", t).unwrap();
            } else {
                self.out.push_str("/>");
            }
        } else {
            self.out.push('>');
            self.ind += 1;
        }
    }
    fn close(&mut self, n: &str) {
        self.ind -= 1;
        self.nl();
        let t = self.tag(n);
        write!(self.out, "</{}>", t).unwrap();
    }
    fn docs(&mut self, d: &Docs) {
        if d.text.is_none() && !self.noisy(6) {
            return;
        }
        match &d.text {
            None => self.open("annotation", vec![], true),
            Some(t) => {
                self.open("annotation", vec![], false);
                let tg = self.tag("documentation");
                if t.is_empty() && d.style & 1 == 0 {
                    self.open("documentation", vec![], true);
                } else {
                    let at = if d.style & 8 != 0 { vec![("xml:lang".to_string(), "en".to_string()), ("source".to_string(), "urn:x".to_string())] } else { vec![] };
                    self.open("documentation", at, false);
                    let mid = t.char_indices().nth(t.chars().count() / 2).map(|x| x.0).unwrap_or(0);
                    let (a, b) = t.split_at(mid);
                    let x = match d.style & 7 {
                        1 => format!("{}<!-- c -->{}", esc_text(a), esc_text(b)),
                        2 if !a.contains("]]>") && !a.contains('\r') => format!("<![CDATA[{}]]>{}", a, esc_text(b)),
                        3 => format!("{}<b>{}</b>", esc_text(a), esc_text(b)),
                        4 => format!("<!-- c --><?pi x?>{}<p xmlns=\"urn:html\"><i/>{}</p>", esc_text(a), esc_text(b)),
                        _ => esc_text(t),
                    };
                    self.out.push_str(&x);
                    self.ind -= 1;
                    write!(self.out, "</{}>", tg).unwrap();
                }
                for i in 0..d.extra {
                    self.open("documentation", vec![], false);
                    write!(self.out, "second documentation {}", i).unwrap();
                    self.ind -= 1;
                    write!(self.out, "</{}>", tg).unwrap();
                }
                self.close("annotation");
            }
        }
    }
    /// an annotation at a place whose documentation goes nowhere; content decides whether the
    /// element is written with a body
    fn stray(&mut self) -> Option<bool> {
        if self.noisy(7) { Some(self.g.chance(60)) } else { None }
    }
    fn print_stray(&mut self, s: Option<bool>) {
        match s {
            None => {}
            Some(false) => self.open("annotation", vec![], true),
            Some(true) => {
                let n = self.g.range(0, 99);
                self.docs(&Docs { text: Some(format!("{} {}", STRAY, n)), ..Default::default() });
            }
        }
    }
    /// a number, now and then with a leading zero or sign
    fn num(&mut self, n: u32) -> String {
        if !self.g.chance(5) { return n.to_string() }
        match self.g.below(3) { 0 => format!("0{}", n), 1 => format!("+{}", n), _ => format!("00{}", n) }
    }
    fn occ(&mut self, o: &Occ) -> Vec<(String, String)> {
        let mut v = vec![];
        if let Some(m) = o.min {
            v.push(("minOccurs".into(), self.num(m)));
        }
        if let Some(m) = o.max {
            v.push(("maxOccurs".into(), match m { Max::N(n) => self.num(n), Max::Unbounded => "unbounded".into() }));
        }
        v
    }
    fn simple(&mut self, name: Option<&str>, s: &Simple) {
        let a = name.map(|n| vec![("name".to_string(), n.to_string())]).unwrap_or_default();
        self.open("simpleType", a, false);
        self.docs(&s.docs);
        let base = self.tag(s.base.xsd());
        let empty = s.enums.is_empty() && s.facets.is_empty();
        self.open("restriction", vec![("base".into(), base)], empty);
        if !empty {
            for (k, v) in &s.facets {
                let st = self.stray();
                self.open(k, vec![("value".into(), v.clone())], st.is_none());
                if st.is_some() {
                    self.print_stray(st);
                    self.close(k);
                }
            }
            for e in &s.enums {
                let st = self.stray();
                self.open("enumeration", vec![("value".into(), e.clone())], st.is_none());
                if st.is_some() {
                    self.print_stray(st);
                    self.close("enumeration");
                }
            }
            self.close("restriction");
        }
        self.close("simpleType");
    }
    fn attr(&mut self, a: &Attr) {
        let mut v = vec![("name".to_string(), a.name.clone())];
        if let AttrTy::Ref(t) = &a.ty {
            v.push(("type".into(), self.tr(t)));
        }
        match a.use_ {
            Use::Absent => {}
            Use::Optional => v.push(("use".into(), "optional".into())),
            Use::Required => v.push(("use".into(), "required".into())),
            Use::Prohibited => v.push(("use".into(), "prohibited".into())),
        }
        if let Some(f) = &a.fixed {
            v.push(("fixed".into(), f.clone()));
        }
        if let Some(f) = &a.default {
            v.push(("default".into(), f.clone()));
        }
        let simple = matches!(a.ty, AttrTy::Simple(_));
        let has = a.docs.text.is_some() || simple || self.noisy(8);
        self.open("attribute", v, !has);
        if has {
            self.docs(&a.docs);
            if let AttrTy::Simple(s) = &a.ty {
                self.simple(None, s);
            }
            self.close("attribute");
        }
    }
    fn item(&mut self, it: &Item) {
        match it {
            Item::Elem(e) => {
                let mut v = vec![("name".to_string(), e.name.clone())];
                if let EType::Ref { ty, fixed } = &e.ty {
                    v.push(("type".into(), self.tr(ty)));
                    if let Some(f) = fixed {
                        v.push(("fixed".into(), f.clone()));
                    }
                }
                v.extend(self.occ(&e.occ));
                if let Some(d) = &e.default {
                    v.push(("default".into(), d.clone()));
                }
                if let Some(q) = e.form {
                    v.push(("form".into(), if q { "qualified".into() } else { "unqualified".into() }));
                }
                let body = !matches!(e.ty, EType::Ref { .. } | EType::None) || e.docs.text.is_some() || self.noisy(8);
                self.open("element", v, !body);
                if body {
                    self.docs(&e.docs);
                    self.etype(&e.ty);
                    self.close("element");
                }
            }
            Item::Ref(q, o) => {
                let mut v = vec![("ref".to_string(), self.qn(q))];
                v.extend(self.occ(o));
                let st = self.stray();
                self.open("element", v, st.is_none());
                if st.is_some() {
                    self.print_stray(st);
                    self.close("element");
                }
            }
            Item::Choice(o, items) => {
                let v = self.occ(o);
                self.open("choice", v, items.is_empty());
                if !items.is_empty() {
                    let st = self.stray();
                    self.print_stray(st);
                    for i in items {
                        self.item(i);
                    }
                    self.close("choice");
                }
            }
            Item::Seq(o, d, items) => {
                let v = self.occ(o);
                self.open("sequence", v, false);
                self.docs(d);
                for i in items {
                    self.item(i);
                }
                self.close("sequence");
            }
        }
    }
    fn etype(&mut self, t: &EType) {
        match t {
            EType::Complex(c) => self.complex(None, c, &Docs::default()),
            EType::Simple(s) => self.simple(None, s),
            _ => {}
        }
    }
    fn complex(&mut self, name: Option<&str>, c: &Complex, _d: &Docs) {
        let mut a = name.map(|n| vec![("name".to_string(), n.to_string())]).unwrap_or_default();
        if c.mixed_false {
            let f = if self.g.chance(40) { "0" } else { "false" };
            a.push(("mixed".into(), f.into()));
        }
        let empty = matches!(c.content, Content::Empty) && c.attrs.is_empty() && c.docs.text.is_none();
        self.open("complexType", a, empty);
        if empty {
            return;
        }
        self.docs(&c.docs);
        let mut attrs_done = false;
        match &c.content {
            Content::Empty => {}
            Content::Seq(o, items) | Content::All(o, items) => {
                let t = if matches!(c.content, Content::Seq(..)) { "sequence" } else { "all" };
                let v = self.occ(o);
                self.open(t, v, false);
                let st = self.stray();
                self.print_stray(st);
                for i in items {
                    self.item(i);
                }
                self.close(t);
            }
            Content::Choice(items) => {
                self.open("choice", vec![], false);
                let st = self.stray();
                self.print_stray(st);
                for i in items {
                    self.item(i);
                }
                self.close("choice");
            }
            Content::Simple(t) => {
                let b = self.tr(t);
                self.open("simpleContent", vec![], false);
                self.open("extension", vec![("base".into(), b)], c.attrs.is_empty());
                if !c.attrs.is_empty() {
                    for a in &c.attrs {
                        self.attr(a);
                    }
                    self.close("extension");
                }
                self.close("simpleContent");
                attrs_done = true;
            }
            Content::Ext { base, seq } => {
                let b = self.qn(base);
                self.open("complexContent", vec![], false);
                let e = c.attrs.is_empty() && seq.is_none();
                self.open("extension", vec![("base".into(), b)], e);
                if !e {
                    if let Some((o, items)) = seq {
                        let v = self.occ(o);
                        self.open("sequence", v, false);
                        let st = self.stray();
                        self.print_stray(st);
                        for i in items {
                            self.item(i);
                        }
                        self.close("sequence");
                    }
                    for a in &c.attrs {
                        self.attr(a);
                    }
                    self.close("extension");
                }
                self.close("complexContent");
                attrs_done = true;
            }
        }
        if !attrs_done {
            for a in &c.attrs {
                self.attr(a);
            }
        }
        self.close("complexType");
    }
    fn def(&mut self, d: &Def) {
        match &d.kind {
            DefKind::Element(t) => {
                let mut v = vec![("name".to_string(), d.name.clone())];
                if let EType::Ref { ty, fixed } = t {
                    v.push(("type".into(), self.tr(ty)));
                    if let Some(f) = fixed {
                        v.push(("fixed".into(), f.clone()));
                    }
                }
                let body = !matches!(t, EType::Ref { .. }) || d.docs.text.is_some() || self.noisy(8);
                self.open("element", v, !body);
                if body {
                    self.docs(&d.docs);
                    self.etype(t);
                    self.close("element");
                }
            }
            DefKind::Complex(c) => self.complex(Some(&d.name), c, &d.docs),
            DefKind::Simple(s) => self.simple(Some(&d.name), s),
        }
    }
}

/// namespaces referenced by a file other than its own target namespace
fn foreign_ns(set: &SchemaSet, fi: usize) -> Vec<String> {
    let mut v: Vec<String> = set.files.iter().filter_map(|f| f.tns.clone()).collect();
    v.sort();
    v.dedup();
    v.retain(|u| Some(u) != set.files[fi].tns.as_ref());
    v
}

pub fn rel_path(from: &str, to: &str) -> String {
    let fd: Vec<&str> = from.split('/').collect();
    let td: Vec<&str> = to.split('/').collect();
    let fd = &fd[..fd.len() - 1];
    let mut i = 0;
    while i < fd.len() && i + 1 < td.len() && fd[i] == td[i] {
        i += 1;
    }
    let mut p: Vec<&str> = vec![".."; fd.len() - i];
    p.extend(&td[i..]);
    p.join("/")
}

pub fn print_file(set: &SchemaSet, fi: usize, g: &mut Gen) -> String {
    let f = &set.files[fi];
    let mut nsp = BTreeMap::new();
    for (i, u) in foreign_ns(set, fi).iter().enumerate() {
        nsp.insert(u.clone(), format!("o{}", i));
    }
    let mut p = Pr { out: String::new(), g, f, nsp, ind: 0 };
    let bom = p.noisy(10);
    if !p.noisy(40) {
        p.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    }
    let mut a: Vec<(String, String)> = vec![];
    const XS: &str = "http://www.w3.org/2001/XMLSchema";
    if f.sp.xs.is_empty() {
        a.push(("xmlns".into(), XS.into()));
    } else {
        a.push((format!("xmlns:{}", f.sp.xs), XS.into()));
    }
    if let Some(t) = &f.tns {
        match &f.sp.tns_prefix {
            None => a.push(("xmlns".into(), t.clone())),
            Some(pf) => a.push((format!("xmlns:{}", pf), t.clone())),
        }
        a.push(("targetNamespace".into(), t.clone()));
    }
    let used_ns: Vec<(String, String)> = p.nsp.iter().map(|(u, pf)| (format!("xmlns:{}", pf), u.clone())).collect();
    a.extend(used_ns);
    if f.sp.noise > 0 {
        a.push(("xmlns:foreign".into(), "urn:foreign".into()));
    }
    match f.qual {
        Qual::Absent => {}
        Qual::Qualified => a.push(("elementFormDefault".into(), "qualified".into())),
        Qual::Unqualified => a.push(("elementFormDefault".into(), "unqualified".into())),
    }
    if p.noisy(20) {
        a.push(("version".into(), "1.2".into()));
    }
    if p.noisy(20) {
        a.push(("attributeFormDefault".into(), "unqualified".into()));
    }
    p.open("schema", a, false);
    for l in &f.links {
        let t = &set.files[l.target];
        let mut v = vec![];
        if l.import {
            if let Some(n) = &t.tns {
                v.push(("namespace".to_string(), n.clone()));
            }
        }
        let mut path = rel_path(&f.path, &t.path);
        match l.dot {
            1 => path = format!("./{}", path),
            2 => path = path.replace('/', "/./"),
            3 => if let Some((d, _)) = f.path.rsplit_once('/') { path = format!("../{}/{}", d.rsplit('/').next().unwrap(), path) },
            _ => {}
        }
        v.push(("schemaLocation".to_string(), path));
        let (st, t) = (p.stray(), if l.import { "import" } else { "include" });
        p.open(t, v, st.is_none());
        if st.is_some() {
            p.print_stray(st);
            p.close(t);
        }
    }
    for d in &f.defs {
        p.def(d);
    }
    p.close("schema");
    p.out.push('\n');
    if p.noisy(10) {
        p.out = p.out.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    if bom {
        p.out.insert(0, '\u{feff}');
    }
    p.out
}

pub fn print_set(set: &SchemaSet, g: &mut Gen) -> Vec<(String, String)> {
    (0..set.files.len()).map(|i| (set.files[i].path.clone(), print_file(set, i, g))).collect()
}
