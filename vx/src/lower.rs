//! Independent reading of a schema model: which Rust types it stands for and how their values are
//! laid out in XML. This is the reference the generated code is compared with.
use crate::model::*;
use inflector::Inflector;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum LTy { Lit(Bi), Fixed(Bi, String), Named(String) }

#[derive(Clone, Debug, PartialEq)]
pub struct XName { pub name: String, pub ns: Option<String> }

#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Elem(XName),
    /// member of an all-group
    AllElem(XName),
    /// inlined into the enclosing element (groups, bases, choice content)
    Inline,
    Attr(String),
    Text,
}
#[derive(Clone, Debug)]
pub struct Field { pub rust: String, pub ty: LTy, pub opt: bool, pub vec: bool, pub occ: Occ, pub role: Role, pub docs: Option<String> }
#[derive(Clone, Debug)]
pub enum LKind {
    Newtype(LTy),
    Enum(Vec<(String, String)>), // (variant, value)
    Struct(Vec<Field>),
    Choice(Vec<Field>),
}
#[derive(Clone, Debug)]
pub struct LType {
    pub rust: String,
    pub kind: LKind,
    /// element name its stand-alone decoder expects
    pub xml: XName,
    pub global: Option<GKind>,
    pub docs: Option<String>,
    /// direct references in the schema (rust names), for dependency closure
    pub deps: BTreeSet<String>,
    /// literal base of a simple type / named literal newtype
    pub lit: Option<Bi>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GKind { Element, Complex, Simple }

#[derive(Clone, Debug, Default)]
pub struct Lowered { pub types: BTreeMap<String, LType> }

pub fn snake(s: &str) -> String { s.to_snake_case() }
pub fn pascal(s: &str) -> String { s.to_pascal_case() }

const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
    "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type",
    "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro",
    "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];
/// the identifier as printed by `Debug` (no `r#`)
pub fn ident(s: &str) -> String {
    match s {
        "self" | "Self" | "super" | "crate" | "_" => format!("{}_", s),
        "" => "_empty".to_string(),
        s if s.starts_with(|c: char| c.is_numeric()) => format!("_{}", s),
        s => s.to_string(),
    }
}
/// the identifier as written in Rust source
pub fn src_ident(s: &str) -> String {
    if KEYWORDS.contains(&s) { format!("r#{}", s) } else { s.to_string() }
}

pub fn upper_concat(parts: &[&str]) -> String {
    let mut o = String::new();
    for p in parts {
        let mut c = p.chars();
        if let Some(f) = c.next() {
            o.push(f.to_ascii_uppercase());
            o.push_str(c.as_str());
        }
    }
    o
}
fn common(a: &str, b: &str, rev: bool) -> String {
    let (a, b) = (snake(a), snake(b));
    let t = |s: &str| -> Vec<char> { if rev { s.chars().rev().collect() } else { s.chars().collect() } };
    let mut o: Vec<char> = t(&a).into_iter().zip(t(&b)).take_while(|(x, y)| x == y && *x != '_').map(|x| x.0).collect();
    if rev {
        o.reverse();
    }
    o.into_iter().collect()
}
/// name of a group made of members with these names
pub fn group_name(names: &[String]) -> String {
    if names.is_empty() {
        return String::new();
    }
    let pre = names[1..].iter().fold(names[0].clone(), |a, b| common(&a, b, false));
    let suf = names[1..].iter().fold(names[0].clone(), |a, b| common(&a, b, true));
    match (pre.is_empty(), suf.is_empty()) {
        (false, false) => if pre.len() > suf.len() { pre } else { suf },
        (false, true) => pre,
        (true, false) => suf,
        (true, true) => upper_concat(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
    }
}

pub fn enum_variants(values: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut n = 0;
    for v in values {
        let s: String = v.chars().filter_map(|c| match c {
            '_' | '-' => Some('_'),
            c if c.is_alphanumeric() => Some(c),
            _ => None,
        }).collect();
        let mut s = pascal(&s);
        if s.chars().next().map(|c| !c.is_alphabetic()).unwrap_or(false) {
            s = format!("V{}", s);
        }
        // numerals that are no digits, and circled letters, cannot be part of a Rust identifier
        s = s.chars().map(|c| if c == '_' || c.is_ascii_alphanumeric() || (c.is_alphabetic() && !c.is_ascii() && !matches!(c as u32, 0x24b6..=0x24e9 | 0x1f130..=0x1f189)) { c } else { '_' }).collect();
        if s == "Self" {
            s = "Self_".to_string();
        }
        if s == "_" || s.starts_with(char::is_numeric) {
            s = format!("_{}", s);
        }
        while s.is_empty() || out.contains(&s) {
            n += 1;
            s = format!("Variant{}", n);
        }
        out.push(s);
    }
    out
}

pub fn clean_docs(d: &Docs) -> Option<String> {
    d.text.as_ref().filter(|t| !t.is_empty()).map(|t| t.split_whitespace().collect::<Vec<_>>().join(" "))
}

struct Lw<'a> {
    set: &'a SchemaSet,
    f: usize,
    out: Lowered,
}
type R<T> = Result<T, String>;

impl Lw<'_> {
    fn file(&self) -> &SFile { &self.set.files[self.f] }
    fn local_ns(&self, form: Option<bool>) -> Option<String> {
        let q = form.unwrap_or(self.file().qual == Qual::Qualified);
        if q { self.file().tns.clone() } else { None }
    }
    fn add(&mut self, raw: &str, kind: LKind, ns: Option<String>, global: Option<GKind>, docs: Option<String>, deps: BTreeSet<String>, lit: Option<Bi>) -> R<String> {
        let rust = ident(&pascal(raw));
        if self.out.types.contains_key(&rust) {
            return Err(format!("type collision {}", rust));
        }
        if let LKind::Struct(fs) = &kind {
            let mut seen = BTreeSet::new();
            for f in fs {
                if !seen.insert(f.rust.clone()) {
                    return Err(format!("field collision {}.{}", rust, f.rust));
                }
            }
        }
        if let LKind::Choice(fs) = &kind {
            let mut seen = BTreeSet::new();
            for f in fs {
                if !seen.insert(f.rust.clone()) {
                    return Err(format!("variant collision {}.{}", rust, f.rust));
                }
            }
        }
        self.out.types.insert(rust.clone(), LType { rust: rust.clone(), kind, xml: XName { name: raw.to_string(), ns }, global, docs, deps, lit });
        Ok(rust)
    }
    /// type at a use site: named simple types and typed global elements collapse to what they stand for
    fn use_ty(&self, q: &QN, depth: usize) -> R<LTy> {
        if depth > 20 {
            return Err("alias cycle".into());
        }
        let (_, d) = self.set.find(q).ok_or_else(|| format!("dangling {:?}", q))?;
        Ok(match &d.kind {
            DefKind::Simple(s) if s.enums.is_empty() => LTy::Lit(s.base),
            DefKind::Element(EType::Simple(s)) if s.enums.is_empty() => LTy::Lit(s.base),
            DefKind::Element(EType::Ref { ty: TypeRef::Bi(b), fixed }) => match fixed {
                Some(f) => LTy::Fixed(*b, f.clone()),
                None => LTy::Lit(*b),
            },
            DefKind::Element(EType::Ref { ty: TypeRef::Named(q2), .. }) => self.use_ty(q2, depth + 1)?,
            _ => LTy::Named(ident(&pascal(&q.name))),
        })
    }
    fn tref(&self, t: &TypeRef, fixed: &Option<String>, deps: &mut BTreeSet<String>) -> R<LTy> {
        match t {
            TypeRef::Bi(b) => Ok(match fixed { Some(f) => LTy::Fixed(*b, f.clone()), None => LTy::Lit(*b) }),
            TypeRef::Named(q) => {
                deps.insert(ident(&pascal(&q.name)));
                self.use_ty(q, 0)
            }
        }
    }
    fn attrs(&mut self, raw: &str, attrs: &[Attr], fields: &mut Vec<Field>, deps: &mut BTreeSet<String>) -> R<()> {
        for a in attrs {
            if a.use_ == Use::Prohibited {
                // inline enumeration types of prohibited attributes are still generated
                if let AttrTy::Simple(s) = &a.ty {
                    if !s.enums.is_empty() {
                        return Err("prohibited inline enum".into());
                    }
                }
                continue;
            }
            let ty = match &a.ty {
                AttrTy::Ref(t) => self.tref(t, &a.fixed, deps)?,
                AttrTy::Simple(s) if s.enums.is_empty() => LTy::Lit(s.base),
                AttrTy::Simple(s) => {
                    let vn = upper_concat(&[raw, &a.name, "Data"]);
                    let r = self.add_enum(&vn, s, None, None)?;
                    deps.insert(r.clone());
                    LTy::Named(r)
                }
            };
            fields.push(Field {
                rust: ident(&snake(&a.name)), ty, opt: a.use_ != Use::Required, vec: false,
                occ: Occ { min: Some((a.use_ == Use::Required) as u32), max: None },
                role: Role::Attr(a.name.clone()), docs: clean_docs(&a.docs),
            });
        }
        Ok(())
    }
    fn add_enum(&mut self, raw: &str, s: &Simple, global: Option<GKind>, ns: Option<String>) -> R<String> {
        let vs = enum_variants(&s.enums);
        let ns = if global.is_some() { ns } else { self.local_ns(None) };
        self.add(raw, LKind::Enum(vs.into_iter().zip(s.enums.iter().cloned()).collect()), ns, global, None, BTreeSet::new(), None)
    }
    fn simple(&mut self, raw: &str, s: &Simple, global: Option<GKind>, ns: Option<String>, docs: Option<String>) -> R<String> {
        if s.enums.is_empty() {
            self.add(raw, LKind::Newtype(LTy::Lit(s.base)), ns, global, docs.or(clean_docs(&s.docs)), BTreeSet::new(), Some(s.base))
        } else {
            self.add_enum(raw, s, global, ns)
        }
    }
    /// one member of a group, as (raw name, field)
    fn item(&mut self, raw: &str, it: &Item, all: bool, in_choice: bool, deps: &mut BTreeSet<String>) -> R<(String, Field)> {
        let role = |x: XName| if all { Role::AllElem(x) } else { Role::Elem(x) };
        Ok(match it {
            Item::Elem(e) => {
                let x = XName { name: e.name.clone(), ns: self.local_ns(e.form) };
                let ty = match &e.ty {
                    EType::Ref { ty, fixed } => self.tref(ty, fixed, deps)?,
                    EType::None => LTy::Lit(Bi::AnyType),
                    EType::Complex(c) => {
                        let vn = upper_concat(&[raw, &e.name, "Data"]);
                        let ns = self.local_ns(None);
                        let r = self.complex(&vn, c, None, ns, clean_docs(&e.docs))?;
                        deps.insert(r.clone());
                        LTy::Named(r)
                    }
                    EType::Simple(s) => {
                        let vn = upper_concat(&[raw, &e.name, "Data"]);
                        let ns = self.local_ns(None);
                        let r = self.simple(&vn, s, None, ns, clean_docs(&e.docs))?;
                        deps.insert(r.clone());
                        if s.enums.is_empty() { LTy::Lit(s.base) } else { LTy::Named(r) }
                    }
                };
                (e.name.clone(), Field { rust: ident(&snake(&e.name)), ty, opt: e.occ.opt(), vec: e.occ.vec(), occ: e.occ, role: role(x), docs: clean_docs(&e.docs) })
            }
            Item::Ref(q, o) => {
                deps.insert(ident(&pascal(&q.name)));
                let ty = self.use_ty(q, 0)?;
                let x = XName { name: q.name.clone(), ns: q.ns.clone() };
                (q.name.clone(), Field { rust: ident(&snake(&q.name)), ty, opt: o.opt(), vec: o.vec(), occ: *o, role: role(x), docs: None })
            }
            Item::Choice(o, items) | Item::Seq(o, _, items) => {
                let is_choice = matches!(it, Item::Choice(..));
                // the group's members depend on the enclosing definition in the dependency record
                let mut names = vec![];
                let mut fields = vec![];
                for i in items {
                    let (n, mut f) = self.item(raw, i, false, is_choice, deps)?;
                    if is_choice {
                        f.rust = ident(&pascal(&n));
                        f.opt = false;
                    }
                    names.push(n);
                    fields.push(f);
                }
                let leaf = group_name(&names);
                let vn = if in_choice { upper_concat(&[raw, &leaf, "Variant"]) } else { upper_concat(&[raw, &leaf]) };
                let kind = if is_choice { LKind::Choice(fields) } else { LKind::Struct(fields) };
                let ns = self.local_ns(None);
                let r = self.add(&vn, kind, ns, None, None, BTreeSet::new(), None)?;
                deps.insert(r.clone());
                let docs = if let Item::Seq(_, d, _) = it { clean_docs(d) } else { None };
                (leaf.clone(), Field { rust: ident(&snake(&leaf)), ty: LTy::Named(r), opt: o.opt(), vec: o.vec(), occ: *o, role: Role::Inline, docs })
            }
        })
    }
    fn complex(&mut self, raw: &str, c: &Complex, global: Option<GKind>, ns: Option<String>, docs: Option<String>) -> R<String> {
        let docs = docs.or(clean_docs(&c.docs));
        let mut deps = BTreeSet::new();
        let mut fields = vec![];
        match &c.content {
            Content::Empty => {}
            Content::Seq(o, items) | Content::All(o, items) => {
                let all = matches!(c.content, Content::All(..));
                let mut names = vec![];
                let mut fs = vec![];
                for i in items {
                    let (n, f) = self.item(raw, i, all, false, &mut deps)?;
                    names.push(n);
                    fs.push(f);
                }
                if o.vec() || o.min() != 1 {
                    let leaf = group_name(&names);
                    let vn = upper_concat(&[raw, &leaf]);
                    let lns = self.local_ns(None);
                    let r = self.add(&vn, LKind::Struct(fs), lns, None, None, BTreeSet::new(), None)?;
                    deps.insert(r.clone());
                    fields.push(Field { rust: ident(&snake(&leaf)), ty: LTy::Named(r), opt: o.opt(), vec: o.vec(), occ: *o, role: Role::Inline, docs: None });
                } else {
                    fields = fs;
                }
            }
            Content::Choice(items) => {
                let mut fs = vec![];
                for i in items {
                    let (n, mut f) = self.item(raw, i, false, true, &mut deps)?;
                    f.rust = ident(&pascal(&n));
                    f.opt = false;
                    fs.push(f);
                }
                let vn = upper_concat(&[raw, "Data"]);
                let lns = self.local_ns(None);
                let r = self.add(&vn, LKind::Choice(fs), lns, None, None, BTreeSet::new(), None)?;
                deps.insert(r.clone());
                fields.push(Field { rust: ident(&snake(&vn)), ty: LTy::Named(r), opt: false, vec: false, occ: Occ::default(), role: Role::Inline, docs: None });
            }
            Content::Simple(t) => {
                let ty = self.tref(t, &None, &mut deps)?;
                let n = match t { TypeRef::Bi(_) => snake(raw), TypeRef::Named(q) => snake(&q.name) };
                let role = if matches!(ty, LTy::Lit(_)) { Role::Text } else { Role::Inline };
                fields.push(Field { rust: ident(&n), ty, opt: false, vec: false, occ: Occ::default(), role, docs: None });
            }
            Content::Ext { base, seq } => {
                let ty = self.tref(&TypeRef::Named(base.clone()), &None, &mut deps)?;
                match seq {
                    None => fields.push(Field { rust: ident(&snake(&base.name)), ty, opt: false, vec: false, occ: Occ::default(), role: Role::Inline, docs: None }),
                    Some((o, items)) => {
                        let mut fs = vec![];
                        for i in items {
                            fs.push(self.item(raw, i, false, false, &mut deps)?.1);
                        }
                        let vn = upper_concat(&[raw, &base.name]);
                        let lns = self.local_ns(None);
                        let r = self.add(&vn, LKind::Struct(fs), lns, None, None, BTreeSet::new(), None)?;
                        deps.insert(r.clone());
                        fields.push(Field { rust: "base".into(), ty, opt: false, vec: false, occ: Occ::default(), role: Role::Inline, docs: None });
                        fields.push(Field { rust: ident(&snake(&base.name)), ty: LTy::Named(r), opt: o.opt(), vec: false, occ: *o, role: Role::Inline, docs: None });
                    }
                }
            }
        }
        self.attrs(raw, &c.attrs, &mut fields, &mut deps)?;
        self.add(raw, LKind::Struct(fields), ns, global, docs, deps, None)
    }
}

pub fn lower(set: &SchemaSet) -> Result<Lowered, String> {
    let mut lw = Lw { set, f: 0, out: Lowered::default() };
    for fi in 0..set.files.len() {
        lw.f = fi;
        for d in &set.files[fi].defs {
            let ns = set.files[fi].tns.clone();
            match &d.kind {
                DefKind::Element(EType::Ref { ty, fixed }) => {
                    let mut deps = BTreeSet::new();
                    let lty = lw.tref(ty, fixed, &mut deps)?;
                    let lit = match (&lty, ty) { (LTy::Lit(b), TypeRef::Bi(_)) => Some(*b), _ => None };
                    lw.add(&d.name, LKind::Newtype(lty), ns, Some(GKind::Element), clean_docs(&d.docs), deps, lit)?;
                }
                DefKind::Element(EType::Complex(c)) => { lw.complex(&d.name, c, Some(GKind::Element), ns, clean_docs(&d.docs))?; }
                DefKind::Element(EType::Simple(s)) => { lw.simple(&d.name, s, Some(GKind::Element), ns, clean_docs(&d.docs))?; }
                DefKind::Element(EType::None) => return Err("untyped global element".into()),
                DefKind::Complex(c) => { lw.complex(&d.name, c, Some(GKind::Complex), ns, None)?; }
                DefKind::Simple(s) => { lw.simple(&d.name, s, Some(GKind::Simple), ns, None)?; }
            }
        }
    }
    check_recursion(&lw.out)?;
    Ok(lw.out)
}

impl Lowered {
    pub fn get(&self, n: &str) -> &LType { &self.types[n] }
    pub fn elements(&self) -> Vec<&LType> { self.types.values().filter(|t| t.global == Some(GKind::Element)).collect() }
    fn lits(&self, x: &mut BTreeSet<(String, Option<String>)>, ty: &str, seen: &mut BTreeSet<String>) {
        // names an inlined type may start with
        if !seen.insert(ty.to_string()) {
            return;
        }
        match &self.get(ty).kind {
            LKind::Struct(fs) => {
                for f in fs {
                    match &f.role {
                        Role::Elem(n) | Role::AllElem(n) => { x.insert((n.name.clone(), n.ns.clone())); }
                        Role::Inline => { if let LTy::Named(t) = &f.ty { self.lits(x, t, seen) } }
                        _ => {}
                    }
                    let is_all = matches!(f.role, Role::AllElem(_));
                    if !is_all && !self.field_nullable(f) && !matches!(f.role, Role::Attr(_)) {
                        break;
                    }
                }
            }
            LKind::Choice(fs) => {
                for f in fs {
                    match &f.role {
                        Role::Elem(n) | Role::AllElem(n) => { x.insert((n.name.clone(), n.ns.clone())); }
                        Role::Inline => { if let LTy::Named(t) = &f.ty { self.lits(x, t, seen) } }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    pub fn first(&self, ty: &str) -> BTreeSet<(String, Option<String>)> {
        let mut x = BTreeSet::new();
        self.lits(&mut x, ty, &mut BTreeSet::new());
        x
    }
    pub fn field_nullable(&self, f: &Field) -> bool {
        if f.opt {
            return true;
        }
        match (&f.role, &f.ty) {
            (Role::Elem(_) | Role::AllElem(_), _) => false,
            (Role::Inline, LTy::Named(t)) => self.nullable(t),
            _ => true,
        }
    }
    /// can the (inlined) content be without any element?
    pub fn nullable(&self, ty: &str) -> bool {
        match &self.get(ty).kind {
            LKind::Struct(fs) => fs.iter().all(|f| self.field_nullable(f)),
            LKind::Choice(fs) => fs.iter().any(|f| self.field_nullable(f)),
            _ => true,
        }
    }
    /// does the inlined type contain a choice alternative that could be empty (out of domain)?
    pub fn has_nullable_alternative(&self) -> bool {
        self.types.values().any(|t| matches!(&t.kind, LKind::Choice(fs) if fs.iter().any(|f| self.field_nullable(f))))
    }
    /// is the content model of every type one-unambiguous (the next element name alone tells which
    /// particle it belongs to)?
    pub fn deterministic(&self) -> bool {
        self.types.values().all(|t| {
            let mut m = Glushkov::default();
            let (_, first, _) = m.ty(self, &t.rust);
            let distinct = |v: &BTreeSet<usize>| v.iter().map(|p| &m.names[*p]).collect::<BTreeSet<_>>().len() == v.len();
            distinct(&first) && m.follow.iter().all(distinct)
        })
    }
    pub fn reach(&self, from: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from.to_string()];
        while let Some(n) = todo.pop() {
            if !seen.insert(n.clone()) {
                continue;
            }
            if let Some(t) = self.types.get(&n) {
                todo.extend(t.deps.iter().cloned());
            }
        }
        seen
    }
}

/// types must be finite without a list in between
fn check_recursion(l: &Lowered) -> Result<(), String> {
    fn visit(l: &Lowered, n: &str, stack: &mut Vec<String>, done: &mut BTreeSet<String>) -> Result<(), String> {
        if stack.iter().any(|s| s == n) {
            return Err("unbounded recursion".into());
        }
        if done.contains(n) {
            return Ok(());
        }
        stack.push(n.to_string());
        let t = l.types.get(n).ok_or_else(|| format!("missing {}", n))?;
        let next: Vec<String> = match &t.kind {
            LKind::Newtype(LTy::Named(x)) => vec![x.clone()],
            LKind::Struct(fs) | LKind::Choice(fs) => fs.iter().filter(|f| !f.vec).filter_map(|f| match &f.ty { LTy::Named(x) => Some(x.clone()), _ => None }).collect(),
            _ => vec![],
        };
        for x in next {
            visit(l, &x, stack, done)?;
        }
        stack.pop();
        done.insert(n.to_string());
        Ok(())
    }
    let mut done = BTreeSet::new();
    for n in l.types.keys() {
        visit(l, n, &mut vec![], &mut done)?;
    }
    Ok(())
}

/// positions of a content model and what may follow them
#[derive(Default)]
struct Glushkov { names: Vec<(String, Option<String>)>, follow: Vec<BTreeSet<usize>> }
type Part = (bool, BTreeSet<usize>, BTreeSet<usize>);
impl Glushkov {
    fn link(&mut self, from: &BTreeSet<usize>, to: &BTreeSet<usize>) {
        for f in from {
            self.follow[*f].extend(to.iter().copied());
        }
    }
    fn field(&mut self, l: &Lowered, f: &Field) -> Part {
        let (mut nullable, first, last) = match (&f.role, &f.ty) {
            // members of an all-group have distinct names and are found by name
            (Role::Elem(n), _) => {
                let p = self.names.len();
                self.names.push((n.name.clone(), n.ns.clone()));
                self.follow.push(BTreeSet::new());
                (false, BTreeSet::from([p]), BTreeSet::from([p]))
            }
            (Role::Inline, LTy::Named(t)) => self.ty(l, t),
            _ => (true, BTreeSet::new(), BTreeSet::new()),
        };
        if f.vec {
            self.link(&last, &first);
        }
        nullable |= f.opt;
        (nullable, first, last)
    }
    fn ty(&mut self, l: &Lowered, t: &str) -> Part {
        match &l.get(t).kind {
            LKind::Struct(fs) => {
                let mut acc: Part = (true, BTreeSet::new(), BTreeSet::new());
                for f in fs {
                    let (n, first, last) = self.field(l, f);
                    self.link(&acc.2, &first);
                    if acc.0 {
                        acc.1.extend(first);
                    }
                    if !n {
                        acc.2.clear();
                    }
                    acc.2.extend(last);
                    acc.0 &= n;
                }
                acc
            }
            LKind::Choice(fs) => {
                let mut acc: Part = (false, BTreeSet::new(), BTreeSet::new());
                for f in fs {
                    let (n, first, last) = self.field(l, f);
                    acc.0 |= n;
                    acc.1.extend(first);
                    acc.2.extend(last);
                }
                acc
            }
            _ => (true, BTreeSet::new(), BTreeSet::new()),
        }
    }
}
