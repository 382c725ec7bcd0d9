//! Schema generator: draws schema sets from the supported subset, steered by a profile.
use crate::inst::{gen_lit, gen_string, LitCfg};
use crate::lower::{lower, Lowered};
use crate::model::*;
use crate::tape::Gen;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Profile {
    pub files: (usize, usize),
    pub defs: (usize, usize),
    pub depth: usize,
    pub items: (usize, usize),
    /// Element, Complex, Simple
    pub w_def: [u32; 3],
    /// Empty, Seq, All, Choice, Simple, Ext
    pub w_content: [u32; 6],
    /// Elem, Ref, Choice, Seq
    pub w_item: [u32; 4],
    /// builtin, named, inline complex, inline simple, none
    pub w_etype: [u32; 5],
    pub attrs: (usize, usize),
    /// builtin, named simple, inline simple
    pub w_attr: [u32; 3],
    pub tns_pct: u32,
    pub qual_pct: u32,
    pub form_pct: u32,
    pub default_ns_pct: u32,
    pub fixed_pct: u32,
    pub enum_pct: u32,
    pub enum_wild: u32,
    pub docs_pct: u32,
    pub docs_wild: bool,
    pub noise: u32,
    pub opt_pct: u32,
    pub vec_pct: u32,
    pub group_occ_pct: u32,
    pub recursion_pct: u32,
    pub name_wild: u32,
    pub mixed_ns: bool,
    pub bis: Vec<Bi>,
    pub subdirs: bool,
    pub enum_max: usize,
    /// percentage of redundant links between files, and of odd spellings of their paths
    pub extra_links: u32,
    /// percentage of elements that reuse the name of another one of the same content model
    pub reuse: u32,
    /// percentage of schema sets with one dimension blown up
    pub big: u32,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            files: (1, 1), defs: (2, 5), depth: 3, items: (1, 4),
            w_def: [5, 4, 2], w_content: [1, 8, 2, 3, 3, 3], w_item: [10, 2, 2, 2], w_etype: [8, 4, 3, 2, 1],
            attrs: (0, 3), w_attr: [4, 2, 2],
            tns_pct: 50, qual_pct: 50, form_pct: 0, default_ns_pct: 25, fixed_pct: 6, enum_pct: 45, enum_wild: 10, docs_pct: 10, docs_wild: false,
            noise: 0, opt_pct: 35, vec_pct: 25, group_occ_pct: 50, recursion_pct: 12, name_wild: 0, mixed_ns: false,
            bis: vec![
                Bi::String, Bi::String, Bi::String, Bi::Boolean, Bi::Int, Bi::Integer, Bi::Long, Bi::NonNeg, Bi::Positive, Bi::Decimal,
                Bi::Float, Bi::DateTime, Bi::Time, Bi::Date, Bi::Duration, Bi::Base64, Bi::Hex, Bi::AnyType, Bi::Any,
            ],
            subdirs: false, enum_max: 5, extra_links: 0, reuse: 8, big: 3,
        }
    }
}

/// letters that Unicode normalisation (which rustc applies to identifiers) replaces
const UNSTABLE: &[(u32, u32)] = &[
    (0x374, 0x374), (0x958, 0x95f), (0x9dc, 0x9dd), (0x9df, 0x9df), (0xa33, 0xa33), (0xa36, 0xa36), (0xa59, 0xa5b), (0xa5e, 0xa5e), (0xb5c, 0xb5d), (0xf43, 0xf43), (0xf4d, 0xf4d), (0xf52, 0xf52), (0xf57, 0xf57), (0xf5c, 0xf5c), (0xf69, 0xf69), (0x1f71, 0x1f71), (0x1f73, 0x1f73), (0x1f75, 0x1f75), (0x1f77, 0x1f77), (0x1f79, 0x1f79), (0x1f7b, 0x1f7b), (0x1f7d, 0x1f7d), (0x1fbb, 0x1fbb), (0x1fbe, 0x1fbe), (0x1fc9, 0x1fc9), (0x1fcb, 0x1fcb), (0x1fd3, 0x1fd3), (0x1fdb, 0x1fdb), (0x1fe3, 0x1fe3), (0x1feb, 0x1feb), (0x1ff9, 0x1ff9), (0x1ffb, 0x1ffb), (0x2126, 0x2126), (0x212a, 0x212b), (0xf900, 0xfa0d), (0xfa10, 0xfa10), (0xfa12, 0xfa12), (0xfa15, 0xfa1e), (0xfa20, 0xfa20), (0xfa22, 0xfa22), (0xfa25, 0xfa26), (0xfa2a, 0xfa6d), (0xfa70, 0xfad9), (0xfb1d, 0xfb1d), (0xfb1f, 0xfb1f), (0xfb2a, 0xfb36), (0xfb38, 0xfb3c), (0xfb3e, 0xfb3e), (0xfb40, 0xfb41), (0xfb43, 0xfb44), (0xfb46, 0xfb4e), (0x2f800, 0x2fa1d),
];
fn unstable(c: char) -> bool { UNSTABLE.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32))) }
const WORDS: &[&str] = &[
    "alpha", "beta", "name", "item", "value", "code", "street", "city", "first", "last", "unit", "price", "date", "kind",
    "node", "point", "line", "size", "angle", "deg", "owner", "group", "order", "color", "weight", "note", "tag", "zip", "x", "y", "id",
];
const WILD: &[&str] = &[
    "break", "type", "self", "Self", "super", "crate", "match", "fn", "in", "do", "try", "box", "yield", "final", "abstract", "become",
    "macro", "override", "priv", "typeof", "unsized", "virtual", "async", "await", "dyn", "gen", "static", "where", "union", "auto", "default",
    "a1", "A", "aB", "ABC", "x-y.z", "v1.2", "HTTPServer", "r2d2", "_private", "trailing_", "a__b", "camelCase", "Pascal_Snake", "UPPER_CASE",
    "node", "val", "ctx", "writer", "doc", "vec", "input", "body", "base", "data", "as", "const", "enum", "let", "mod", "loop", "true", "false",
    "e\u{e9}", "gr\u{f6}\u{df}e", "\u{c9}tat", "\u{540d}\u{524d}", "\u{3b1}\u{3b2}", "_", "_1", "_1a", "a-1", "i32", "u8", "str", "f32", "bool", "xsd", "std", "lookahead", "from_xml", "context",
    "xml", "main", "s", "f", "err", "name", "range", "len", "iter", "rust_decimal", "raw", "safe", "macro_rules", "lifetime", "struct", "use", "pub", "ref", "mut", "move", "return", "while", "trait", "unsafe", "extern", "else", "for", "if", "impl", "continue",
];
/// names whose Rust form shadows something the generated code may rely on
const SHADOW: &[&str] = &["string", "option", "vec", "result", "box", "some", "none", "ok", "err", "String", "Option", "clone", "debug", "default", "XmlEvent", "Context", "from_str", "display", "node", "error"];

pub struct SG<'a> {
    pub g: &'a mut Gen,
    pub p: &'a Profile,
    pub set: SchemaSet,
    f: usize,
    globals: BTreeSet<String>,
    /// elements of the current content model whose name may be used again
    pool: Vec<Elem>,
}

fn cap(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}

#[derive(Clone, Copy, PartialEq)]
enum In { Seq, Choice, All }

impl SG<'_> {
    fn name(&mut self, used: &mut BTreeSet<String>) -> String {
        for k in 0..20u32 {
            let n = if self.p.name_wild > 0 && self.g.chance(self.p.name_wild) {
                if self.g.chance(12) { self.g.pick(SHADOW).to_string() } else { self.g.pick(WILD).to_string() }
            } else {
                let a = *self.g.pick(WORDS);
                match if self.g.chance(4) { 9 } else { self.g.below(9) } {
                    9 => match self.g.below(6) {
                        0 => { let n = self.g.usize(3, 9); (0..n).fold(a.to_string(), |x, _| x + &cap(self.g.pick(WORDS))) }
                        1 => { let n = self.g.usize(3, 9); (0..n).fold(a.to_string(), |x, _| x + "_" + *self.g.pick(WORDS)) }
                        2 => format!("{}{}", a, self.g.below(1 << 40)),
                        3 => a.to_uppercase(),
                        4 => format!("{}.{}", a, self.g.pick(WORDS)),
                        _ => { let n = self.g.usize(6, 40); format!("{}{}", a, "q".repeat(n)) }
                    },
                    0 | 1 => a.to_string(),
                    2 => cap(a),
                    3 => format!("{}{}", a, cap(self.g.pick(WORDS))),
                    4 => format!("{}{}", cap(a), cap(self.g.pick(WORDS))),
                    5 => format!("{}_{}", a, self.g.pick(WORDS)),
                    6 => format!("{}-{}", a, self.g.pick(WORDS)),
                    7 => format!("{}{}", a, self.g.below(12)),
                    _ => format!("{}{}", a, cap(self.g.pick(WORDS))),
                }
            };
            let n = if k > 5 { format!("{}{}", n, k) } else { n };
            if used.insert(n.clone()) {
                return n;
            }
        }
        let n = format!("u{}", used.len());
        used.insert(n.clone());
        n
    }
    fn docs(&mut self) -> Docs {
        if self.p.docs_pct == 0 || !self.g.chance(self.p.docs_pct) {
            return Docs::default();
        }
        let t = if self.p.docs_wild {
            match self.g.below(8) {
                6 => String::new(),
                7 => {
                    let n = if self.g.chance(15) { self.g.usize(300, 3000) } else { self.g.usize(5, 60) };
                    (0..n).map(|i| format!("{}{}", self.g.pick(WORDS), if i % 9 == 8 { "\n     " } else { " " })).collect()
                }
                0 => "Some documentation.".to_string(),
                1 => "  Spread\n\t over  several\r\n lines ".to_string(),
                2 => "Quotes \" and ' and \\ and <tags> & {braces} # hash */ end".to_string(),
                3 => gen_string(self.g, &LitCfg { wild: 80, ..Default::default() }),
                4 => " ".to_string(),
                _ => format!("Doc {}", self.g.below(100000)),
            }
        } else {
            format!("Doc {}", self.g.below(100000))
        };
        let extra = self.g.chance(15) as u8;
        let style = if self.p.docs_wild && self.g.chance(50) { self.g.below(16) as u8 } else { 0 };
        Docs { text: Some(t), extra, style }
    }
    fn bi(&mut self) -> Bi { *self.g.pick(&self.p.bis) }
    pub fn occ(&mut self) -> Occ {
        let mut o = Occ::default();
        if self.g.chance(self.p.opt_pct) {
            o.min = Some(0);
        } else if self.g.chance(8) {
            o.min = Some(1);
        }
        if self.g.chance(self.p.vec_pct) {
            o.max = Some(match self.g.below(4) { 0 | 1 => Max::Unbounded, 2 => Max::N(if self.g.chance(25) { *self.g.pick(&[10, 7, 16, 33, 64, 100, 256, 1000, 65536, 4294967295]) } else { 2 + self.g.below(4) as u32 }), _ => Max::N(2) });
            if o.min.is_none() && self.g.chance(10) {
                let most = o.max().min(5) as u64;
                o.min = Some(if self.g.chance(60) { 2 } else { 2 + self.g.below(most - 1) as u32 });
            }
        } else if self.g.chance(8) {
            o.max = Some(Max::N(1));
        }
        o
    }
    fn gocc(&mut self, vec_ok: bool) -> Occ {
        if !self.g.chance(self.p.group_occ_pct) {
            return Occ::default();
        }
        let mut o = self.occ();
        if !vec_ok {
            o.max = None;
            if o.min() > 1 {
                o.min = None;
            }
        }
        o
    }
    fn simple(&mut self) -> Simple {
        let docs = self.docs();
        if self.g.chance(self.p.enum_pct) {
            let n = self.g.usize(1, self.p.enum_max);
            let mut used = BTreeSet::new();
            let mut enums: Vec<String> = vec![];
            // now and then hundreds of values without a letter
            let symbols = self.p.enum_wild >= 40 && self.g.below(250) == 0;
            let n = if symbols { self.g.usize(200, 400) } else { n };
            for i in 0..n {
                let v = if symbols {
                    const SY: &[char] = &['+', '*', '/', '~', '!', '?', '.', ',', ';', '%', '$'];
                    let mut k = i + 1;
                    let mut v = String::new();
                    while k > 0 {
                        v.push(SY[k % SY.len()]);
                        k /= SY.len();
                    }
                    v
                } else if self.p.enum_wild > 0 && self.g.chance(self.p.enum_wild) {
                    match self.g.below(8) {
                        7 => {
                            // a near copy of an earlier value, or two values that differ in one symbol
                            let b = if enums.is_empty() { self.g.pick(WORDS).to_string() } else { self.g.pick(&enums).clone() };
                            match self.g.below(5) {
                                0 => b.to_uppercase(),
                                1 => b.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
                                _ => {
                                    let c = *self.g.pick(&["\u{bd}", "\u{b2}", "\u{2460}", "\u{24b6}", "\u{24d0}", "\u{bc}", "\u{1f130}", "+", "-", "_", " ", "1", ".", "\u{e9}"]);
                                    match self.g.below(3) { 0 => format!("{}{}", c, b), 1 => format!("{}{}", b, c), _ => { let k = b.chars().count() / 2; b.chars().take(k).chain(c.chars()).chain(b.chars().skip(k)).collect() } }
                                }
                            }
                        }
                        6 => { let k = self.g.usize(1, 12); format!("{}{}", "a long value ".repeat(k * k), self.g.pick(WORDS)) }
                        0 => self.g.pick(&["", " ", "-", "_", "a b", "A B", "a-b", "a_b", "aB", "AB", "ab", "1", "01", "1a", "+", "*", "self", "Self", "Variant1", "variant 1", "Variant2", "V1", "%", "é", "É", "a.b", "a/b", "None", "Some", "Ok", "String", "true", "a  b", "a ", " a", "type", "Err", "漢字", "½", "²", "_a", "a_", "A-B", "0x1", "\u{1F600}", "s", "f", "ß", "Ss", "ẞ", "İ", "ǆ", "ŉ", "ﬁ", "crate", "super"]).to_string(),
                        1 => gen_string(self.g, &LitCfg { wild: 90, ..Default::default() }),
                        2 => { let w = *self.g.pick(WORDS); match self.g.below(4) { 0 => w.to_uppercase(), 1 => cap(w), 2 => format!("{} {}", w, self.g.pick(WORDS)), _ => format!("{}_{}", w, self.g.pick(WORDS)) } }
                        3 => format!("{}", self.g.below(300)),
                        4 => format!("{}-{}", self.g.pick(WORDS), self.g.below(10)),
                        _ => format!("{}{}", self.g.pick(&["-", "+", "#", "/", ".", "~"]), self.g.pick(WORDS)),
                    }
                } else {
                    let w = *self.g.pick(WORDS);
                    if self.g.chance(30) { cap(w) } else { w.to_string() }
                };
                let v = if used.contains(&v) { format!("{}{}", v, i) } else { v };
                let v = v.replace('\t', "\n");
                // known finding: letters that cannot start a Rust identifier (combining vowel signs) or
                // that are newer than its tables are probed separately; letters with a canonical equivalent are normalised by rustc
                let mut al = v.chars().filter(|c| c.is_alphanumeric() || matches!(c, '_' | '-'));
                if al.clone().next().map(|c| c.is_alphabetic() && !unicode_ident::is_xid_start(c)).unwrap_or(false) || al.any(|c| c.is_alphabetic() && !c.is_ascii() && !unicode_ident::is_xid_start(c)) || v.chars().any(unstable) {
                    continue;
                }
                if used.insert(v.clone()) {
                    enums.push(v);
                }
            }
            if enums.is_empty() {
                enums.push("only".to_string());
            }
            // enumerations over other bases are also generated as enums of strings
            let base = if self.g.chance(10) { self.bi() } else { Bi::String };
            let facets = if self.g.chance(10) { vec![("maxLength".to_string(), "500".to_string())] } else { vec![] };
            return Simple { docs, base, enums, facets };
        }
        let base = self.bi();
        let mut facets = vec![];
        // facets are accepted; the bounds are chosen wide enough for every generated value
        if self.g.chance(40) {
            match base.repr() {
                Repr::Str => for _ in 0..self.g.usize(1, 2) {
                    facets.push(match self.g.below(3) { 0 => ("minLength".into(), "0".into()), 1 => ("maxLength".into(), self.g.pick(&["10000000", "9999999", "4294967296", "9223372036854775807", "18446744073709551615", "010000000", "1000000000000"]).to_string()), _ => ("pattern".into(), self.g.pick(&["(.|\\s)*", "[\\s\\S]*"]).to_string()) });
                },
                Repr::Dec => facets.push(match self.g.below(3) { 0 => ("totalDigits".into(), self.g.pick(&["40", "100", "4294967296", "9223372036854775807"]).to_string()), 1 => ("fractionDigits".into(), self.g.pick(&["20", "18446744073709551615", "32"]).to_string()), _ => ("minInclusive".into(), self.g.pick(&["-9999999999999999999", "-79228162514264337593543950335", "-99999999999999999999.5"]).to_string()) }),
                Repr::I32 | Repr::I64 => facets.push(match self.g.below(2) { 0 => ("minInclusive".into(), "-9223372036854775808".into()), _ => ("maxInclusive".into(), "9223372036854775807".into()) }),
                Repr::U64 => facets.push(("maxInclusive".into(), "18446744073709551615".into())),
                _ => {}
            }
        }
        Simple { docs, base, enums: vec![], facets }
    }
    fn visible(&self, pred: impl Fn(&Def) -> bool) -> Vec<QN> {
        let mut v = vec![];
        for f in self.set.files.iter().skip(self.f) {
            // a file without target namespace cannot be referenced from one whose default namespace is taken
            if f.tns.is_none() && self.set.files[self.f].tns.is_some() {
                continue;
            }
            for d in &f.defs {
                if pred(d) {
                    v.push(QN { ns: f.tns.clone(), name: d.name.clone() });
                }
            }
        }
        v
    }
    fn fixed(&mut self, b: Bi) -> Option<String> {
        if self.p.fixed_pct > 0 && self.g.chance(self.p.fixed_pct) {
            let s = match b.repr() {
                Repr::Str => self.g.pick(&["fixed", "A b", "1.0", "<&>", "x", "", " x", "x ", "Fixed", "\u{e9}\u{1F600}"]).to_string(),
                _ => gen_lit(self.g, b, &LitCfg::default()),
            };
            Some(s)
        } else { None }
    }
    fn etype(&mut self, depth: usize, raw: &str, occ: &Occ) -> EType {
        let mut w = self.p.w_etype;
        if depth == 0 {
            w[2] = 0;
        }
        match self.g.weighted(&w) {
            1 => {
                let v = self.visible(|d| !matches!(d.kind, DefKind::Element(_)));
                let _ = (raw, occ);
                if v.is_empty() { let b = self.bi(); EType::Ref { ty: TypeRef::Bi(b), fixed: None } } else { EType::Ref { ty: TypeRef::Named(self.g.pick(&v).clone()), fixed: None } }
            }
            2 => EType::Complex(self.complex(depth - 1)),
            3 => EType::Simple(self.simple()),
            4 => EType::None,
            _ => {
                let b = self.bi();
                let fixed = self.fixed(b);
                EType::Ref { ty: TypeRef::Bi(b), fixed }
            }
        }
    }
    fn items(&mut self, n: usize, depth: usize, used: &mut BTreeSet<String>, ctx: In) -> Vec<Item> {
        let mut out = vec![];
        for _ in 0..n {
            let mut w = self.p.w_item;
            if depth == 0 || ctx == In::All {
                w[2] = 0;
                w[3] = 0;
            }
            if ctx == In::Choice {
                w[2] = 0;
            }
            let mut occ = self.occ();
            if ctx == In::All && occ.max.is_some() && !self.g.chance(35) {
                occ.max = None;
                if occ.min() > 1 { occ.min = None }
            }
            if ctx == In::Choice && occ.opt() {
                occ.min = None;
            }
            match self.g.weighted(&w) {
                1 => {
                    let v: Vec<QN> = self.visible(|d| matches!(d.kind, DefKind::Element(_))).into_iter().filter(|q| !used.contains(&q.name)).collect();
                    if v.is_empty() {
                        continue;
                    }
                    let q = self.g.pick(&v).clone();
                    used.insert(q.name.clone());
                    out.push(Item::Ref(q, occ));
                }
                2 => {
                    let o = self.gocc(true);
                    let n = self.g.usize(1, self.p.items.1.min(4));
                    let it = self.items(n, depth - 1, used, In::Choice);
                    if !it.is_empty() {
                        out.push(Item::Choice(o, it));
                    }
                }
                3 => {
                    let in_choice = ctx == In::Choice;
                    let mut o = self.gocc(in_choice);
                    if in_choice && o.opt() {
                        o.min = None;
                    }
                    let n = self.g.usize(1, self.p.items.1.min(4));
                    let mut it = self.items(n, depth - 1, used, In::Seq);
                    if in_choice && !it.iter().any(non_nullable) {
                        let name = self.name(used);
                        let b = self.bi();
                        let at = self.g.usize(0, it.len());
                        it.insert(at, Item::Elem(Elem { name, occ: Occ::default(), ty: EType::Ref { ty: TypeRef::Bi(b), fixed: None }, default: None, form: None, docs: Docs::default() }));
                    }
                    if !it.is_empty() {
                        let d = self.docs();
                        out.push(Item::Seq(o, d, it));
                    }
                }
                _ => {
                    if ctx != In::All && !self.pool.is_empty() && self.g.chance(self.p.reuse) {
                        let i = self.g.below(self.pool.len() as u64) as usize;
                        let mut e = self.pool[i].clone();
                        e.occ = occ;
                        out.push(Item::Elem(e));
                        continue;
                    }
                    let name = self.name(used);
                    let ty = self.etype(depth.min(self.p.depth), &name, &occ);
                    let default = match &ty { EType::Ref { ty: TypeRef::Bi(Bi::String), fixed: None } if self.g.chance(5) => Some("dflt".to_string()), _ => None };
                    let form = if self.p.form_pct > 0 && self.g.chance(self.p.form_pct) { Some(self.g.chance(50)) } else { None };
                    let docs = self.docs();
                    let e = Elem { name, occ, ty, default, form, docs };
                    if self.p.reuse > 0 && ctx != In::All && matches!(e.ty, EType::Ref { .. }) {
                        self.pool.push(e.clone());
                    }
                    out.push(Item::Elem(e));
                }
            }
        }
        out
    }
    fn attrs(&mut self, used_fields: &BTreeSet<String>) -> Vec<Attr> {
        let n = self.g.usize(self.p.attrs.0, self.p.attrs.1);
        let mut used = used_fields.clone();
        let mut out = vec![];
        for _ in 0..n {
            let name = self.name(&mut used);
            if name == "xmlns" {
                continue;
            }
            let use_ = *self.g.pick(&[Use::Absent, Use::Required, Use::Optional, Use::Absent, Use::Required, Use::Absent, Use::Required, Use::Prohibited]);
            let mut fixed = None;
            let ty = match self.g.weighted(&self.p.w_attr) {
                1 => {
                    let v = self.visible(|d| matches!(d.kind, DefKind::Simple(_)));
                    if v.is_empty() { AttrTy::Ref(TypeRef::Bi(self.bi())) } else { AttrTy::Ref(TypeRef::Named(self.g.pick(&v).clone())) }
                }
                2 if use_ != Use::Prohibited => AttrTy::Simple(self.simple()),
                _ => {
                    let b = self.bi();
                    fixed = self.fixed(b);
                    AttrTy::Ref(TypeRef::Bi(b))
                }
            };
            let default = if matches!(use_, Use::Absent | Use::Optional) && fixed.is_none() && self.g.chance(8) { Some("1".to_string()) } else { None };
            let docs = self.docs();
            out.push(Attr { name, ty, use_, fixed, default, docs });
        }
        out
    }
    fn base_names(&self, q: &QN, used: &mut BTreeSet<String>) {
        if let Some((_, d)) = self.set.find(q) {
            if let DefKind::Complex(c) = &d.kind {
                content_names(&c.content, used);
                for a in &c.attrs {
                    used.insert(a.name.clone());
                }
                match &c.content {
                    Content::Ext { base, .. } => self.base_names(base, used),
                    Content::Simple(TypeRef::Named(q)) => self.base_names(q, used),
                    _ => {}
                }
            }
        }
    }
    fn complex(&mut self, depth: usize) -> Complex {
        let pool = std::mem::take(&mut self.pool);
        let c = self.complex_(depth);
        self.pool = pool;
        c
    }
    fn complex_(&mut self, depth: usize) -> Complex {
        let docs = self.docs();
        let mixed_false = self.g.chance(3);
        let mut used = BTreeSet::new();
        let content = match self.g.weighted(&self.p.w_content) {
            0 => Content::Empty,
            2 => {
                let o = if self.g.chance(15) { Occ { min: Some(0), max: None } } else { Occ::default() };
                let n = self.g.usize(1, self.p.items.1 + 1);
                Content::All(o, self.items(n, depth, &mut used, In::All))
            }
            3 => {
                let n = self.g.usize(1, self.p.items.1);
                Content::Choice(self.items(n, depth, &mut used, In::Choice))
            }
            4 => {
                let v = self.visible(|d| match &d.kind { DefKind::Simple(_) => true, DefKind::Complex(c) => matches!(c.content, Content::Simple(_)), _ => false });
                if !v.is_empty() && self.g.chance(50) {
                    let q = self.g.pick(&v).clone();
                    self.base_names(&q, &mut used);
                    Content::Simple(TypeRef::Named(q))
                } else {
                    Content::Simple(TypeRef::Bi(self.bi()))
                }
            }
            5 => {
                let v = self.visible(|d| matches!(&d.kind, DefKind::Complex(c) if !matches!(c.content, Content::Simple(_))));
                if v.is_empty() {
                    let n = self.g.usize(self.p.items.0, self.p.items.1);
                    Content::Seq(Occ::default(), self.items(n, depth, &mut used, In::Seq))
                } else {
                    let base = self.g.pick(&v).clone();
                    self.base_names(&base, &mut used);
                    let all = self.has_all(&base);
                    let seq = if !all && self.g.chance(65) {
                        let o = if self.g.chance(25) { Occ { min: Some(0), max: None } } else { Occ::default() };
                        let n = self.g.usize(1, self.p.items.1);
                        let it = self.items(n, depth, &mut used, In::Seq);
                        if it.is_empty() { None } else { Some((o, it)) }
                    } else { None };
                    Content::Ext { base, seq }
                }
            }
            _ => {
                let o = if self.g.chance(20) { self.gocc(true) } else { Occ::default() };
                let n = self.g.usize(self.p.items.0, self.p.items.1);
                Content::Seq(o, self.items(n, depth, &mut used, In::Seq))
            }
        };
        let content = match content {
            Content::Seq(_, v) | Content::All(_, v) | Content::Choice(v) if v.is_empty() => Content::Empty,
            c => c,
        };
        let attrs = self.attrs(&used);
        Complex { docs, mixed_false, content, attrs }
    }
    fn has_all(&self, q: &QN) -> bool {
        match self.set.find(q) {
            Some((_, Def { kind: DefKind::Complex(c), .. })) => match &c.content { Content::All(..) => true, Content::Ext { base, .. } => self.has_all(base), _ => false },
            _ => false,
        }
    }
    fn def(&mut self, want_element: bool) -> Def {
        let mut gl = self.globals.clone();
        let name = self.name(&mut gl);
        let k = if want_element { 0 } else { self.g.weighted(&self.p.w_def) };
        let docs = self.docs();
        let kind = match k {
            1 => DefKind::Complex(self.complex(self.p.depth)),
            2 => DefKind::Simple(self.simple()),
            _ => {
                let mut w = self.p.w_etype;
                w[4] = 0;
                w[2] *= 2;
                let t = match self.g.weighted(&w) {
                    1 => {
                        let v = self.visible(|d| !matches!(d.kind, DefKind::Element(_)));
                        if v.is_empty() { EType::Complex(self.complex(self.p.depth)) } else { EType::Ref { ty: TypeRef::Named(self.g.pick(&v).clone()), fixed: None } }
                    }
                    2 => EType::Complex(self.complex(self.p.depth)),
                    3 => EType::Simple(self.simple()),
                    _ => {
                        if self.g.chance(50) { EType::Complex(self.complex(self.p.depth)) } else {
                            let b = self.bi();
                            let fixed = self.fixed(b);
                            EType::Ref { ty: TypeRef::Bi(b), fixed }
                        }
                    }
                };
                DefKind::Element(t)
            }
        };
        let mut d = Def { name, docs: if matches!(kind, DefKind::Element(_)) { docs } else { Docs::default() }, kind };
        if self.p.recursion_pct > 0 && self.g.chance(self.p.recursion_pct) {
            self.add_recursion(&mut d);
        }
        d
    }
    /// adds a repeated child of the definition's own type
    fn add_recursion(&mut self, d: &mut Def) {
        let (n, is_el) = (d.name.clone(), matches!(d.kind, DefKind::Element(_)));
        self.add_child_of(d, n, is_el)
    }
    /// adds a repeated child that is a reference to, or of the type of, a definition of the file
    fn add_child_of(&mut self, d: &mut Def, dn: String, is_el: bool) {
        let tns = self.set.files[self.f].tns.clone();
        let q = QN { ns: tns, name: dn.clone() };
        let c = match &mut d.kind { DefKind::Complex(c) => c, DefKind::Element(EType::Complex(c)) => c, _ => return };
        if let Content::Seq(o, items) = &mut c.content {
            if *o != Occ::default() {
                return;
            }
            let occ = Occ { min: if self.g.chance(80) { Some(0) } else { Some(0) }, max: Some(Max::Unbounded) };
            let mut used = BTreeSet::new();
            for i in items.iter() {
                item_names(i, &mut used);
            }
            if is_el {
                if used.contains(&dn) {
                    return;
                }
                items.push(Item::Ref(q, occ));
            } else {
                let name = self.name(&mut used);
                items.push(Item::Elem(Elem { name, occ, ty: EType::Ref { ty: TypeRef::Named(q), fixed: None }, default: None, form: None, docs: Docs::default() }));
            }
        }
    }
}

pub fn non_nullable(i: &Item) -> bool {
    match i {
        Item::Elem(e) => !e.occ.opt(),
        Item::Ref(_, o) => !o.opt(),
        Item::Choice(o, v) => !o.opt() && v.iter().all(non_nullable),
        Item::Seq(o, _, v) => !o.opt() && v.iter().any(non_nullable),
    }
}
pub fn item_names(i: &Item, used: &mut BTreeSet<String>) {
    match i {
        Item::Elem(e) => { used.insert(e.name.clone()); }
        Item::Ref(q, _) => { used.insert(q.name.clone()); }
        Item::Choice(_, v) | Item::Seq(_, _, v) => v.iter().for_each(|i| item_names(i, used)),
    }
}
pub fn content_names(c: &Content, used: &mut BTreeSet<String>) {
    match c {
        Content::Seq(_, v) | Content::All(_, v) | Content::Choice(v) => v.iter().for_each(|i| item_names(i, used)),
        Content::Ext { seq: Some((_, v)), .. } => v.iter().for_each(|i| item_names(i, used)),
        _ => {}
    }
}

const URIS: &[&str] = &["urn:a", "http://example.com/schema/v1", "urn:b:c", "http://example.com/ns#x", "tag:x,2020:y/", "urn:A", "http://example.com/a?b=c;d", "http://example.com/schema/v1/", "URN:a", "urn:a:b:c:d", "http://example.com/schema/v2", "x"];

pub fn gen_set(g: &mut Gen, p: &Profile) -> (SchemaSet, Lowered) {
    let mut blown;
    let mut p = p;
    if p.big > 0 && g.chance(p.big) {
        blown = p.clone();
        match g.below(6) {
            0 => { blown.items = if g.chance(15) { (40, 150) } else { (12, 36) }; blown.depth = blown.depth.min(1); }
            1 => blown.attrs = if g.chance(15) { (30, 80) } else { (9, 24) },
            2 => { blown.enum_max = if g.chance(25) { 320 } else { 90 }; blown.enum_pct = blown.enum_pct.max(60); blown.defs = (2, 3); blown.w_def[2] += 8; }
            3 => { blown.defs = (14, 24); blown.items.1 = blown.items.1.min(3); blown.depth = blown.depth.min(2); }
            4 => { blown.depth = 8; blown.items = (1, 2); blown.w_etype[2] += 12; blown.defs = (2, 3); }
            _ => { if blown.files.1 > 1 { blown.files = (7, 12); blown.defs = (1, 2); } else { blown.items = (8, 20); blown.depth = 2; } }
        }
        p = &blown;
    }
    let nf = g.usize(p.files.0, p.files.1);
    let mut files = vec![];
    for i in 0..nf {
        let tns = if i > 0 && !p.mixed_ns {
            let f0: &SFile = &files[0];
            f0.tns.clone()
        } else if i > 0 && g.chance(45) {
            let f0: &SFile = &files[g.below(i as u64) as usize];
            f0.tns.clone()
        } else if g.chance(p.tns_pct) {
            Some(g.pick(URIS).to_string())
        } else { None };
        let qual = if g.chance(p.qual_pct) { Qual::Qualified } else { *g.pick(&[Qual::Absent, Qual::Unqualified]) };
        let mut sp = Spelling { xs: g.pick(&["xs", "xs", "xsd", "s"]).to_string(), tns_prefix: Some(g.pick(&["tns", "t", "ns1", "my-ns", "ns2"]).to_string()), noise: p.noise };
        if tns.is_some() {
            match g.below(100) {
                x if x >= 100 - p.default_ns_pct as u64 => sp.tns_prefix = None,
                x if x >= 100 - 2 * p.default_ns_pct.min(45) as u64 => sp.xs = String::new(),
                _ => {}
            }
        }
        let base = if p.subdirs && g.chance(25) {
            g.pick(&["part{}", "part{}.XSD", "a+b{}.xsd", "a&b{}.xsd", "a;b={}.xsd", "1.0.{}.xml", "Pa rt{}.xsd", "\u{e9}t\u{e9}{}.xsd", "~{},x!(1)@.xsd", "PART{}.xsd"]).replace("{}", &i.to_string())
        } else { format!("part{}.xsd", i) };
        let path = if i == 0 { "main.xsd".to_string() } else if p.subdirs && g.chance(50) { format!("{}/{}", g.pick(&["sub", "common", "sub/deep", "v1.0+x", "Sub"]), base) } else { base };
        files.push(SFile { path, tns, qual, links: vec![], defs: vec![], sp });
    }
    let mut s = SG { g, p, set: SchemaSet { files }, f: 0, globals: BTreeSet::new(), pool: vec![] };
    let mut low = Lowered::default();
    for fi in (0..nf).rev() {
        s.f = fi;
        let n = s.g.usize(p.defs.0, p.defs.1);
        for k in 0..n {
            for _attempt in 0..6 {
                let want_el = fi == 0 && k + 1 == n;
                let d = s.def(want_el);
                let name = d.name.clone();
                s.set.files[fi].defs.push(d);
                match lower(&s.set) {
                    Ok(l) if !l.has_nullable_alternative() && l.deterministic() => {
                        low = l;
                        s.globals.insert(name);
                        break;
                    }
                    _ => { s.set.files[fi].defs.pop(); }
                }
            }
        }
    }
    // references backwards, which close longer cycles of types
    if p.recursion_pct > 0 {
        for fi in 0..nf {
            for _ in 0..s.g.usize(0, 2) {
                let n = s.set.files[fi].defs.len();
                if n < 2 || !s.g.chance(p.recursion_pct * 2) {
                    continue;
                }
                let (a, b) = (s.g.usize(0, n - 1), s.g.usize(0, n - 1));
                if a == b {
                    continue;
                }
                let keep = s.set.files[fi].defs[a].clone();
                let mut d = keep.clone();
                s.f = fi;
                let to = &s.set.files[fi].defs[b];
                let (tn, is_el) = (to.name.clone(), matches!(to.kind, DefKind::Element(_)));
                s.add_child_of(&mut d, tn, is_el);
                s.set.files[fi].defs[a] = d;
                match lower(&s.set) {
                    Ok(l) if !l.has_nullable_alternative() && l.deterministic() => low = l,
                    _ => s.set.files[fi].defs[a] = keep,
                }
            }
        }
    }
    if low.elements().is_empty() {
        // always at least one root
        s.set.files[0].defs.push(Def { name: "fallbackRoot".into(), docs: Docs::default(), kind: DefKind::Element(EType::Ref { ty: TypeRef::Bi(Bi::String), fixed: None }) });
    }
    let mut set = s.set;
    // links
    for fi in 0..nf {
        let mut need: BTreeSet<usize> = BTreeSet::new();
        let mut refs = BTreeSet::new();
        for d in &set.files[fi].defs {
            def_refs(d, &mut refs);
        }
        for q in &refs {
            if let Some((t, _)) = set.find(q) {
                if t != fi {
                    need.insert(t);
                }
            }
        }
        if fi == 0 {
            for t in 1..nf {
                // every file must be reachable; direct link unless another file will include it
                need.insert(t);
            }
        }
        for t in need {
            let import = set.files[t].tns != set.files[fi].tns;
            set.files[fi].links.push(Link { import, target: t, dot: 0 });
        }
    }
    // drop some of main's links to files that are reachable through another file with the same namespace
    if nf > 2 {
        for t in 1..nf {
            let via = (1..nf).any(|m| m != t && set.files[m].links.iter().any(|l| l.target == t) && set.files[0].links.iter().any(|l| l.target == m && !l.import));
            if via && set.files[t].tns == set.files[0].tns && g.chance(50) {
                set.files[0].links.retain(|l| l.target != t);
            }
        }
    }
    if p.extra_links > 0 {
        // redundant links keep the arrangement acyclic: only towards later files
        for fi in 0..nf {
            for t in fi + 1..nf {
                if !set.files[fi].links.iter().any(|l| l.target == t) && g.chance(p.extra_links) {
                    let import = set.files[t].tns != set.files[fi].tns;
                    set.files[fi].links.push(Link { import, target: t, dot: 0 });
                }
            }
            for l in &mut set.files[fi].links {
                if g.chance(p.extra_links) {
                    l.dot = 1 + g.below(3) as u8;
                }
            }
        }
    }
    for f in &mut set.files {
        if g.chance(60) {
            g.shuffle(&mut f.defs);
        }
        if g.chance(50) {
            g.shuffle(&mut f.links);
        }
    }
    let low = lower(&set).expect("generated set lowers");
    (set, low)
}

pub fn def_refs(d: &Def, out: &mut BTreeSet<QN>) {
    fn tr(t: &TypeRef, o: &mut BTreeSet<QN>) { if let TypeRef::Named(q) = t { o.insert(q.clone()); } }
    fn et(t: &EType, o: &mut BTreeSet<QN>) {
        match t { EType::Ref { ty, .. } => tr(ty, o), EType::Complex(c) => cx(c, o), _ => {} }
    }
    fn it(i: &Item, o: &mut BTreeSet<QN>) {
        match i {
            Item::Elem(e) => et(&e.ty, o),
            Item::Ref(q, _) => { o.insert(q.clone()); }
            Item::Choice(_, v) | Item::Seq(_, _, v) => v.iter().for_each(|i| it(i, o)),
        }
    }
    fn cx(c: &Complex, o: &mut BTreeSet<QN>) {
        match &c.content {
            Content::Seq(_, v) | Content::All(_, v) | Content::Choice(v) => v.iter().for_each(|i| it(i, o)),
            Content::Simple(t) => tr(t, o),
            Content::Ext { base, seq } => {
                o.insert(base.clone());
                if let Some((_, v)) = seq {
                    v.iter().for_each(|i| it(i, o));
                }
            }
            Content::Empty => {}
        }
        for a in &c.attrs {
            if let AttrTy::Ref(t) = &a.ty {
                tr(t, o);
            }
        }
    }
    match &d.kind { DefKind::Element(t) => et(t, out), DefKind::Complex(c) => cx(c, out), DefKind::Simple(_) => {} }
}
