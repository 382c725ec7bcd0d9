//! Instance documents: values, reference rendering, reference decoding, serialisation.
use crate::lower::*;
use crate::model::*;
use crate::tape::Gen;
use std::collections::BTreeMap;

/// A value of a generated type. For fields, the list holds the occurrences (0, 1 or many).
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Lit(Bi, String),
    Fixed(String),
    Enum(usize),
    Newtype(Box<Val>),
    Struct(Vec<Vec<Val>>),
    Choice(usize, Vec<Val>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum XNode { E(XElem), T(Bi, String) }
#[derive(Clone, Debug, PartialEq)]
pub struct XElem {
    pub name: String,
    pub ns: Option<String>,
    pub attrs: Vec<(String, Bi, String)>,
    pub kids: Vec<XNode>,
    /// content is text (even when empty): whitespace matters
    pub text: bool,
    /// children may be reordered freely (all-group)
    pub unordered: bool,
}
impl XElem {
    pub fn new(n: &XName) -> Self {
        XElem { name: n.name.clone(), ns: n.ns.clone(), attrs: vec![], kids: vec![], text: false, unordered: false }
    }
    pub fn elems(&self) -> impl Iterator<Item = &XElem> {
        self.kids.iter().filter_map(|k| if let XNode::E(e) = k { Some(e) } else { None })
    }
    pub fn count(&self) -> usize { 1 + self.elems().map(|e| e.count()).sum::<usize>() }
    pub fn text_value(&self) -> String {
        self.kids.iter().filter_map(|k| if let XNode::T(_, s) = k { Some(s.as_str()) } else { None }).collect()
    }
}

// ------------------------------------------------------------------ literals

#[derive(Clone, Debug, Default)]
pub struct LitCfg {
    /// 0 plain words, 1 any XML characters
    pub wild: u32,
    /// percent of alternative spellings (leading zeros, plus signs, 1/0 booleans, padding)
    pub alt: u32,
    /// strings may contain CR / attributes may contain TAB etc.
    pub ctl: bool,
}

pub fn gen_string(g: &mut Gen, cfg: &LitCfg) -> String {
    let k = if cfg.wild > 0 && g.chance(cfg.wild) { g.below(8) + 1 } else { 0 };
    match k {
        0 => g.pick(&["a", "hello", "some text", "x1", "B-2", "Zürich", "", "0"]).to_string(),
        1 => {
            let n = g.usize(0, 6);
            (0..n).map(|_| *g.pick(&['<', '>', '&', '"', '\'', ']', '-', '?', '!', '%', '{', '}', '\\', 'a'])).collect()
        }
        2 => {
            let n = g.usize(1, 5);
            let cs: &[char] = if cfg.ctl { &[' ', '\n', '\t', '\r', 'a'] } else { &[' ', '\n', '\t', 'a'] };
            (0..n).map(|_| *g.pick(cs)).collect()
        }
        3 => {
            let n = g.usize(1, 5);
            (0..n).map(|_| *g.pick(&['é', 'ß', '漢', '\u{1F600}', '\u{a0}', '\u{2028}', '\u{fffd}', '\u{85}', '\u{e000}', '\u{10ffff}', '\u{d7ff}', '\u{200b}', '\u{301}'])).collect()
        }
        4 => g.pick(&["]]>", "<![CDATA[x]]>", "<!-- c -->", "&amp;", "&#10;", "<a/>", "</a>", "<?pi?>", "&lt;b&gt;", "--", "{0}", "\\n", "#{x}"]).to_string(),
        5 => {
            let n = g.usize(1, 4);
            (0..n).map(|_| {
                let c = g.below(0x10ffff) as u32;
                match char::from_u32(c) {
                    Some(c) if is_xml_char(c) && c != '\r' => c,
                    _ => 'z',
                }
            }).collect()
        }
        6 => format!("{}{}{}", g.pick(&[" ", "\n", "  ", "\t", ""]), g.pick(&["a", "a  b", "<"]), g.pick(&[" ", "\n", "   ", ""])),
        7 => match g.below(6) {
            0 => "long\u{e9} \u{6f22}".repeat(g.usize(1, 60)),
            1 => format!("{}{}", "x".repeat(g.usize(0, 4)), g.pick(&["\u{e9}", "\u{6f22}", "\u{1F600}"]).repeat(g.usize(1, 120))),
            3 if g.chance(8) => "\u{e9}\u{6f22}<\u{1F600}&".repeat(g.usize(2000, 9000)),
            2 if g.chance(20) => "<0123456789 abcdef> & \n".repeat(if g.chance(8) { g.usize(3000, 9000) } else { g.usize(100, 800) }),
            _ => "long ".repeat(g.usize(10, 80)),
        },
        _ => g.pick(&["true", "1", "None", "null", "NaN", "ns1:a", "xs:string", "{urn:a}b", "r#type", "\u{feff}x"]).to_string(),
    }
}
pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

pub fn gen_lit(g: &mut Gen, b: Bi, cfg: &LitCfg) -> String {
    let alt = cfg.alt > 0 && g.chance(cfg.alt);
    let pad = |g: &mut Gen, s: String| -> String {
        if cfg.alt > 0 && b.repr() != Repr::Str && g.chance(cfg.alt / 3) {
            format!("{}{}{}", g.pick(&["", " ", "\n", "\t "]), s, g.pick(&["", " ", "  \n"]))
        } else { s }
    };
    let s = match b.repr() {
        Repr::Bool => if alt { g.pick(&["0", "1"]).to_string() } else { g.pick(&["false", "true"]).to_string() },
        Repr::I32 => {
            let v: i64 = match g.below(4) { 0 => g.below(10) as i64, 1 => *g.pick(&[0, -1, i32::MIN as i64, i32::MAX as i64, 255, -128, 32768]), 2 => g.below(1 << 32) as i64 + i32::MIN as i64, _ => -(g.below(1000) as i64) };
            int_spell(g, v as i128, alt)
        }
        Repr::I64 => {
            let v: i128 = match g.below(4) { 0 => g.below(10) as i128, 1 => *g.pick(&[0, -1, i64::MIN as i128, i64::MAX as i128, 1 << 32, -(1i128 << 31) - 1, 1 << 53]), 2 => g.below(u64::MAX) as i128 + i64::MIN as i128, _ => -(g.below(100000) as i128) };
            int_spell(g, v, alt)
        }
        Repr::U64 => {
            let lo = (b == Bi::Positive) as u64;
            let v: u64 = match g.below(3) { 0 => lo + g.below(10), 1 => *g.pick(&[1, u64::MAX, 1 << 32, 1 << 63, (1 << 31) - 1]), _ => g.below(u64::MAX).max(lo) };
            int_spell(g, v as i128, alt)
        }
        Repr::Dec => {
            let neg = g.chance(30);
            let ip = match g.below(3) { 0 => g.below(10), 1 => g.below(100000), _ => g.below(1_000_000_000_000_000) };
            let fr = match g.below(4) {
                0 => String::new(),
                1 => format!(".{}", g.below(10)),
                2 => format!(".{:03}", g.below(1000)),
                _ => format!(".{:010}", g.below(10_000_000_000)),
            };
            let mut s = format!("{}{}{}", if neg { "-" } else { "" }, ip, fr);
            if g.chance(12) {
                // up to the 28 digits every Decimal holds, with the point anywhere
                let n = g.usize(15, 28);
                let d: String = (0..n).map(|i| if i == 0 || i + 1 == n { char::from(b'1' + g.below(9) as u8) } else { char::from(b'0' + g.below(10) as u8) }).collect();
                let p = g.usize(0, n);
                let lit = match p {
                    0 => format!("{}0.{}", if neg { "-" } else { "" }, d),
                    p if p == n => if g.chance(20) { "-79228162514264337593543950335".into() } else { d },
                    p => format!("{}{}.{}", if neg { "-" } else { "" }, &d[..p], &d[p..]),
                };
                return pad(g, lit);
            }
            if alt {
                s = match g.below(4) {
                    0 => if neg { s } else { format!("+{}", s) },
                    1 => format!("{}{}", s, if s.contains('.') { "00" } else { ".0" }),
                    2 => format!("{}00{}", if neg { "-" } else { "" }, s.trim_start_matches('-')),
                    _ => format!("{}.{}", if neg { "-" } else { "" }, g.below(1000) + 1),
                };
            }
            s
        }
        Repr::F32 => match g.below(if alt { 8 } else { 5 }) {
            0 => g.pick(&["0", "1", "1.5", "-2.25", "100"]).to_string(),
            1 => format!("{}", f32::from_bits(g.below(0x7f80_0000) as u32)),
            2 => format!("-{}", f32::from_bits(g.below(0x7f80_0000) as u32)),
            3 => format!("{}.{}", g.below(1000), g.below(1000)),
            4 => format!("{}e{}", g.below(10), g.range(0, 30) as i64 - 15),
            5 => g.pick(&["INF", "-INF", "NaN"]).to_string(),
            6 => g.pick(&["1E4", "1.e3", ".5", "-0", "+3.5", "1e-45", "3.4028235E38", "007.50"]).to_string(),
            _ => format!("{}E+{}", g.below(10), g.below(20)),
        },
        Repr::Str => match b {
            Bi::String | Bi::AnyType | Bi::Any => gen_string(g, cfg),
            Bi::DateTime => format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}", g.range(1, 9999), g.range(1, 12), g.range(1, 28), g.below(24), g.below(60), g.below(60), g.pick(&["", "Z", ".5", "+01:00", ".123-14:00"])),
            Bi::Time => format!("{:02}:{:02}:{:02}{}", g.below(24), g.below(60), g.below(60), g.pick(&["", "Z", ".25", "-05:30"])),
            Bi::Date => format!("{:04}-{:02}-{:02}{}", g.range(1, 9999), g.range(1, 12), g.range(1, 28), g.pick(&["", "Z", "+02:00"])),
            Bi::Duration => g.pick(&["P1D", "PT5M", "-P1Y2M3DT4H5M6.7S", "P0Y"]).to_string(),
            Bi::Base64 => g.pick(&["", "YQ==", "AAEC", "YWJj ZGVm"]).to_string(),
            Bi::Hex => g.pick(&["", "00", "DEADbeef", "0fB7"]).to_string(),
            _ => unreachable!(),
        },
    };
    pad(g, s)
}
fn int_spell(g: &mut Gen, v: i128, alt: bool) -> String {
    if !alt {
        return v.to_string();
    }
    match g.below(3) {
        0 => if v >= 0 { format!("+{}", v) } else { v.to_string() },
        1 => if v < 0 { format!("-00{}", -v) } else { format!("00{}", v) },
        _ => if v == 0 { "-0".to_string() } else { v.to_string() },
    }
}

/// Canonical form of a literal: equal iff the literals denote the same value.
pub fn canon(b: Bi, lex: &str) -> Option<String> {
    let xml_ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r');
    if b.repr() == Repr::Str {
        return Some(lex.to_string());
    }
    let t = lex.trim_matches(xml_ws);
    match b.repr() {
        Repr::Bool => match t { "true" | "1" => Some("true".into()), "false" | "0" => Some("false".into()), _ => None },
        Repr::I32 | Repr::I64 | Repr::U64 => {
            let d = t.strip_prefix(['+', '-']).unwrap_or(t);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            let v: i128 = t.strip_prefix('+').unwrap_or(t).parse().ok()?;
            let (lo, hi) = match b.repr() { Repr::I32 => (i32::MIN as i128, i32::MAX as i128), Repr::I64 => (i64::MIN as i128, i64::MAX as i128), _ => (0, u64::MAX as i128) };
            if v < lo || v > hi { None } else { Some(v.to_string()) }
        }
        Repr::Dec => {
            let (neg, d) = match t.strip_prefix('-') { Some(d) => (true, d), None => (false, t.strip_prefix('+').unwrap_or(t)) };
            let (i, f) = d.split_once('.').unwrap_or((d, ""));
            if (i.is_empty() && f.is_empty()) || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
                return None;
            }
            let i = i.trim_start_matches('0');
            let f = f.trim_end_matches('0');
            let z = i.is_empty() && f.is_empty();
            Some(format!("{}{}.{}", if neg && !z { "-" } else { "" }, if i.is_empty() { "0" } else { i }, f))
        }
        Repr::F32 => {
            let v: f32 = match t { "INF" => f32::INFINITY, "-INF" => f32::NEG_INFINITY, "NaN" => f32::NAN,
                _ => {
                    if !t.bytes().all(|c| c.is_ascii_digit() || matches!(c, b'.' | b'e' | b'E' | b'+' | b'-')) { return None }
                    t.parse().ok()?
                } };
            Some(if v.is_nan() { "NaN".into() } else { format!("{:08x}", v.to_bits()) })
        }
        Repr::Str => unreachable!(),
    }
}

// ------------------------------------------------------------------ value generation

#[derive(Clone, Debug)]
pub struct ValCfg {
    pub lit: LitCfg,
    pub opt_pct: u32,
    pub max_rep: usize,
    pub depth: usize,
    /// lists of literals near the root get tens of thousands of items
    pub huge: bool,
    /// follow one chain of recursive fields down to this depth, everything else minimal
    pub spine: usize,
}
impl Default for ValCfg {
    fn default() -> Self { ValCfg { lit: LitCfg::default(), opt_pct: 50, max_rep: 3, depth: 7, huge: false, spine: 0 } }
}

pub fn gen_ty(l: &Lowered, g: &mut Gen, t: &LTy, c: &ValCfg, depth: usize) -> Val {
    match t {
        LTy::Lit(b) => Val::Lit(*b, gen_lit(g, *b, &c.lit)),
        LTy::Fixed(_, s) => Val::Fixed(s.clone()),
        LTy::Named(n) => gen_named(l, g, n, c, depth, false),
    }
}
fn gen_field(l: &Lowered, g: &mut Gen, f: &Field, c: &ValCfg, depth: usize, force: bool) -> Vec<Val> {
    if depth > c.depth && !force && f.opt {
        return vec![];
    }
    if f.opt && !force && !g.chance(c.opt_pct) {
        return vec![];
    }
    if c.spine > depth {
        // one occurrence continues the chain, the others are minimal
        let n = if f.vec { (f.occ.min() as usize).max(1) } else { 1 };
        let rest = ValCfg { spine: 0, ..c.clone() };
        return (0..n).map(|i| {
            let (c, d) = if i == 0 { (c, depth) } else { (&rest, depth.max(c.depth)) };
            match (&f.role, &f.ty) {
                (Role::Inline, LTy::Named(t)) => gen_named(l, g, t, c, d + 1, true),
                _ => gen_ty(l, g, &f.ty, c, d + 1),
            }
        }).collect();
    }
    if c.huge && f.vec && depth < 4 && matches!((&f.role, &f.ty), (Role::Elem(_), LTy::Lit(_))) {
        let n = (f.occ.max() as usize).min(*g.pick(&[5000, 20000, 70000])).max(f.occ.min() as usize).max(1);
        let pool: Vec<Val> = (0..7).map(|_| gen_ty(l, g, &f.ty, c, depth + 1)).collect();
        return (0..n).map(|i| pool[i % 7].clone()).collect();
    }
    if c.huge && f.vec && depth < 3 && matches!(f.role, Role::Elem(_) | Role::Inline) && matches!(f.ty, LTy::Named(_)) {
        let n = (f.occ.max() as usize).min(*g.pick(&[1100, 400, 5000])).max(f.occ.min() as usize).max(1);
        let few = ValCfg { depth: depth + 1, huge: false, ..c.clone() };
        let pool: Vec<Val> = (0..7).map(|_| match (&f.role, &f.ty) {
            (Role::Inline, LTy::Named(t)) => gen_named(l, g, t, &few, depth + 1, true),
            _ => gen_ty(l, g, &f.ty, &few, depth + 1),
        }).collect();
        return (0..n).map(|i| pool[i % 7].clone()).collect();
    }
    // now and then many repetitions, of small content
    let few = ValCfg { depth, ..c.clone() };
    let mut c = c;
    let n = if f.vec {
        let lo = (f.occ.min() as usize).max(1);
        let hi = (f.occ.max() as usize).min(lo.max(c.max_rep));
        if depth > c.depth { lo } else if !c.huge && g.chance(4) {
            let many = if g.chance(if matches!(f.ty, LTy::Lit(_)) { 20 } else { 12 }) { c = &few; *g.pick(&[300, 70, 130]) } else { 20 };
            (f.occ.max() as usize).min(many).max(lo)
        } else { g.usize(lo, hi.max(lo)) }
    } else { 1 };
    let mut out = vec![];
    for _ in 0..n {
        out.push(match (&f.role, &f.ty) {
            // an optional or repeated group only exists through its content
            (Role::Inline, LTy::Named(t)) => gen_named(l, g, t, c, depth + 1, f.opt || f.vec || force),
            _ => gen_ty(l, g, &f.ty, c, depth + 1),
        });
        // known finding: tabs in attributes are not kept (probed separately)
        if let (Role::Attr(_), Some(Val::Lit(_, s))) = (&f.role, out.last_mut()) {
            if s.contains('\t') {
                *s = s.replace('\t', " ");
            }
        }
    }
    out
}
/// `nonempty`: the inlined content must have at least one element
pub fn gen_named(l: &Lowered, g: &mut Gen, n: &str, c: &ValCfg, depth: usize, nonempty: bool) -> Val {
    let t = l.get(n);
    match &t.kind {
        LKind::Newtype(ty) => Val::Newtype(Box::new(gen_ty(l, g, ty, c, depth))),
        LKind::Enum(vs) => Val::Enum(g.below(vs.len() as u64) as usize),
        LKind::Struct(fs) if c.spine > depth && fs.iter().any(|f| recursive(l, f)) => {
            let idx: Vec<usize> = (0..fs.len()).filter(|i| recursive(l, &fs[*i])).collect();
            let k = *g.pick(&idx);
            let rest = ValCfg { spine: 0, ..c.clone() };
            Val::Struct((0..fs.len()).map(|i| if i == k { gen_field(l, g, &fs[i], c, depth, true) } else { gen_field(l, g, &fs[i], &rest, depth.max(c.depth + 1), false) }).collect())
        }
        LKind::Choice(fs) if c.spine > depth && fs.iter().any(|f| recursive(l, f)) => {
            let idx: Vec<usize> = (0..fs.len()).filter(|i| recursive(l, &fs[*i])).collect();
            let k = *g.pick(&idx);
            Val::Choice(k, gen_field(l, g, &fs[k], c, depth, true))
        }
        LKind::Struct(fs) => {
            let plain = ValCfg { spine: 0, ..c.clone() };
            let c = &plain;
            let mut vals: Vec<Vec<Val>> = fs.iter().map(|f| gen_field(l, g, f, c, depth, false)).collect();
            if nonempty && !has_elems(l, fs, &vals) {
                let idx: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i].role, Role::Elem(_) | Role::AllElem(_) | Role::Inline)).collect();
                if !idx.is_empty() {
                    let i = *g.pick(&idx);
                    vals[i] = gen_field(l, g, &fs[i], c, depth, true);
                }
            }
            Val::Struct(vals)
        }
        LKind::Choice(fs) => {
            let plain = ValCfg { spine: 0, ..c.clone() };
            let c = &plain;
            // deep recursion: prefer literal alternatives
            let i = if depth > c.depth {
                fs.iter().position(|f| matches!(f.ty, LTy::Lit(_) | LTy::Fixed(..))).unwrap_or(0)
            } else { g.below(fs.len() as u64) as usize };
            let f = &fs[i];
            Val::Choice(i, gen_field(l, g, f, c, depth, matches!(f.role, Role::Inline)))
        }
    }
}
/// does the field's type lead into a cycle of types
fn recursive(l: &Lowered, f: &Field) -> bool {
    let LTy::Named(n) = &f.ty else { return false };
    l.reach(n).iter().any(|t| l.types.get(t).map(|x| x.deps.iter().any(|d| l.reach(d).contains(t))).unwrap_or(false))
}
fn has_elems(l: &Lowered, fs: &[Field], vals: &[Vec<Val>]) -> bool {
    let mut x = XElem::new(&XName { name: String::new(), ns: None });
    for (f, v) in fs.iter().zip(vals) {
        render_field(l, f, v, &mut x);
    }
    let r = x.elems().next().is_some();
    r
}

// ------------------------------------------------------------------ reference rendering

pub fn render_root(l: &Lowered, t: &LType, v: &Val) -> XElem {
    let mut x = XElem::new(&t.xml);
    render_named(l, &t.rust, v, &mut x);
    x
}
fn render_ty(l: &Lowered, t: &LTy, v: &Val, x: &mut XElem) {
    match (t, v) {
        (LTy::Lit(_), Val::Lit(b, s)) => {
            x.text = true;
            if !s.is_empty() {
                x.kids.push(XNode::T(*b, s.clone()));
            }
        }
        (LTy::Fixed(..), Val::Fixed(s)) => {
            x.text = true;
            if !s.is_empty() {
                x.kids.push(XNode::T(Bi::String, s.clone()));
            }
        }
        (LTy::Named(n), v) => render_named(l, n, v, x),
        (t, v) => panic!("render mismatch {:?} {:?}", t, v),
    }
}
fn render_named(l: &Lowered, n: &str, v: &Val, x: &mut XElem) {
    let t = l.get(n);
    match (&t.kind, v) {
        (LKind::Newtype(ty), Val::Newtype(v)) => render_ty(l, ty, v, x),
        (LKind::Enum(vs), Val::Enum(i)) => {
            x.text = true;
            if !vs[*i].1.is_empty() {
                x.kids.push(XNode::T(Bi::String, vs[*i].1.clone()));
            }
        }
        (LKind::Struct(fs), Val::Struct(vals)) => {
            for (f, v) in fs.iter().zip(vals) {
                render_field(l, f, v, x);
            }
        }
        (LKind::Choice(fs), Val::Choice(i, vals)) => render_field(l, &fs[*i], vals, x),
        (k, v) => panic!("render mismatch {:?} {:?}", k, v),
    }
}
fn render_field(l: &Lowered, f: &Field, vals: &[Val], x: &mut XElem) {
    for v in vals {
        match &f.role {
            Role::Elem(n) | Role::AllElem(n) => {
                if matches!(f.role, Role::AllElem(_)) {
                    x.unordered = true;
                }
                let mut e = XElem::new(n);
                render_ty(l, &f.ty, v, &mut e);
                x.kids.push(XNode::E(e));
            }
            Role::Inline => render_ty(l, &f.ty, v, x),
            Role::Text => render_ty(l, &f.ty, v, x),
            Role::Attr(n) => {
                let (b, s) = match v {
                    Val::Lit(b, s) => (*b, s.clone()),
                    Val::Fixed(s) => (Bi::String, s.clone()),
                    Val::Enum(i) => match &f.ty {
                        LTy::Named(t) => match &l.get(t).kind { LKind::Enum(vs) => (Bi::String, vs[*i].1.clone()), _ => panic!() },
                        _ => panic!(),
                    },
                    v => panic!("attr value {:?}", v),
                };
                x.attrs.push((n.clone(), b, s));
            }
        }
    }
}

// ------------------------------------------------------------------ reference decoding

#[derive(Clone, Debug, PartialEq)]
pub enum RErr {
    MissingElement(String, Option<String>),
    MissingAttribute(String),
    TextExpected(String),
    InvalidVariant(String),
    MissingVariant(String),
    ParseType(Vec<String>, String),
    FixedMismatch(String, String),
}
impl RErr {
    pub fn kind(&self) -> &'static str {
        match self {
            RErr::MissingElement(..) => "MissingElement", RErr::MissingAttribute(_) => "MissingAttribute", RErr::TextExpected(_) => "TextExpected",
            RErr::InvalidVariant(_) => "InvalidVariant", RErr::MissingVariant(_) => "MissingVariant", RErr::ParseType(..) => "ParseType", RErr::FixedMismatch(..) => "FixedMismatch",
        }
    }
}
pub fn type_names(b: Bi) -> Vec<String> {
    ALL_BI.iter().filter(|x| x.repr() == b.repr()).map(|x| x.xsd().to_string()).collect()
}

struct Cur<'a> { node: &'a XElem, rest: Vec<&'a XElem> }

pub fn decode_root(l: &Lowered, t: &LType, x: &XElem) -> Result<Val, RErr> {
    if x.name != t.xml.name || x.ns != t.xml.ns {
        return Err(RErr::MissingElement(t.xml.name.clone(), t.xml.ns.clone()));
    }
    dec_elem(l, &LTy::Named(t.rust.clone()), x)
}
fn dec_elem(l: &Lowered, t: &LTy, x: &XElem) -> Result<Val, RErr> {
    let mut c = Cur { node: x, rest: x.elems().collect() };
    dec_ty(l, t, &mut c)
}
fn text(x: &XElem) -> Result<String, RErr> {
    if x.elems().next().is_some() {
        return Err(RErr::TextExpected(x.name.clone()));
    }
    Ok(x.text_value())
}
fn lit(b: Bi, s: &str) -> Result<Val, RErr> {
    match canon(b, s) {
        Some(_) => Ok(Val::Lit(b, s.to_string())),
        None => Err(RErr::ParseType(type_names(b), s.to_string())),
    }
}
fn dec_ty(l: &Lowered, t: &LTy, c: &mut Cur) -> Result<Val, RErr> {
    match t {
        LTy::Lit(b) => lit(*b, &text(c.node)?),
        LTy::Fixed(_, f) => {
            let s = text(c.node)?;
            if s != *f { Err(RErr::FixedMismatch(f.clone(), s)) } else { Ok(Val::Fixed(s)) }
        }
        LTy::Named(n) => dec_named(l, n, c),
    }
}
fn dec_named(l: &Lowered, n: &str, c: &mut Cur) -> Result<Val, RErr> {
    let t = l.get(n);
    match &t.kind {
        LKind::Newtype(ty) => Ok(Val::Newtype(Box::new(dec_ty(l, ty, c)?))),
        LKind::Enum(vs) => {
            let s = text(c.node)?;
            vs.iter().position(|v| v.1 == s).map(Val::Enum).ok_or(RErr::InvalidVariant(s))
        }
        LKind::Struct(fs) => {
            let mut out = vec![];
            for f in fs {
                out.push(dec_field(l, f, c)?);
            }
            Ok(Val::Struct(out))
        }
        LKind::Choice(fs) => {
            for (i, f) in fs.iter().enumerate() {
                if starts(l, f, c) {
                    let vals = dec_field(l, f, c)?;
                    return Ok(Val::Choice(i, vals));
                }
            }
            Err(RErr::MissingVariant(t.rust.clone()))
        }
    }
}
fn is(x: &XElem, n: &XName) -> bool { x.name == n.name && x.ns == n.ns }
fn starts(l: &Lowered, f: &Field, c: &Cur) -> bool {
    let Some(next) = c.rest.first() else { return false };
    match (&f.role, &f.ty) {
        (Role::Elem(n), _) => is(next, n),
        (Role::AllElem(n), _) => c.rest.iter().any(|x| is(x, n)),
        (Role::Inline, LTy::Named(t)) => {
            let fi = l.first(t);
            fi.contains(&(next.name.clone(), next.ns.clone()))
        }
        _ => false,
    }
}
fn dec_field(l: &Lowered, f: &Field, c: &mut Cur) -> Result<Vec<Val>, RErr> {
    let mut out = vec![];
    match &f.role {
        Role::Attr(n) => match c.node.attrs.iter().find(|a| a.0 == *n) {
            None if f.opt => {}
            None => return Err(RErr::MissingAttribute(n.clone())),
            Some((_, _, s)) => out.push(match &f.ty {
                LTy::Lit(b) => lit(*b, s)?,
                LTy::Fixed(_, fx) => if s != fx { return Err(RErr::FixedMismatch(fx.clone(), s.clone())) } else { Val::Fixed(s.clone()) },
                LTy::Named(t) => match &l.get(t).kind {
                    LKind::Enum(vs) => Val::Enum(vs.iter().position(|v| v.1 == *s).ok_or(RErr::InvalidVariant(s.clone()))?),
                    k => panic!("attr type {:?}", k),
                },
            }),
        },
        Role::Text => out.push(dec_ty(l, &f.ty, c)?),
        Role::Elem(n) => {
            loop {
                match c.rest.first() {
                    Some(x) if is(x, n) => {
                        let x = c.rest.remove(0);
                        out.push(dec_elem(l, &f.ty, x)?);
                    }
                    _ => break,
                }
                if !f.vec {
                    break;
                }
            }
            if out.is_empty() && !f.opt && !f.vec {
                return Err(RErr::MissingElement(n.name.clone(), n.ns.clone()));
            }
        }
        Role::AllElem(n) => {
            while let Some(i) = c.rest.iter().position(|x| is(x, n)) {
                let x = c.rest.remove(i);
                out.push(dec_elem(l, &f.ty, x)?);
                if !f.vec {
                    break;
                }
            }
            if out.is_empty() && !f.opt && !f.vec {
                return Err(RErr::MissingElement(n.name.clone(), n.ns.clone()));
            }
        }
        Role::Inline => {
            if f.vec {
                while starts(l, f, c) {
                    out.push(dec_ty(l, &f.ty, c)?);
                }
            } else if !f.opt || starts(l, f, c) {
                out.push(dec_ty(l, &f.ty, c)?);
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------ serialisation

/// `{uri}name`
fn clark(k: &str) -> Option<(&str, &str)> { k.strip_prefix('{')?.split_once('}') }
pub fn write_plain(x: &XElem) -> String {
    let mut o = String::new();
    wp(x, &mut o, &None);
    o
}
fn wp(x: &XElem, o: &mut String, inherited: &Option<String>) {
    // default-namespace spelling: redeclare whenever the namespace changes
    o.push('<');
    o.push_str(&x.name);
    if x.ns != *inherited {
        o.push_str(&format!(" xmlns=\"{}\"", esc_attr(x.ns.as_deref().unwrap_or(""))));
    }
    for (i, (k, _, v)) in x.attrs.iter().enumerate() {
        match clark(k) {
            Some((u, n)) => o.push_str(&format!(" xmlns:qa{}=\"{}\" qa{}:{}=\"{}\"", i, esc_attr(u), i, n, esc_attr(v))),
            None => o.push_str(&format!(" {}=\"{}\"", k, esc_attr(v))),
        }
    }
    if x.kids.is_empty() {
        o.push_str("/>");
        return;
    }
    o.push('>');
    for k in &x.kids {
        match k {
            XNode::E(e) => wp(e, o, &x.ns),
            XNode::T(_, s) => o.push_str(&esc_text(s)),
        }
    }
    o.push_str(&format!("</{}>", x.name));
}

/// Writes the document in one of its many equivalent spellings.
pub fn write_noisy(x: &XElem, g: &mut Gen) -> String {
    let mut o = String::new();
    if g.chance(20) {
        o.push('\u{feff}');
    }
    if g.chance(50) {
        o.push_str(g.pick(&["<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n"]));
    }
    misc(g, &mut o, 30);
    let mut n = Noisy { g, ctr: 0 };
    n.elem(x, &mut o, &BTreeMap::new());
    misc(g, &mut o, 30);
    o
}
fn misc(g: &mut Gen, o: &mut String, pct: u32) {
    while g.chance(pct) {
        o.push_str(g.pick(&["\n", "<!-- comment -->", "<?target data?>", " \t", "<!-- <a>b</a> & -->", "\r\n"]));
    }
}
struct Noisy<'a> { g: &'a mut Gen, ctr: usize }
impl Noisy<'_> {
    /// scope: prefix ("" = default) -> uri
    fn elem(&mut self, x: &XElem, o: &mut String, scope: &BTreeMap<String, String>) {
        let mut scope = scope.clone();
        let mut decl: Vec<(String, String)> = vec![];
        let default = scope.get("").cloned().unwrap_or_default();
        let tag = match &x.ns {
            None => {
                if !default.is_empty() {
                    decl.push(("".into(), "".into()));
                    scope.insert("".into(), "".into());
                }
                x.name.clone()
            }
            Some(u) => {
                let have: Vec<String> = scope.iter().filter(|(_, v)| *v == u).map(|(k, _)| k.clone()).collect();
                let p = if !have.is_empty() && !self.g.chance(25) {
                    self.g.pick(&have).clone()
                } else {
                    let p = match self.g.below(4) {
                        0 => String::new(),
                        1 => { self.ctr += 1; format!("p{}", self.ctr) }
                        2 => self.g.pick(&["ns1", "ns2", "xs", "a", "b.c", "_x"]).to_string(),
                        _ => "q".to_string(),
                    };
                    decl.push((p.clone(), u.clone()));
                    scope.insert(p.clone(), u.clone());
                    p
                };
                if p.is_empty() { x.name.clone() } else { format!("{}:{}", p, x.name) }
            }
        };
        let mut items: Vec<(String, String)> = decl.into_iter().map(|(p, u)| (if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", p) }, u)).collect();
        for (i, (k, _, v)) in x.attrs.iter().enumerate() {
            match clark(k) {
                Some((u, n)) => {
                    items.push((format!("xmlns:qa{}", i), u.to_string()));
                    items.push((format!("qa{}:{}", i, n), v.clone()));
                }
                None => items.push((k.clone(), v.clone())),
            }
        }
        if self.g.chance(10) {
            items.push(("xmlns:unused".into(), "urn:unused".into()));
        }
        if self.g.chance(10) {
            // foreign attribute, sometimes with the local name of a real one
            let n = if x.attrs.is_empty() || self.g.chance(40) { "schemaLocation".to_string() } else { { let k = self.g.pick(&x.attrs).0.clone(); clark(&k).map(|c| c.1.to_string()).unwrap_or(k) } };
            items.push((format!("xsi:{}", n), "foreign value".into()));
            items.push(("xmlns:xsi".into(), "http://www.w3.org/2001/XMLSchema-instance".into()));
        }
        self.g.shuffle(&mut items);
        o.push('<');
        o.push_str(&tag);
        for (k, v) in items {
            o.push_str(self.g.pick(&[" ", "\n\t", "  "]));
            let q = if self.g.chance(40) { '\'' } else { '"' };
            o.push_str(&k);
            o.push_str(self.g.pick(&["=", " = "]));
            o.push(q);
            for c in v.chars() {
                let forced = matches!(c, '<' | '&' | '\n' | '\r' | '\t') || c == q;
                self.chr(c, o, forced, true);
            }
            o.push(q);
        }
        if self.g.chance(15) {
            o.push(' ');
        }
        if x.kids.is_empty() && !self.g.chance(40) {
            o.push_str("/>");
            return;
        }
        o.push('>');
        if x.text {
            for k in &x.kids {
                if let XNode::T(_, s) = k {
                    self.text(s, o);
                }
            }
            if x.kids.is_empty() && self.g.chance(30) {
                o.push_str(self.g.pick(&["<!-- empty -->", "<![CDATA[]]>", "<?p?>"]));
            }
        } else {
            misc(self.g, o, 25);
        }
        for k in &x.kids {
            match k {
                XNode::E(e) => {
                    self.elem(e, o, &scope);
                    if !x.text {
                        misc(self.g, o, 20);
                    }
                }
                XNode::T(_, s) if !x.text => self.text(s, o),
                _ => {}
            }
        }
        o.push_str(&format!("</{}{}>", tag, if self.g.chance(15) { " " } else { "" }));
    }
    fn chr(&mut self, c: char, o: &mut String, forced: bool, _attr: bool) {
        if forced || self.g.chance(6) {
            match (c, self.g.below(3)) {
                ('<', 0) => o.push_str("&lt;"), ('&', 0) => o.push_str("&amp;"), ('>', 0) => o.push_str("&gt;"),
                ('"', 0) => o.push_str("&quot;"), ('\'', 0) => o.push_str("&apos;"),
                (c, 1) => o.push_str(&format!("&#x{:X};", c as u32)),
                (c, _) => o.push_str(&format!("&#{};", c as u32)),
            }
        } else {
            o.push(c);
        }
    }
    fn text(&mut self, s: &str, o: &mut String) {
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if self.g.chance(6) {
                o.push_str(self.g.pick(&["<!-- in text -->", "<?pi in text?>", "<!---->"]));
            }
            if self.g.chance(8) {
                // CDATA section over a run
                let n = self.g.usize(0, (cs.len() - i).min(12));
                let run: String = cs[i..i + n].iter().collect();
                if !run.contains("]]>") && !run.contains('\r') && !run.ends_with(']') {
                    o.push_str("<![CDATA[");
                    o.push_str(&run);
                    o.push_str("]]>");
                    i += n;
                    continue;
                }
            }
            let c = cs[i];
            self.chr(c, o, matches!(c, '<' | '&' | '\r' | '>'), false);
            i += 1;
        }
    }
}

// ------------------------------------------------------------------ reading encoder output

pub fn parse_xml(s: &str) -> Result<XElem, String> {
    let d = roxmltree::Document::parse(s).map_err(|e| e.to_string())?;
    fn conv(n: roxmltree::Node) -> XElem {
        let mut x = XElem::new(&XName { name: n.tag_name().name().to_string(), ns: n.tag_name().namespace().filter(|s| !s.is_empty()).map(|s| s.to_string()) });
        for a in n.attributes() {
            let k = match a.namespace() { Some(u) => format!("{{{}}}{}", u, a.name()), None => a.name().to_string() };
            x.attrs.push((k, Bi::String, a.value().to_string()));
        }
        for c in n.children() {
            if c.is_element() {
                x.kids.push(XNode::E(conv(c)));
            } else if c.is_text() {
                let t = c.text().unwrap_or("");
                if let Some(XNode::T(_, s)) = x.kids.last_mut() {
                    s.push_str(t);
                } else {
                    x.kids.push(XNode::T(Bi::String, t.to_string()));
                }
            }
        }
        x
    }
    Ok(conv(d.root_element()))
}

/// `exp` comes from the reference rendering, `act` from parsing encoder output.
pub fn same_doc(exp: &XElem, act: &XElem) -> Result<(), String> {
    let here = format!("<{}>", exp.name);
    if exp.name != act.name || exp.ns != act.ns {
        return Err(format!("expected element {{{}}}{}, got {{{}}}{}", exp.ns.as_deref().unwrap_or(""), exp.name, act.ns.as_deref().unwrap_or(""), act.name));
    }
    let mut ea = exp.attrs.clone();
    let mut aa = act.attrs.clone();
    ea.sort_by(|a, b| a.0.cmp(&b.0));
    aa.sort_by(|a, b| a.0.cmp(&b.0));
    if ea.len() != aa.len() || ea.iter().zip(&aa).any(|(e, a)| e.0 != a.0 || !lit_eq(e.1, &e.2, &a.2)) {
        let f = |v: &Vec<(String, Bi, String)>| v.iter().map(|a| format!("{}={:?}", a.0, a.2)).collect::<Vec<_>>().join(" ");
        return Err(format!("{}: attributes expected [{}], got [{}]", here, f(&ea), f(&aa)));
    }
    let atext = act.text_value();
    if exp.text {
        if act.elems().next().is_some() {
            return Err(format!("{}: unexpected child elements in text content", here));
        }
        let (b, s) = match exp.kids.first() { Some(XNode::T(b, s)) => (*b, s.as_str()), _ => (Bi::String, "") };
        if !lit_eq(b, s, &atext) {
            return Err(format!("{}: text expected {:?}, got {:?}", here, s, atext));
        }
        return Ok(());
    }
    if !atext.trim().is_empty() {
        return Err(format!("{}: unexpected text {:?}", here, atext));
    }
    let ee: Vec<&XElem> = exp.elems().collect();
    let mut ae: Vec<&XElem> = act.elems().collect();
    if ee.len() != ae.len() {
        return Err(format!("{}: {} children expected ({}), got {} ({})", here, ee.len(), ee.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join(","), ae.len(), ae.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join(",")));
    }
    if exp.unordered {
        for e in ee {
            let Some(i) = ae.iter().position(|a| a.name == e.name && a.ns == e.ns) else {
                return Err(format!("{}: member {} missing", here, e.name));
            };
            same_doc(e, ae.remove(i)).map_err(|m| format!("{}/{}", here, m))?;
        }
        return Ok(());
    }
    for (e, a) in ee.iter().zip(&ae) {
        same_doc(e, a).map_err(|m| format!("{}/{}", here, m))?;
    }
    Ok(())
}
pub fn lit_eq(b: Bi, e: &str, a: &str) -> bool {
    if b.repr() == Repr::Str {
        return e == a;
    }
    match (canon(b, e), canon(b, a)) { (Some(x), Some(y)) => x == y, _ => e == a }
}
