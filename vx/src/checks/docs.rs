//! Checks that run documents on the generated types.
use crate::dbg;
use crate::gen::Profile;
use crate::inst::*;
use crate::lower::*;
use crate::pipe::*;
use crate::proc::Resp;
use crate::tape::Gen;

/// a valid document: root index, value, tree; None when the reference itself finds it ambiguous
pub fn valid(s: &Schema, g: &mut Gen, c: &ValCfg) -> Option<(usize, Val, XElem)> {
    let ri = pick_root(s, g);
    let t = s.low.get(&s.roots[ri]);
    let v = gen_named(&s.low, g, &t.rust, c, 0, false);
    let x = render_root(&s.low, t, &v);
    if x.count() > if c.huge { 300_000 } else { 3000 } {
        return None;
    }
    match decode_root(&s.low, t, &x) {
        Ok(w) if w == v => Some((ri, v, x)),
        _ => None,
    }
}
/// roots that involve many types are picked more often
pub fn pick_root(s: &Schema, g: &mut Gen) -> usize {
    let w: Vec<u32> = s.roots.iter().map(|r| {
        let n: usize = s.low.reach(r).iter().map(|t| match &s.low.get(t).kind { LKind::Struct(f) | LKind::Choice(f) => 1 + f.len(), _ => 1 }).sum();
        n.min(30) as u32
    }).collect();
    g.weighted(&w)
}
pub fn show(r: &Resp) -> String {
    match r {
        Resp::Crash(s) => format!("crash ({})", s),
        Resp::Hang => "no answer within the CPU budget".into(),
        Resp::Fields(f) => f.iter().take(5).map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>().join(" | "),
    }
}
pub fn must_ok(r: &Resp) -> Result<(), String> {
    match r {
        Resp::Fields(f) if f.first().map(|b| b.as_slice()) == Some(b"ok") => Ok(()),
        r => Err(format!("valid document not decoded: {}", show(r))),
    }
}
pub fn decoded(low: &Lowered, rust: &str, v: &Val, r: &Resp) -> Result<(), String> {
    must_ok(r)?;
    let d = dbg::parse(&r.s(1)).map_err(|e| format!("unreadable debug output {}: {}", r.s(1), e))?;
    dbg::named(low, rust, v, &d, rust).map_err(|e| format!("decoded value differs: {} (value {})", e, r.s(1)))?;
    if r.s(2) != "eq" && !r.s(1).contains("NaN") {
        return Err("clone of the value is not equal to it".into());
    }
    Ok(())
}
pub fn encoded(x: &XElem, r: &Resp) -> Result<(), String> {
    must_ok(r)?;
    if r.s(3) != "ok" {
        return Err(format!("encoding failed: {}", r.s(3)));
    }
    let a = parse_xml(&r.s(4)).map_err(|e| format!("encoded document is not well-formed: {}\n{}", e, r.s(4)))?;
    same_doc(x, &a).map_err(|e| format!("encoded document differs: {}\n{}", e, r.s(4)))
}
pub fn roundtrip(r: &Resp) -> Result<(), String> {
    must_ok(r)?;
    if r.s(3) != "ok" {
        return Err(format!("encoding failed: {}", r.s(3)));
    }
    let nan = r.s(1).contains("NaN");
    if r.s(5) != "eq" && !nan {
        return Err(format!("decode(encode(v)) differs from v: {}\nv  = {}\nv' = {}\nxml: {}", r.s(5), r.s(1), r.s(6), r.s(4)));
    }
    if r.s(6) != r.s(1) {
        return Err(format!("decode(encode(v)) differs from v:\nv  = {}\nv' = {}\nxml: {}", r.s(1), r.s(6), r.s(4)));
    }
    if r.s(7) != r.s(4) {
        return Err(format!("encoding the decoded value again gives other bytes:\n{}\n{}", r.s(4), r.s(7)));
    }
    Ok(())
}

fn vc(opt: u32) -> ValCfg { ValCfg { opt_pct: opt, ..Default::default() } }

/// now and then very long lists or very deep nesting
fn stretch(g: &mut Gen, c: ValCfg) -> ValCfg {
    match g.below(500) {
        498 => ValCfg { huge: true, ..c },
        490..=497 => ValCfg { spine: g.usize(20, 150), ..c },
        _ => c,
    }
}
fn doc_c01(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let o = *g.pick(&[50, 50, 20, 90]);
    let c = stretch(g, vc(o));
    let (ri, v, x) = valid(s, g, &c)?;
    let low = s.low.clone();
    let rust = s.roots[ri].clone();
    Some(DocCase {
        reqs: vec![(ri, write_plain(&x).into_bytes())],
        nontrivial: x.count() > 1 || !x.attrs.is_empty(),
        label: format!("elements {}", bucket(x.count())),
        judge: Box::new(move |r| decoded(&low, &rust, &v, &r[0])),
    })
}
pub fn bucket(n: usize) -> &'static str {
    match n { 0 | 1 => "1", 2..=4 => "2-4", 5..=9 => "5-9", 10..=29 => "10-29", 30..=999 => "30-999", _ => "1000+" }
}
fn doc_c02(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let o = *g.pick(&[50, 50, 20, 90]);
    let c = stretch(g, vc(o));
    let (ri, _, x) = valid(s, g, &c)?;
    Some(DocCase {
        reqs: vec![(ri, write_plain(&x).into_bytes())],
        nontrivial: x.count() > 1 || !x.attrs.is_empty(),
        label: format!("elements {}", bucket(x.count())),
        judge: Box::new(move |r| encoded(&x, &r[0])),
    })
}
fn doc_c03(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let c = ValCfg { lit: LitCfg { wild: 75, alt: 20, ctl: true }, ..vc(60) };
    let c = stretch(g, c);
    let (ri, _, x) = valid(s, g, &c)?;
    Some(DocCase {
        reqs: vec![(ri, write_plain(&x).into_bytes())],
        nontrivial: x.count() > 1 || !x.attrs.is_empty(),
        label: format!("elements {}", bucket(x.count())),
        judge: Box::new(move |r| roundtrip(&r[0])),
    })
}


// ---------------------------------------------------------------- mutations of valid documents

/// paths (child indices among element children) of all elements
fn paths(x: &XElem, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    for (i, e) in x.elems().enumerate() {
        at.push(i);
        paths(e, at, out);
        at.pop();
    }
}
pub fn all_paths(x: &XElem) -> Vec<Vec<usize>> {
    let mut o = vec![];
    paths(x, &mut vec![], &mut o);
    o
}
pub fn at_mut<'a>(x: &'a mut XElem, p: &[usize]) -> &'a mut XElem {
    let mut x = x;
    for &i in p {
        x = x.kids.iter_mut().filter_map(|k| if let XNode::E(e) = k { Some(e) } else { None }).nth(i).unwrap();
    }
    x
}
pub fn look<'a>(x: &'a XElem, p: &[usize]) -> &'a XElem { p.iter().fold(x, |x, i| x.elems().nth(*i).unwrap()) }
fn kid_pos(x: &XElem, i: usize) -> usize {
    x.kids.iter().enumerate().filter(|(_, k)| matches!(k, XNode::E(_))).nth(i).unwrap().0
}
pub const BAD_LITS: &[&str] = &["", " ", "abc", "1.5.2", "--1", "1,5", "TRUE", "yes", "0x10", "1e", "99999999999999999999999", "-", "+", "1 2", "\u{ff11}", "1_000", "inf", "nan", "Infinity", "+INF", "-1", "1.0", "2147483648", "-2147483649", "9223372036854775808", "18446744073709551616", "True", "00x", "e5", ".", "+-1", "t", "f", "2", "-0.5", "10", "null", "None", "\u{a0}1", "1\u{a0}"];

/// a text close to `old`, or one that is hardly a literal of any type
fn bad_text(old: &str, g: &mut Gen) -> String {
    match g.below(20) {
        0 | 1 => format!("{}x", old),
        2 => old.to_uppercase(),
        3 | 4 => format!("{} ", old),
        5 | 6 => format!(" {}", old),
        7 => String::new(),
        8 => format!("\u{a0}{}", old),
        9 => old.chars().skip(1).collect(),
        10 => { let mut c: Vec<char> = old.chars().collect(); c.pop(); c.into_iter().collect() }
        11 => format!("{}{}", "x".repeat(g.usize(0, 4)), g.pick(&["\u{e9}", "\u{6f22}", "\u{1F600}", "1", "- "]).repeat(g.usize(1, 120))),
        _ => g.pick(BAD_LITS).to_string(),
    }
}

/// one fault; returns its class
pub fn mutate(x: &mut XElem, g: &mut Gen) -> Option<&'static str> {
    let ps = all_paths(x);
    let p = g.pick(&ps).clone();
    let k = g.below(14);
    if k == 0 {
        let e = at_mut(x, &[]);
        return Some(if g.chance(50) {
            e.name = g.pick(&["wrong", "Root", "x"]).to_string() + &e.name;
            "wrong root name"
        } else {
            e.ns = if e.ns.is_some() && g.chance(60) { None } else { Some(g.pick(&["urn:wrong", "urn:a", "http://example.com/schema/v1/"]).to_string()) };
            "wrong root namespace"
        });
    }
    // prefer elements that have what the mutation needs
    let want: Vec<Vec<usize>> = ps.iter().filter(|p| {
        let e = look(x, p);
        match k { 1..=6 => e.elems().next().is_some(), 7 | 8 => !e.attrs.is_empty(), 9..=12 => e.text, _ => true }
    }).cloned().collect();
    if want.is_empty() && k != 13 {
        return None;
    }
    let p = if want.is_empty() { p } else { g.pick(&want).clone() };
    let e = at_mut(x, &p);
    let n = e.elems().count();
    match k {
        1 | 2 => {
            let i = kid_pos(e, g.below(n as u64) as usize);
            e.kids.remove(i);
            Some("child removed")
        }
        3 => {
            let i = kid_pos(e, g.below(n as u64) as usize);
            if let XNode::E(c) = &mut e.kids[i] {
                c.name = match g.below(4) { 0 => format!("{}x", c.name), 1 => c.name.to_uppercase(), 2 => c.name.to_lowercase(), _ => "other".into() };
            }
            Some("child renamed")
        }
        4 => {
            let i = kid_pos(e, g.below(n as u64) as usize);
            if let XNode::E(c) = &mut e.kids[i] {
                c.ns = if c.ns.is_some() && g.chance(60) { None } else { Some(g.pick(&["urn:wrong", "urn:a", "urn:b:c"]).to_string()) };
            }
            Some("child in another namespace")
        }
        5 => {
            if n < 2 {
                return None;
            }
            let i = g.below(n as u64 - 1) as usize;
            let j = if g.chance(70) { i + 1 } else { g.usize(i + 1, n - 1) };
            let (i, j) = (kid_pos(e, i), kid_pos(e, j));
            e.kids.swap(i, j);
            Some("children swapped")
        }
        6 => {
            let i = kid_pos(e, g.below(n as u64) as usize);
            let at = g.usize(0, e.kids.len());
            match g.below(3) {
                0 => { let c = e.kids[i].clone(); e.kids.insert(at, c); Some("child duplicated") }
                1 => { let mut c = XElem::new(&XName { name: "extra".into(), ns: e.ns.clone() }); c.text = true; e.kids.insert(at, XNode::E(c)); Some("child inserted") }
                _ => { let c = e.kids.remove(i); let at = g.usize(0, e.kids.len()); e.kids.insert(at, c); Some("child moved") }
            }
        }
        7 => {
            let i = g.below(e.attrs.len() as u64) as usize;
            e.attrs.remove(i);
            Some("attribute removed")
        }
        8 => {
            let i = g.below(e.attrs.len() as u64) as usize;
            e.attrs[i].2 = bad_text(&e.attrs[i].2, g);
            Some("attribute changed")
        }
        9..=11 => {
            let old = e.text_value();
            let new = bad_text(&old, g);
            let b = match e.kids.first() { Some(XNode::T(b, _)) => *b, _ => crate::model::Bi::String };
            e.kids.clear();
            if !new.is_empty() {
                e.kids.push(XNode::T(b, new));
            }
            Some("text changed")
        }
        12 => {
            let mut c = XElem::new(&XName { name: "extra".into(), ns: e.ns.clone() });
            c.text = true;
            if g.chance(50) { c.kids.push(XNode::T(crate::model::Bi::String, "1".into())) }
            let at = g.usize(0, e.kids.len());
            e.kids.insert(at, XNode::E(c));
            Some("element in text")
        }
        _ => {
            e.kids.clear();
            e.text = true;
            Some("content removed")
        }
    }
}
pub fn rejected(e: &RErr, r: &Resp) -> Result<(), String> {
    let Resp::Fields(_) = r else { return Err(format!("decoding an invalid document: {}", show(r))) };
    if r.s(0) == "panic" {
        return Err(format!("panic on an invalid document: {}", r.s(1)));
    }
    if r.s(0) != "err" {
        return Err(format!("invalid document accepted (expected {:?}): {}", e, r.s(1)));
    }
    let got = format!("{} {:?} {:?}", r.s(1), r.s(2), r.s(3));
    let ok = r.s(1) == e.kind() && match e {
        RErr::MissingElement(n, ns) => r.s(2) == *n && r.s(3) == ns.as_ref().map(|n| format!("+{}", n)).unwrap_or_default(),
        RErr::MissingAttribute(n) | RErr::TextExpected(n) | RErr::InvalidVariant(n) | RErr::MissingVariant(n) => r.s(2) == *n,
        RErr::ParseType(ts, v) => ts.contains(&r.s(2)) && r.s(3).trim() == v.trim(),
        RErr::FixedMismatch(a, b) => r.s(2) == *a && r.s(3) == *b,
    };
    if !ok {
        return Err(format!("wrong error: expected {:?}, got {}", e, got));
    }
    // the printed error names the same things
    let disp = r.s(4);
    for part in [r.s(2), if r.s(1) == "MissingElement" { String::new() } else { r.s(3) }] {
        if !disp.contains(&part) {
            return Err(format!("the printed error {:?} does not mention {:?}", disp, part));
        }
    }
    Ok(())
}
/// a document with one fault that the reference rejects
pub fn invalid(s: &Schema, g: &mut Gen, c: &ValCfg) -> Option<(usize, XElem, RErr, &'static str)> {
    let (ri, _, x) = valid(s, g, c)?;
    for _ in 0..6 {
        let mut y = x.clone();
        let Some(l) = mutate(&mut y, g) else { continue };
        let t = s.low.get(&s.roots[ri]);
        if let Err(e) = decode_root(&s.low, t, &y) {
            return Some((ri, y, e, l));
        }
    }
    None
}
fn doc_c04(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let o = *g.pick(&[50, 80]);
    let (ri, x, e, l) = invalid(s, g, &vc(o))?;
    Some(DocCase {
        reqs: vec![(ri, write_plain(&x).into_bytes())],
        nontrivial: true,
        label: format!("{}: {}", l, e.kind()),
        judge: Box::new(move |r| rejected(&e, &r[0])),
    })
}
/// decode, encode and round trip of one valid document
fn doc_all(s: &Schema, g: &mut Gen, c: &ValCfg, noisy: bool) -> Option<DocCase> {
    let c = stretch(g, c.clone());
    let (ri, v, x) = valid(s, g, &c)?;
    let low = s.low.clone();
    let rust = s.roots[ri].clone();
    let text = if noisy { write_noisy(&x, g) } else { write_plain(&x) };
    Some(DocCase {
        reqs: vec![(ri, text.into_bytes())],
        nontrivial: x.count() > 1 || !x.attrs.is_empty(),
        label: format!("valid, elements {}", bucket(x.count())),
        judge: Box::new(move |r| {
            decoded(&low, &rust, &v, &r[0])?;
            encoded(&x, &r[0])?;
            roundtrip(&r[0])
        }),
    })
}
fn doc_c05(s: &Schema, g: &mut Gen) -> Option<DocCase> { doc_all(s, g, &vc(60), false) }
pub fn doc_std(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let o = *g.pick(&[50, 50, 20, 90]);
    doc_all(s, g, &vc(o), false)
}
fn doc_c07(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    match g.below(4) {
        0 => doc_all(s, g, &vc(60), false),
        1 => doc_all(s, g, &vc(60), true),
        k => {
            // one element or attribute in another namespace
            let (ri, _, x) = valid(s, g, &vc(70))?;
            let t = s.low.get(&s.roots[ri]);
            let mut uris: Vec<Option<String>> = s.set.files.iter().map(|f| f.tns.clone()).collect();
            uris.extend([None, Some("urn:wrong".to_string()), Some("http://www.w3.org/2001/XMLSchema".to_string())]);
            for u in s.set.files.iter().filter_map(|f| f.tns.clone()) {
                uris.push(Some(format!("{}/", u)));
                uris.push(Some(u.to_uppercase()));
            }
            let mut y = x.clone();
            let mut l = "element in another namespace";
            if k == 2 {
                let ps: Vec<_> = all_paths(&x).into_iter().filter(|p| !look(&x, p).attrs.is_empty()).collect();
                if ps.is_empty() {
                    return None;
                }
                let e = at_mut(&mut y, g.pick(&ps));
                let i = g.below(e.attrs.len() as u64) as usize;
                // qualified attributes are other attributes
                let u = g.pick(&uris.iter().flatten().cloned().collect::<Vec<_>>()).clone();
                let (n, b, v) = e.attrs.remove(i);
                e.attrs.push((format!("{{{}}}{}", u, n), b, v));
                l = "attribute in a namespace";
            } else {
                let ps = all_paths(&x);
                let e = at_mut(&mut y, g.pick(&ps));
                let u = g.pick(&uris).clone();
                if u == e.ns {
                    return None;
                }
                e.ns = u;
            }
            let text = if g.chance(50) { write_plain(&y) } else { write_noisy(&y, g) };
            match decode_root(&s.low, t, &y) {
                Err(e) => Some(DocCase { reqs: vec![(ri, text.into_bytes())], nontrivial: true, label: format!("{}: {}", l, e.kind()), judge: Box::new(move |r| rejected(&e, &r[0])) }),
                Ok(v) => {
                    let low = s.low.clone();
                    let rust = s.roots[ri].clone();
                    Some(DocCase { reqs: vec![(ri, text.into_bytes())], nontrivial: true, label: format!("{}: ignored", l), judge: Box::new(move |r| decoded(&low, &rust, &v, &r[0])) })
                }
            }
        }
    }
}
/// elements without children might be text: no whitespace noise there
fn freeze(x: &mut XElem) {
    if x.kids.is_empty() {
        x.text = true;
    }
    for k in &mut x.kids {
        if let XNode::E(e) = k {
            freeze(e);
        }
    }
}
fn doc_c08(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let c = ValCfg { lit: LitCfg { wild: 40, alt: 20, ctl: true }, ..vc(60) };
    let (ri, x, l) = if g.chance(30) {
        let (ri, mut x, e, _) = invalid(s, g, &c)?;
        freeze(&mut x);
        (ri, x, format!("rejected: {}", e.kind()))
    } else {
        let (ri, _, x) = valid(s, g, &c)?;
        (ri, x, "accepted".to_string())
    };
    let accepted = l == "accepted";
    let a = write_plain(&x);
    let b = write_noisy(&x, g);
    let d = write_noisy(&x, g);
    Some(DocCase {
        reqs: vec![(ri, a.into_bytes()), (ri, b.into_bytes()), (ri, d.into_bytes())],
        nontrivial: x.count() > 1 || !x.attrs.is_empty() || x.text,
        label: l,
        judge: Box::new(move |r| {
            let key = |r: &Resp| -> Result<String, String> {
                let Resp::Fields(_) = r else { return Err(show(r)) };
                Ok(match r.s(0).as_str() {
                    "ok" => format!("value {}", r.s(1)),
                    "err" => format!("error {} {:?} {:?}", r.s(1), r.s(2), r.s(3)),
                    o => format!("{} {}", o, r.s(1)),
                })
            };
            let k: Vec<String> = r.iter().map(|r| key(r)).collect::<Result<_, _>>()?;
            for i in 1..k.len() {
                if k[i] != k[0] {
                    return Err(format!("two spellings of one document give different results:\n{}\n{}", k[0], k[i]));
                }
            }
            if accepted && !k[0].starts_with("value ") {
                return Err(format!("valid document not decoded: {}", k[0]));
            }
            Ok(())
        }),
    })
}
fn shuffle_all(x: &mut XElem, g: &mut Gen) -> bool {
    let mut any = false;
    if x.unordered {
        any = x.elems().count() > 1;
        let before = x.kids.clone();
        g.shuffle(&mut x.kids);
        // the occurrences of a repeated member keep their order
        let key = |n: &XNode| match n { XNode::E(e) => Some((e.name.clone(), e.ns.clone())), _ => None };
        let mut left: Vec<XNode> = before;
        for k in &mut x.kids {
            let i = left.iter().position(|l| key(l) == key(k)).unwrap();
            *k = left.remove(i);
        }
    }
    for k in &mut x.kids {
        if let XNode::E(e) = k {
            any |= shuffle_all(e, g);
        }
    }
    any
}
fn doc_c09(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let o = *g.pick(&[50, 80, 95]);
    let c = stretch(g, vc(o));
    let (ri, v, x) = valid(s, g, &c)?;
    let low = s.low.clone();
    let rust = s.roots[ri].clone();
    let mut y = x.clone();
    let any = shuffle_all(&mut y, g);
    if any && g.chance(20) {
        // a missing required member is still noticed
        let mut z = y.clone();
        let ps: Vec<_> = all_paths(&z).into_iter().filter(|p| { let e = look(&y, p); e.unordered && e.elems().next().is_some() }).collect();
        let e = at_mut(&mut z, g.pick(&ps));
        let i = g.below(e.kids.len() as u64) as usize;
        e.kids.remove(i);
        if let Err(e) = decode_root(&s.low, s.low.get(&rust), &z) {
            return Some(DocCase { reqs: vec![(ri, write_plain(&z).into_bytes())], nontrivial: true, label: "required member missing".into(), judge: Box::new(move |r| rejected(&e, &r[0])) });
        }
    }
    Some(DocCase {
        reqs: vec![(ri, write_plain(&y).into_bytes())],
        nontrivial: any,
        label: if any { "permuted".into() } else { "no group to permute".to_string() },
        judge: Box::new(move |r| {
            decoded(&low, &rust, &v, &r[0])?;
            encoded(&x, &r[0])?;
            roundtrip(&r[0])
        }),
    })
}
const SNIPPETS: &[&str] = &["<", ">", "/>", "</", "&", ";", "&amp;", "&#x0;", "&#1;", "&lt;", "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "\"", "'", "=", " xmlns=\"\"", " xmlns:a=\"urn:a\"", "a:", "\0", "\u{feff}", "\u{fffe}", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "\r", "\n", "\t", "true", "1", "-1", "1e400", "NaN", "INF", "0.0000000000000000000000000000001", "79228162514264337593543950336", "<a/>", "<a>", "</a>", "xsi:nil=\"true\"", " ", "\u{1F600}", "\u{301}", "é"];
pub fn mutate_text(s: &str, g: &mut Gen, n: usize) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..n {
        let len = c.len();
        let a = g.usize(0, len);
        let w = g.below(30) as usize;
        let b = g.usize(a, len.min(a + 1 + w));
        match g.below(7) {
            0 => { c.drain(a..b); }
            1 => { let x: Vec<char> = c[a..b].to_vec(); let at = g.usize(0, len); c.splice(at..at, x); }
            2 => { let x: Vec<char> = g.pick(SNIPPETS).chars().collect(); c.splice(a..a, x); }
            3 => { let x: Vec<char> = g.pick(SNIPPETS).chars().collect(); c.splice(a..b, x); }
            4 => { if a < len { c[a] = char::from_u32(g.below(0x250) as u32).unwrap_or('x'); } }
            5 => { if a < len { c.truncate(a); } }
            _ => { if a < len && len > 1 { let j = g.usize(0, len - 1); c.swap(a, j); } }
        }
    }
    c.into_iter().collect()
}
fn doc_c10(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let k = g.below(10);
    let c = ValCfg { lit: LitCfg { wild: 40, alt: 30, ctl: true }, ..vc(60) };
    let (ri, text, l) = match k {
        0 => {
            let ri = pick_root(s, g);
            let n = g.usize(0, 12);
            let t: String = (0..n).map(|_| g.pick(SNIPPETS).to_string()).collect();
            (ri, t, "snippets")
        }
        1 => {
            // deep and wide documents
            let (ri, _, x) = valid(s, g, &c)?;
            let d = g.usize(1, 300);
            let mut t = write_plain(&x);
            let at = t.find('>').unwrap_or(0);
            let self_closed = at > 0 && t.as_bytes()[at - 1] == b'/';
            if !self_closed {
                let n = g.pick(&all_paths(&x)).clone();
                let name = look(&x, &n).name.clone();
                let name = if g.chance(50) { name } else { "z".into() };
                t.insert_str(at + 1, &(format!("<{}>", name).repeat(d) + &format!("</{}>", name).repeat(d)));
            }
            (ri, t, "deep")
        }
        2..=4 => {
            let (ri, _, mut x) = valid(s, g, &c)?;
            for _ in 0..g.usize(1, 4) {
                mutate(&mut x, g);
            }
            let t = if g.chance(50) { write_plain(&x) } else { write_noisy(&x, g) };
            (ri, t, "tree mutations")
        }
        5 => {
            // the document of another root
            let (_, _, x) = valid(s, g, &c)?;
            (pick_root(s, g), write_noisy(&x, g), "another root")
        }
        _ => {
            let (ri, _, x) = valid(s, g, &c)?;
            let t = if g.chance(50) { write_plain(&x) } else { write_noisy(&x, g) };
            let n = g.usize(1, 5);
            (ri, mutate_text(&t, g, n), "text mutations")
        }
    };
    Some(DocCase {
        reqs: vec![(ri, text.into_bytes())],
        nontrivial: true,
        label: l.into(),
        judge: Box::new(move |r| match &r[0] {
            Resp::Fields(_) => match r[0].s(0).as_str() {
                "err" => Ok(()),
                "ok" => roundtrip_loose(&r[0]),
                o => Err(format!("decoding {}s: {}", o, r[0].s(1))),
            },
            o => Err(format!("decoding ends in a {}", show(o))),
        }),
    })
}
/// as `roundtrip`; tabs in attribute values are a known finding of their own
fn roundtrip_loose(r: &Resp) -> Result<(), String> {
    if r.s(1).contains("\\t") {
        return if r.s(3) == "ok" { Ok(()) } else { Err(format!("encoding failed: {}", r.s(3))) };
    }
    roundtrip(r)
}
fn doc_c18(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let enums: Vec<&LType> = s.low.types.values().filter(|t| matches!(t.kind, LKind::Enum(_))).collect();
    if enums.is_empty() || g.chance(35) {
        return match g.below(3) {
            0 => {
                // a text that is not listed, somewhere in a document
                for _ in 0..4 {
                    let (ri, x, e, l) = invalid(s, g, &vc(80))?;
                    if matches!(e, RErr::InvalidVariant(_)) {
                        return Some(DocCase { reqs: vec![(ri, write_plain(&x).into_bytes())], nontrivial: true, label: format!("document with an unlisted value, {}", l), judge: Box::new(move |r| rejected(&e, &r[0])) });
                    }
                }
                None
            }
            _ => doc_all(s, g, &vc(80), false).map(|mut d| { d.nontrivial = !enums.is_empty(); d }),
        };
    }
    let i = g.below(enums.len() as u64) as usize;
    let LKind::Enum(vs) = &enums[i].kind else { unreachable!() };
    let base = s.roots.len();
    let listed = g.chance(60);
    let text = if listed { g.pick(vs).1.clone() } else {
        let v = g.pick(vs).1.clone();
        match g.below(9) {
            0 => v.to_uppercase(), 1 => v.to_lowercase(), 2 => format!("{} ", v), 3 => format!(" {}", v), 4 => format!("{}x", v), 5 => g.pick(vs).0.clone(),
            6 => { let mut c = v.chars(); c.next(); c.as_str().to_string() }
            7 => String::new(),
            _ => gen_string(g, &LitCfg { wild: 80, ..Default::default() }),
        }
    };
    let hit = vs.iter().position(|v| v.1 == text);
    let variant = hit.map(|i| vs[i].0.clone());
    let label = if hit.is_some() { "listed text" } else { "unlisted text" };
    Some(DocCase {
        reqs: vec![(base + i, text.clone().into_bytes())],
        nontrivial: true,
        label: label.into(),
        judge: Box::new(move |r| match &variant {
            Some(v) => {
                must_ok(&r[0]).map_err(|_| format!("listed value {:?} refused: {}", text, show(&r[0])))?;
                if r[0].s(2) != *v { return Err(format!("value {:?} read as variant {}, not {}", text, r[0].s(2), v)) }
                if r[0].s(1) != text { return Err(format!("variant {} prints as {:?}, not {:?}", v, r[0].s(1), text)) }
                Ok(())
            }
            None => rejected(&RErr::InvalidVariant(text.clone()), &r[0]),
        }),
    })
}
fn unit_c18(s: &Schema, g: &mut Gen) -> crate::batch::Unit {
    let mut u = std_unit(s, g);
    u.texts = s.low.types.values().filter(|t| matches!(t.kind, LKind::Enum(_))).map(|t| format!("m::{}", src_ident(&t.rust))).collect();
    // conversions to text exist for user code, and every listed value has its own variant
    for t in s.low.types.values() {
        if let LKind::Enum(vs) = &t.kind {
            let arms: String = vs.iter().map(|v| format!("m::{}::{} => {:?}, ", src_ident(&t.rust), src_ident(&v.0), v.1)).collect();
            u.extra.push_str(&format!("#[deny(unreachable_patterns)] pub fn e_{}(v: &m::{}) -> &'static str {{ match v {{ {} }} }}\n", t.rust, src_ident(&t.rust), arms));
        }
    }
    u
}
fn doc_c20(s: &Schema, g: &mut Gen) -> Option<DocCase> {
    let lits: Vec<&LType> = text_types(s);
    if !lits.is_empty() && g.chance(20) {
        // stand-alone conversions of simple types
        let i = g.below(lits.len() as u64) as usize;
        let b = lits[i].lit.unwrap();
        let mut names = type_names(b);
        names.push(lits[i].rust.clone());
        let base = s.roots.len();
        let text = if g.chance(70) { gen_lit(g, b, &LitCfg { wild: 50, alt: 60, ctl: true }) } else { g.pick(BAD_LITS).to_string() };
        let ok = canon(b, &text).is_some();
        return Some(DocCase {
            reqs: vec![(base + i, text.clone().into_bytes())],
            nontrivial: true,
            label: format!("text of {} {}", b.xsd(), if ok { "accepted" } else { "refused" }),
            judge: Box::new(move |r| {
                if !ok {
                    return rejected(&RErr::ParseType(names.clone(), text.clone()), &r[0]);
                }
                must_ok(&r[0])?;
                if !lit_eq(b, &text, &r[0].s(1)) { return Err(format!("{:?} ({}) prints as {:?}", text, b.xsd(), r[0].s(1))) }
                Ok(())
            }),
        });
    }
    if g.chance(35) {
        for _ in 0..4 {
            let (ri, x, e, _) = invalid(s, g, &vc(80))?;
            if let RErr::ParseType(t, _) = &e {
                let label = format!("document with a bad {}", t[0]);
                return Some(DocCase { reqs: vec![(ri, write_plain(&x).into_bytes())], nontrivial: true, label, judge: Box::new(move |r| rejected(&e, &r[0])) });
            }
        }
        return None;
    }
    let c = ValCfg { lit: LitCfg { wild: 30, alt: 60, ctl: true }, ..vc(80) };
    doc_all(s, g, &c, false).map(|mut d| { d.nontrivial = true; d })
}
/// simple types (not enumerations) with their own FromStr and Display
fn text_types(s: &Schema) -> Vec<&LType> {
    s.low.types.values().filter(|t| t.lit.is_some() && t.global.is_some() && matches!(t.kind, LKind::Newtype(LTy::Lit(_)))).collect()
}
fn unit_c20(s: &Schema, g: &mut Gen) -> crate::batch::Unit {
    let mut u = std_unit(s, g);
    u.texts = text_types(s).iter().map(|t| format!("m::{}", src_ident(&t.rust))).collect();
    u
}
/// every global definition is a root
fn globals_schema(g: &mut Gen, p: &Profile) -> Schema {
    let mut s = std_schema(g, p);
    s.roots = s.low.types.values().filter(|t| t.global.is_some()).map(|t| t.rust.clone()).collect();
    s
}
fn unit_c05(s: &Schema, g: &mut Gen) -> crate::batch::Unit {
    let mut u = std_unit(s, g);
    u.edition = *g.pick(&[0, 0, 2024, 2018]);
    u
}
fn rust_ty(t: &LTy) -> String {
    match t { LTy::Lit(b) => b.rust().to_string(), LTy::Fixed(..) => "()".into(), LTy::Named(n) => format!("m::{}", src_ident(n)) }
}
fn field_ty(f: &Field) -> String {
    let mut t = rust_ty(&f.ty);
    if f.vec { t = format!("::std::vec::Vec<{}>", t) }
    if f.opt { t = format!("::std::option::Option<{}>", t) }
    t
}
/// user code that takes every type apart and builds it again
fn unit_c06(s: &Schema, g: &mut Gen) -> crate::batch::Unit {
    let mut u = std_unit(s, g);
    let mut o = String::from("mod user { use super::m;\n");
    for (i, t) in s.low.types.values().enumerate() {
        let n = format!("m::{}", src_ident(&t.rust));
        match &t.kind {
            LKind::Newtype(ty) => o.push_str(&format!("fn t{i}(v: {n}) -> {n} {{ let {n}(x) = v; let y: {ty} = x; {n}(y) }}\n", ty = rust_ty(ty))),
            LKind::Enum(vs) => {
                let arms: String = vs.iter().map(|v| format!("{n}::{v} => {n}::{v}, ", v = src_ident(&v.0))).collect();
                o.push_str(&format!("fn t{i}(v: {n}) -> {n} {{ match v {{ {arms} }} }}\n"));
            }
            LKind::Choice(fs) => {
                let arms: String = fs.iter().map(|f| format!("{n}::{v}(x) => {{ let y: {ty} = x; {n}::{v}(y) }} ", v = src_ident(&f.rust), ty = field_ty(f))).collect();
                o.push_str(&format!("fn t{i}(v: {n}) -> {n} {{ match v {{ {arms} }} }}\n"));
            }
            LKind::Struct(fs) => {
                let pat: String = fs.iter().enumerate().map(|(k, f)| format!("{}: x{k}, ", src_ident(&f.rust))).collect();
                let lets: String = fs.iter().enumerate().map(|(k, f)| format!("let y{k}: {} = x{k}; ", field_ty(f))).collect();
                let make: String = fs.iter().enumerate().map(|(k, f)| format!("{}: y{k}, ", src_ident(&f.rust))).collect();
                o.push_str(&format!("fn t{i}(v: {n}) -> {n} {{ let {n} {{ {pat} }} = v; {lets} {n} {{ {make} }} }}\n"));
            }
        }
    }
    o.push_str("}\n");
    u.extra = o;
    u
}

pub fn pipe(id: &str) -> Option<Pipe> {
    let d = Profile::default();
    let base = |id, rule, profiles, doc| Pipe { id, rule, profiles, rounds: (1, 12), units: 700, docs: 30, schema: std_schema, unit: std_unit, doc, compile_violation: true, compile_counts: false };
    let multi = Profile { files: (1, 3), mixed_ns: true, subdirs: true, ..d.clone() };
    let deep = Profile { depth: 4, items: (1, 6), defs: (3, 7), ..d.clone() };
    let wide = Profile { files: (3, 6), mixed_ns: true, tns_pct: 95, defs: (1, 3), w_item: [8, 6, 2, 2], w_etype: [6, 8, 2, 1, 1], ..d.clone() };
    let general = || vec![d.clone(), multi.clone(), deep.clone(), d.clone(), multi.clone(), deep.clone(), wide.clone()];
    Some(match id {
        "C01" => base("C01", "a schema set drawn from the supported grammar plus one valid document; non-trivial = the document has a child element or an attribute", general(), doc_c01),
        "C02" => base("C02", "a schema set drawn from the supported grammar plus one value, given as a valid document; non-trivial = the value has a child element or an attribute", general(), doc_c02),
        "C03" => base("C03", "as C02 with texts over all XML characters and all spellings of numbers; non-trivial = the value has a child element or an attribute", general(), doc_c03),
        "C04" => Pipe { compile_violation: false, ..base("C04", "a valid document with one fault injected (names, namespaces, order, omissions, texts), kept when the reference decoder rejects it; every kept case is non-trivial", {
            let mut v = general();
            for p in &mut v { p.fixed_pct = 15; }
            v
        }, doc_c04) },
        "C05" => Pipe { schema: globals_schema, unit: unit_c05, compile_counts: true, docs: 6, ..base("C05", "a schema set with unusual names; it must compile, and every global definition must encode and decode a generated value; each schema and each such value is non-trivial", {
            let w = |p: &Profile, n: u32| Profile { name_wild: n, enum_wild: 60, docs_pct: 15, docs_wild: true, ..p.clone() };
            vec![w(&d, 70), w(&multi, 50), w(&deep, 90), w(&Profile { items: (1, 3), defs: (3, 8), ..d.clone() }, 100)]
        }, doc_c05) },
        "C06" => Pipe { unit: unit_c06, compile_counts: true, docs: 0, ..base("C06", "a schema set whose expected types are taken apart and rebuilt exhaustively by generated user code, every field with an explicit type; each distinct schema set is non-trivial", {
            let w = |p: &Profile, n: u32| Profile { name_wild: n, enum_wild: 30, fixed_pct: 10, ..p.clone() };
            vec![w(&d, 0), w(&multi, 0), w(&deep, 0), w(&d, 40)]
        }, doc_std) },
        "C07" => base("C07", "schema sets over several namespaces, qualified and unqualified forms and prefix spellings; documents plain, with random prefixes, or with one element or attribute moved to another namespace; non-trivial = more than an empty root", {
            let w = |p: &Profile, f, mixed| Profile { tns_pct: 92, qual_pct: 50, form_pct: 20, default_ns_pct: 33, files: f, mixed_ns: mixed, ..p.clone() };
            vec![w(&d, (1, 1), false), w(&d, (2, 4), true), w(&d, (2, 3), false), w(&wide, (4, 8), true), Profile { w_item: [6, 8, 3, 3], ..w(&d, (2, 3), true) }]
        }, doc_c07),
        "C08" => Pipe { compile_violation: false, ..base("C08", "one document (valid, or with one fault) in three spellings: plain and two with random comments, PIs, CDATA, character references, prefixes, declarations, quotes, whitespace, BOM; non-trivial = has children, attributes or text", general(), doc_c08) },
        "C09" => base("C09", "types with all-groups; the members of every all-group in the document permuted at random (sometimes a required one removed); non-trivial = some group has two or more members present", {
            let w = |p: &Profile| Profile { w_content: [0, 1, 10, 0, 1, 2], items: (2, 6), opt_pct: 50, w_def: [6, 4, 1], ..p.clone() };
            vec![w(&d), w(&multi), Profile { w_etype: [5, 5, 5, 2, 1], ..w(&d) }]
        }, doc_c09),
        "C10" => Pipe { compile_violation: false, docs: 60, ..base("C10", "arbitrary text: valid documents with up to five text-level or four tree-level mutations, documents of other roots, deep nesting up to 300 levels, XML fragments; every case counts", {
            let mut v = general();
            for p in &mut v { p.recursion_pct = 30; }
            v
        }, doc_c10) },
        "C13" => base("C13", "definitions spread over two to six files linked by includes and imports (nested, shared, redundant, in sub-directories); valid documents are decoded, encoded and round-tripped; non-trivial = the document has a child element or an attribute", {
            let w = |f, m, t| Profile { files: f, mixed_ns: m, subdirs: true, defs: (1, 3), extra_links: 40, tns_pct: t, w_item: [8, 5, 2, 2], w_etype: [5, 8, 2, 1, 1], ..d.clone() };
            vec![w((2, 4), false, 60), w((2, 5), true, 80), w((3, 6), false, 40), w((3, 6), true, 70), w((2, 4), false, 60), w((2, 5), true, 80), w((3, 6), true, 70), w((8, 16), true, 50)]
        }, doc_std),
        "C14" => base("C14", "schema sets printed with full spelling noise (prefixes, comments, PIs, whitespace, attribute order, quotes, empty annotations, foreign attributes, shuffled definitions), judged with valid documents; non-trivial = the document has a child element or an attribute", {
            let w = |p: &Profile| Profile { noise: 100, ..p.clone() };
            vec![w(&d), w(&multi), w(&deep)]
        }, doc_std),
        "C18" => Pipe { unit: unit_c18, ..base("C18", "enumerations of awkward values in named types, inline types and attributes; listed and unlisted texts are converted directly and inside documents; non-trivial = the case involves an enumeration", {
            let w = |p: &Profile, n: u32| Profile { enum_pct: 95, enum_wild: n, enum_max: 9, w_etype: [2, 4, 2, 5, 0], w_attr: [1, 4, 5], w_def: [4, 3, 6], ..p.clone() };
            vec![w(&d, 60), w(&d, 90), w(&multi, 30)]
        }, doc_c18) },
        "C20" => Pipe { unit: unit_c20, ..base("C20", "built-in types in every position with all spellings of their literals, extremes and non-literals; every case counts", {
            let bis = crate::model::ALL_BI.to_vec();
            let w = |p: &Profile| Profile { bis: bis.clone(), w_def: [5, 3, 5], w_etype: [8, 5, 2, 5, 1], w_content: [0, 6, 2, 4, 6, 2], enum_pct: 5, vec_pct: 35, fixed_pct: 3, ..p.clone() };
            let mut num = w(&d);
            num.bis = bis.iter().copied().filter(|b| b.repr() != crate::model::Repr::Str).collect();
            vec![w(&d), num]
        }, doc_c20) },
        "C22" => base("C22", "types extended over several steps by complex and simple content, within and across files; non-trivial = the document has a child element or an attribute", {
            let w = |p: &Profile| Profile { w_content: [1, 5, 1, 3, 6, 16], w_def: [4, 10, 2], defs: (4, 8), attrs: (0, 3), w_etype: [6, 8, 2, 1, 0], ..p.clone() };
            vec![w(&d), w(&Profile { files: (2, 3), mixed_ns: true, ..d.clone() }), w(&Profile { depth: 2, ..d.clone() })]
        }, doc_std),
        "C23" => Pipe { units: 1100, ..base("C23", "content models of nested choices and sequences with every occurrence; non-trivial = the document has a child element", {
            let w = |dp, n| Profile { w_content: [0, 6, 0, 6, 0, 1], w_item: [6, 1, 7, 7], depth: dp, items: (1, n), group_occ_pct: 75, opt_pct: 40, vec_pct: 40, reuse: 25, attrs: (0, 1), w_etype: [10, 3, 2, 1, 0], ..d.clone() };
            vec![w(2, 4), w(3, 3), w(4, 4), w(5, 2)]
        }, doc_std) },
        _ => return None,
    })
}
