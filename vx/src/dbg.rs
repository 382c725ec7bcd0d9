//! Parser for `{:?}` output of derived `Debug`, and comparison with reference values.
use crate::inst::*;
use crate::lower::*;
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Dbg {
    Struct(String, Vec<(String, Dbg)>),
    Tuple(String, Vec<Dbg>),
    Atom(String),
    Str(String),
    List(Vec<Dbg>),
}

pub fn parse(s: &str) -> Result<Dbg, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut p = P { c: &cs, i: 0 };
    let d = p.val()?;
    p.ws();
    if p.i != cs.len() {
        return Err(format!("trailing debug output at {}", p.i));
    }
    Ok(d)
}
struct P<'a> { c: &'a [char], i: usize }
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.peek() == Some(c) { self.i += 1; true } else { false }
    }
    fn list(&mut self, end: char) -> Result<Vec<Dbg>, String> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Ok(v);
            }
            v.push(self.val()?);
            if !self.eat(',') && !{ self.ws(); self.peek() == Some(end) } {
                return Err(format!("expected , or {} at {}", end, self.i));
            }
        }
    }
    fn val(&mut self) -> Result<Dbg, String> {
        self.ws();
        match self.peek() {
            None => Err("empty".into()),
            Some('"') => Ok(Dbg::Str(self.string()?)),
            Some('[') => { self.i += 1; Ok(Dbg::List(self.list(']')?)) }
            Some('(') => { self.i += 1; Ok(Dbg::Tuple(String::new(), self.list(')')?)) }
            Some(_) => {
                let st = self.i;
                while let Some(c) = self.peek() {
                    if c.is_alphanumeric() || matches!(c, '_' | '.' | '-' | '+' | '#') || (!c.is_ascii() && !c.is_whitespace()) { self.i += 1 } else { break }
                }
                let name: String = self.c[st..self.i].iter().collect();
                if name.is_empty() {
                    return Err(format!("unexpected {:?} at {}", self.peek(), self.i));
                }
                let save = self.i;
                if self.eat('(') {
                    return Ok(Dbg::Tuple(name, self.list(')')?));
                }
                if self.eat('{') {
                    let mut fs = vec![];
                    loop {
                        if self.eat('}') {
                            return Ok(Dbg::Struct(name, fs));
                        }
                        self.ws();
                        let st = self.i;
                        while let Some(c) = self.peek() {
                            if c == ':' || c.is_whitespace() { break }
                            self.i += 1;
                        }
                        let f: String = self.c[st..self.i].iter().collect();
                        if !self.eat(':') {
                            return Err(format!("expected : at {}", self.i));
                        }
                        let v = self.val()?;
                        fs.push((f, v));
                        self.eat(',');
                    }
                }
                self.i = save;
                Ok(Dbg::Atom(name))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.peek().ok_or("escape")?;
                    self.i += 1;
                    match e {
                        'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'), '0' => o.push('\0'),
                        'u' => {
                            self.i += 1;
                            let mut h = String::new();
                            while let Some(c) = self.peek() {
                                self.i += 1;
                                if c == '}' { break }
                                h.push(c);
                            }
                            o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                        }
                        e => o.push(e),
                    }
                }
                c => o.push(c),
            }
        }
    }
}

fn m<T>(path: &str, msg: String) -> Result<T, String> { Err(format!("{}: {}", path, msg)) }

pub fn matches(l: &Lowered, t: &LTy, v: &Val, d: &Dbg, path: &str) -> Result<(), String> {
    match (t, v) {
        (LTy::Lit(b), Val::Lit(_, s)) => {
            let exp = canon(*b, s);
            let got = match (b.repr(), d) {
                (Repr::Str, Dbg::Str(x)) => Some(x.clone()),
                (Repr::F32, Dbg::Atom(a)) => canon(*b, match a.as_str() { "inf" => "INF", "-inf" => "-INF", a => a }),
                (r, Dbg::Atom(a)) if r != Repr::Str => canon(*b, a),
                _ => None,
            };
            if exp.is_none() || exp != got {
                return m(path, format!("expected {:?} ({}), got {:?}", s, b.xsd(), d));
            }
            Ok(())
        }
        (LTy::Fixed(..), Val::Fixed(_)) => if matches!(d, Dbg::Tuple(n, v) if n.is_empty() && v.is_empty()) { Ok(()) } else { m(path, format!("expected (), got {:?}", d)) },
        (LTy::Named(n), v) => named(l, n, v, d, path),
        _ => m(path, "internal mismatch".into()),
    }
}
fn field(l: &Lowered, f: &Field, vals: &[Val], d: &Dbg, path: &str) -> Result<(), String> {
    let mut d = d;
    if f.opt {
        match d {
            Dbg::Atom(a) if a == "None" => {
                return if vals.is_empty() { Ok(()) } else { m(path, format!("expected {} occurrence(s), got None", vals.len())) };
            }
            Dbg::Tuple(n, v) if n == "Some" && v.len() == 1 => {
                if vals.is_empty() {
                    return m(path, format!("expected absent, got {:?}", d));
                }
                d = &v[0];
            }
            _ => return m(path, format!("expected an Option, got {:?}", d)),
        }
    }
    if f.vec {
        let Dbg::List(items) = d else { return m(path, format!("expected a list, got {:?}", d)) };
        if items.len() != vals.len() {
            return m(path, format!("expected {} items, got {}", vals.len(), items.len()));
        }
        for (i, (v, x)) in vals.iter().zip(items).enumerate() {
            matches(l, &f.ty, v, x, &format!("{}[{}]", path, i))?;
        }
        return Ok(());
    }
    if vals.len() != 1 {
        return m(path, format!("{} values for a single field", vals.len()));
    }
    matches(l, &f.ty, &vals[0], d, path)
}
pub fn named(l: &Lowered, n: &str, v: &Val, d: &Dbg, path: &str) -> Result<(), String> {
    let t = l.get(n);
    match (&t.kind, v) {
        (LKind::Newtype(ty), Val::Newtype(v)) => match d {
            Dbg::Tuple(x, items) if *x == t.rust && items.len() == 1 => matches(l, ty, v, &items[0], &format!("{}.0", path)),
            _ => m(path, format!("expected {}(..), got {:?}", t.rust, d)),
        },
        (LKind::Enum(vs), Val::Enum(i)) => match d {
            Dbg::Atom(a) if *a == vs[*i].0 => Ok(()),
            _ => m(path, format!("expected variant {}, got {:?}", vs[*i].0, d)),
        },
        (LKind::Struct(fs), Val::Struct(vals)) => {
            let got = match d {
                Dbg::Struct(x, f) if *x == t.rust => f.clone(),
                Dbg::Atom(x) if *x == t.rust && fs.is_empty() => vec![],
                _ => return m(path, format!("expected struct {}, got {:?}", t.rust, d)),
            };
            if got.len() != fs.len() {
                return m(path, format!("{} fields expected in {}, got {}", fs.len(), t.rust, got.len()));
            }
            for (f, v) in fs.iter().zip(vals) {
                let Some((_, x)) = got.iter().find(|g| g.0 == f.rust) else { return m(path, format!("field {} missing in {}", f.rust, t.rust)) };
                field(l, f, v, x, &format!("{}.{}", path, f.rust))?;
            }
            Ok(())
        }
        (LKind::Choice(fs), Val::Choice(i, vals)) => match d {
            Dbg::Tuple(x, items) if *x == fs[*i].rust && items.len() == 1 => field(l, &fs[*i], vals, &items[0], &format!("{}::{}", path, x)),
            _ => m(path, format!("expected variant {}(..), got {:?}", fs[*i].rust, d)),
        },
        _ => m(path, "internal mismatch".into()),
    }
}
