//! What the worker processes have in common: descriptions of generated items and the request loop.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xsd_internal::xsd::schema::SchemaError;

pub fn err(e: &SchemaError) -> Value {
    let text = e.to_string();
    match e {
        SchemaError::Xsd { err, file, col, row } => json!({"err": "xsd", "file": file, "row": row, "col": col, "inner": err.to_string(), "text": text}),
        SchemaError::Open { file, .. } => json!({"err": "open", "file": file, "text": text}),
        SchemaError::NotFound { name } => json!({"err": "notfound", "name": name, "text": text}),
        #[allow(unreachable_patterns)]
        _ => json!({"err": "other", "text": text}),
    }
}
fn docs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs.iter().filter(|a| a.path().is_ident("doc")).map(|a| match &a.meta {
        syn::Meta::NameValue(nv) => match &nv.value {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            e => e.to_token_stream().to_string(),
        },
        m => m.to_token_stream().to_string(),
    }).collect()
}
fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| { v.push(m.path.to_token_stream().to_string()); Ok(()) });
    }
    v
}
fn vis(v: &syn::Visibility) -> &'static str { match v { syn::Visibility::Public(_) => "pub", syn::Visibility::Inherited => "", _ => "other" } }
fn fields(f: &syn::Fields) -> Value {
    let kind = match f { syn::Fields::Named(_) => "named", syn::Fields::Unnamed(_) => "tuple", syn::Fields::Unit => "unit" };
    json!({"kind": kind, "list": f.iter().map(|f| json!({"name": f.ident.as_ref().map(|i| i.to_string()), "ty": f.ty.to_token_stream().to_string(), "vis": vis(&f.vis), "docs": docs(&f.attrs)})).collect::<Vec<_>>()})
}
fn flat(t: TokenStream, out: &mut Vec<String>) {
    for t in t {
        match t {
            TokenTree::Group(g) => {
                out.push(format!("{:?}", g.delimiter()));
                flat(g.stream(), out);
            }
            t => out.push(t.to_string()),
        }
    }
}
/// the items of a token stream, or why it is not a list of items
pub fn items(ts: TokenStream, tokens: bool) -> Value {
    let file: syn::File = match syn::parse2(ts) {
        Ok(f) => f,
        Err(e) => return json!({"invalid": e.to_string()}),
    };
    let mut out = vec![];
    for it in &file.items {
        let mut v = match it {
            syn::Item::Struct(s) => json!({"kind": "struct", "name": s.ident.to_string(), "vis": vis(&s.vis), "docs": docs(&s.attrs), "derives": derives(&s.attrs), "fields": fields(&s.fields)}),
            syn::Item::Enum(e) => json!({"kind": "enum", "name": e.ident.to_string(), "vis": vis(&e.vis), "docs": docs(&e.attrs), "derives": derives(&e.attrs),
                "variants": e.variants.iter().map(|v| json!({"name": v.ident.to_string(), "docs": docs(&v.attrs), "fields": fields(&v.fields)})).collect::<Vec<_>>()}),
            syn::Item::Impl(i) => json!({"kind": "impl", "name": i.self_ty.to_token_stream().to_string(), "trait": i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string())}),
            i => json!({"kind": "other", "name": i.to_token_stream().to_string()}),
        };
        if tokens {
            let mut t = vec![];
            flat(it.to_token_stream(), &mut t);
            v["tokens"] = json!(t);
        }
        out.push(v);
    }
    json!({"items": out})
}
pub fn serve(handle: fn(&Value) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    extern "C" { fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32; }
    unsafe { setrlimit(9, &[6 << 30, 6 << 30]); }
    let mut inp = std::io::stdin().lock();
    let mut outp = std::io::stdout().lock();
    loop {
        let mut h = [0u8; 12];
        if inp.read_exact(&mut h).is_err() {
            return;
        }
        let n = u32::from_le_bytes([h[8], h[9], h[10], h[11]]) as usize;
        let mut b = vec![0u8; n];
        inp.read_exact(&mut b).unwrap();
        let q: Value = serde_json::from_slice(&b).unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| handle(&q)));
        let v = res.unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"panic": m})
        });
        let s = v.to_string();
        let mut buf = 1u32.to_le_bytes().to_vec();
        buf.extend((s.len() as u32).to_le_bytes());
        buf.extend(s.as_bytes());
        outp.write_all(&buf).unwrap();
        outp.flush().unwrap();
    }
}
