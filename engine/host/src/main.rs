//! Runs the derives in process: the sources of /repo/structmeta-derive, with `proc_macro`
//! replaced by `proc_macro2` and the `#[proc_macro_derive]` attributes removed (lib/host.py).
//! Reads requests from stdin, one per line: OP \x1f DERIVE \x1f SRC; answers one line each.
#[allow(dead_code, unused_imports)]
#[path = "derive/lib.rs"]
mod derive;
include!("entry.rs");
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use syn::{DeriveInput, GenericParam, ItemImpl};

enum R {
    Bad(String),
    Ok(TokenStream),
    Err(String),
    Panic(String),
}
fn expand(d: &str, src: &str) -> R {
    let Ok(ts) = src.parse::<TokenStream>() else { return R::Bad("tokens".into()) };
    if let Err(e) = syn::parse2::<DeriveInput>(ts.clone()) {
        return R::Bad(e.to_string());
    }
    match catch_unwind(AssertUnwindSafe(|| entry(d, ts))) {
        Err(p) => R::Panic(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        Ok(out) => {
            // an error is reported as `::core::compile_error!{ "..." }` items
            if let Ok(f) = syn::parse2::<syn::File>(out.clone()) {
                for i in &f.items {
                    if let syn::Item::Macro(m) = i {
                        if m.mac.path.segments.last().is_some_and(|s| s.ident == "compile_error") {
                            return R::Err(m.mac.tokens.to_string());
                        }
                    }
                }
                R::Ok(out)
            } else {
                R::Ok(out)
            }
        }
    }
}
fn header(d: &str, src: &str) -> Result<(), String> {
    let out = match expand(d, src) {
        R::Ok(t) => t,
        R::Bad(e) => return Err(format!("bad case: {e}")),
        R::Err(e) => return Err(format!("rejected: {e}")),
        R::Panic(e) => return Err(format!("panicked: {e}")),
    };
    let input: DeriveInput = syn::parse_str(src).unwrap();
    let f: syn::File = syn::parse2(out).unwrap();
    let last = match d {
        "ToTokens" => "ToTokens",
        _ => "Parse",
    };
    let imp = f.items.iter().find_map(|i| if let syn::Item::Impl(i) = i { Some(i) } else { None }).ok_or("no impl")?;
    let imp: &ItemImpl = imp;
    let tr = imp.trait_.as_ref().ok_or("not a trait impl")?;
    if tr.0.segments.last().unwrap().ident != last {
        return Err(format!("implements {}", tr.0.to_token_stream()));
    }
    let strip = |p: &GenericParam| {
        let mut p = p.clone();
        match &mut p {
            GenericParam::Type(t) => {
                t.default = None;
                t.attrs.clear();
            }
            GenericParam::Const(t) => {
                t.default = None;
                t.attrs.clear();
            }
            GenericParam::Lifetime(l) => l.attrs.clear(),
        }
        p.to_token_stream().to_string()
    };
    let want: Vec<String> = input.generics.params.iter().map(strip).collect();
    let got: Vec<String> = imp.generics.params.iter().map(strip).collect();
    if want != got {
        return Err(format!("impl parameters {got:?} instead of {want:?}"));
    }
    let preds = |g: &syn::Generics| {
        let mut v: Vec<String> = g.where_clause.iter().flat_map(|w| w.predicates.iter()).map(|p| p.to_token_stream().to_string()).collect();
        v.sort();
        v
    };
    let (w, g) = (preds(&input.generics), preds(&imp.generics));
    if w != g {
        return Err(format!("where predicates {g:?} instead of {w:?}"));
    }
    let (_, tg, _) = input.generics.split_for_impl();
    let id = &input.ident;
    let want = quote::quote!(#id #tg).to_string();
    let got = imp.self_ty.to_token_stream().to_string();
    let norm = |s: &str| s.replace(" < >", "");
    if norm(&want) != norm(&got) {
        return Err(format!("implemented for `{got}` instead of `{want}`"));
    }
    Ok(())
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap();
    th.join().unwrap();
}
fn run() {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for (i, line) in stdin.lock().lines().enumerate() {
        if i % 500 == 499 {
            proc_macro2::extra::invalidate_current_thread_spans();
        }
        let line = line.unwrap();
        let p: Vec<&str> = line.split('\x1f').collect();
        let one = |s: &str| s.replace('\n', " ");
        let r = match p[0] {
            "expand" => match expand(p[1], p[2]) {
                R::Bad(e) => format!("bad\x1f{}", one(&e)),
                R::Ok(t) => format!("ok\x1f{}", one(&t.to_string())),
                R::Err(e) => format!("err\x1f{}", one(&e)),
                R::Panic(e) => format!("panic\x1f{}", one(&e)),
            },
            "header" => match catch_unwind(AssertUnwindSafe(|| header(p[1], p[2]))) {
                Ok(Ok(())) => "ok\x1f".into(),
                Ok(Err(e)) => format!("err\x1f{}", one(&e)),
                Err(_) => "panic\x1f".into(),
            },
            _ => "bad\x1f".into(),
        };
        writeln!(out, "{r}").unwrap();
    }
}
