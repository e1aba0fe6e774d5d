"""Builds the in-process derive host from the sources of /repo/structmeta-derive."""
import os, re, shutil


def make(repo, out, engine):
    src = f"{repo}/structmeta-derive/src"
    dst = f"{out}/src/derive"
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    entries = {}
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            t = open(p).read()
            rel = os.path.relpath(p, src)
            # derive entry points
            for m in re.finditer(r"#\[proc_macro_derive\(\s*(\w+)[^\]]*\)\]\s*(?:#\[[^\]]*\]\s*)*pub fn (\w+)", t):
                entries[m.group(1)] = m.group(2)
            t = re.sub(r"#\[proc_macro_derive\([^\]]*\)\]", "", t)
            t = re.sub(r"extern crate proc_macro;", "", t)
            t = re.sub(r"^//!.*$", "", t, flags=re.M)
            t = re.sub(r"(?<!\w)(::)?proc_macro::TokenStream", "proc_macro2::TokenStream", t)
            t = re.sub(r"(?<!\w)proc_macro::(?=\w)", "proc_macro2::", t)
            # the crate is a module here
            t = re.sub(r"\bcrate::", "crate::derive::", t)
            # parse_macro_input! returns the real proc_macro's TokenStream
            t = re.sub(r"^(\s*(?:pub )?use [^;]*?)\bparse_macro_input\b\s*,?", r"\1", t, flags=re.M)
            t = re.sub(r"(?:::)?syn::parse_macro_input!", "parse_macro_input!", t)
            if rel == "lib.rs":
                t = """macro_rules! parse_macro_input { ($i:ident as $t:ty) => { match syn::parse2::<$t>($i) { Ok(x) => x, Err(e) => return e.to_compile_error() } };
  ($i:ident) => { match syn::parse2($i) { Ok(x) => x, Err(e) => return e.to_compile_error() } } }
""" + t
            q = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write(t)
    arms = "\n".join(f'        "{d}" => derive::{f}(ts),' for d, f in sorted(entries.items()))
    open(f"{out}/src/entry.rs", "w").write("fn entry(d: &str, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {\n    match d {\n" + arms + "\n        _ => panic!(\"no such derive\"),\n    }\n}\n")
    shutil.copy(f"{engine}/src/main.rs", f"{out}/src/main.rs")
    shutil.copy(f"{engine}/Cargo.toml", f"{out}/Cargo.toml")
    return entries
