//! vx: extracts functions from Rust source, applies the documented rewrites, splices
//! contracts in and prints a Verus file plus a line table.  See /verif/DESIGN.md.
mod contract;
mod index;
mod print;
mod rewrite;

use std::collections::BTreeMap;
use std::fs;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let vc = get("--contract").expect("--contract");
    let repo = get("--repo").expect("--repo");
    let out = get("--out").expect("--out");
    let report = get("--report").expect("--report");
    let probe = get("--probe").unwrap_or_default();
    let unit = contract::parse(&vc);
    let mut text = String::new();
    let mut tags = String::new();
    for (n, t) in &unit.quotes {
        let t: proc_macro2::TokenStream = t.parse().unwrap_or_else(|e| panic!("@quote {n}: {e}"));
        let k = rewrite::template(t, false).0;
        tags.push_str(&format!("pub open spec fn {n}() -> int {{ {k} }}\n"));
    }
    let named = rewrite::TEMPLATES.with_borrow(|t| t.len());
    let mut fns_json: Vec<String> = Vec::new();
    text.push_str("// generated by vx; do not edit\n");
    text.push_str(&unit.head);
    let mut files: BTreeMap<String, index::Index> = BTreeMap::new();
    let mut lost: Vec<String> = Vec::new();
    for e in &unit.entries {
        match e {
            contract::Entry::Text(t) => text.push_str(t),
            contract::Entry::Item { file, kind, name, fc } => {
                if !files.contains_key(file) {
                    let p = if file.starts_with('/') { file.clone() } else { format!("{repo}/{file}") };
                    let idx = match fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|s| index::Index::new(&s)) {
                        Ok(i) => i,
                        Err(e) => {
                            lost.push(format!("cannot read {p}: {e}"));
                            index::Index::default()
                        }
                    };
                    files.insert(file.clone(), idx);
                }
                let idx = &files[file];
                let start = text.matches('\n').count() + 1;
                let r = match kind.as_str() {
                    "item" => idx.item(name).map(|i| rewrite::item(i, fc)),
                    "fn" => idx.func(name).map(|f| rewrite::func(f, fc, &probe)),
                    k => panic!("unknown entry {k}"),
                };
                match r {
                    None => lost.push(format!("{kind} {name} not found in {file}")),
                    Some(rr) => {
                        for p in &rr.problems {
                            lost.push(format!("{name}: {p}"));
                        }
                        text.push_str(&rr.text);
                        let end = text.matches('\n').count();
                        if kind == "fn" || !fc.spec.is_empty() {
                            fns_json.push(format!(
                                "{{\"name\":{},\"file\":{},\"src_line\":{},\"start\":{},\"end\":{},\"trusted\":{},\"contracted\":{},\"item\":{}}}",
                                jstr(name), jstr(file), rr.src_line, start, end, fc.external, !fc.spec.is_empty(), kind == "item"
                            ));
                        }
                    }
                }
            }
        }
    }
    // functions of the source files that the unit neither contracts nor skips
    let mut unknown: Vec<String> = Vec::new();
    for (file, idx) in &files {
        if unit.complete.contains(file) {
            for n in idx.all_fns() {
                let used = unit.entries.iter().any(|e| matches!(e, contract::Entry::Item{file: f, kind, name, ..} if f == file && kind == "fn" && *name == n));
                if !used && !unit.skip.contains(&n) {
                    unknown.push(n.clone());
                    // emitted without a contract so that its callers still parse
                    let f = idx.func(&n).unwrap();
                    let fc = contract::FnContract::default();
                    let start = text.matches('\n').count() + 1;
                    let rr = rewrite::func(f, &fc, "");
                    text.push_str(&rr.text);
                    let end = text.matches('\n').count();
                    fns_json.push(format!(
                        "{{\"name\":{},\"file\":{},\"src_line\":{},\"start\":{},\"end\":{},\"trusted\":false,\"contracted\":false}}",
                        jstr(&n), jstr(file), rr.src_line, start, end
                    ));
                }
            }
        }
    }
    // one function per quote! template
    text.push_str(&tags);
    let mut unnamed: Vec<String> = Vec::new();
    rewrite::TEMPLATES.with_borrow(|ts| {
        for (k, t) in ts.iter().enumerate() {
            if !t.used && !t.parsed {
                continue;
            }
            // only variables: their tokens, joined
            let w: Vec<&str> = t.text.split(' ').collect();
            let joined: Option<Vec<String>> = w.chunks(2).map(|c| if c.len() == 2 && c[0] == "#" && c[1].chars().all(|c| c.is_ascii_digit()) { Some(format!("a{}.cd()", c[1])) } else { None }).collect();
            if k >= named && !t.text.is_empty() && joined.is_none() {
                unnamed.push(t.text.clone());
            }
            let l = |f: &dyn Fn(usize) -> String| (0..t.args).map(f).collect::<Vec<_>>().join(", ");
            let code = if t.text.is_empty() { "Seq::<Cd>::empty()".into() } else if let Some(j) = joined { j.join(" + ") } else { format!("seq![Cd::N({k}, seq![{}])]", l(&|i| format!("a{i}.cd()"))) };
            if t.parsed {
                text.push_str(&format!(
                    "// {}\n#[verifier::external_body] fn vx_p{k}<T: Quoted, {}>({}) -> (r: T) ensures r.cd() == {code} {{ unimplemented!() }}\n",
                    t.text, l(&|i| format!("A{i}: Interp")), l(&|i| format!("a{i}: &A{i}"))
                ));
            }
            if !t.used {
                continue;
            }
            text.push_str(&format!(
                "// {}\n#[verifier::external_body] fn vx_q{k}<{}>({}) -> (r: TokenStream) ensures r.code() == {code} {{ unimplemented!() }}\n",
                t.text, l(&|i| format!("A{i}: Interp")), l(&|i| format!("a{i}: &A{i}"))
            ));
        }
    });
    text.push_str(&unit.tail);
    fs::write(&out, &text).unwrap();
    let j = format!(
        "{{\"functions\":[{}],\"lost\":[{}],\"uncontracted\":[{}],\"unnamed_templates\":[{}]}}",
        fns_json.join(","),
        lost.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        unknown.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        unnamed.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    fs::write(&report, j).unwrap();
}
