//! Contract files (.vc).  Directives start with `@` in column 0.
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub rename: Option<String>,
    pub ret: Option<String>,
    pub generics: Vec<String>,
    pub extra: Vec<String>,
    pub subst: BTreeMap<String, String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub closure_keys: BTreeMap<usize, String>,
    pub entry: String,
    pub before_tail: String,
    pub loop_entry: BTreeMap<usize, String>,
    pub loop_exit: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub callargs: BTreeMap<String, String>,
    pub locals: Vec<String>,
    pub external: bool,
    pub lenient: bool,
    /// when `panic!` is allowed
    pub panics: String,
    pub attrs: String,
    pub nloops: Option<usize>,
    pub self_ty: Option<String>,
}
pub enum Entry {
    Text(String),
    Item { file: String, kind: String, name: String, fc: FnContract },
}
#[derive(Default)]
pub struct Unit {
    pub head: String,
    pub tail: String,
    pub entries: Vec<Entry>,
    pub complete: Vec<String>,
    pub skip: Vec<String>,
    pub quotes: Vec<(String, String)>,
}

pub fn parse(path: &str) -> Unit {
    let mut u = Unit {
        head: "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unreachable_patterns, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unused_labels)]\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::iter::IteratorSpec;\nverus! {\n".into(),
        tail: "\nfn main() {}\n}\n".into(),
        ..Default::default()
    };
    let mut file = String::new();
    parse_into(path, &mut u, &mut file, false);
    u
}
fn parse_into(path: &str, u: &mut Unit, file: &mut String, assume: bool) {
    let s = fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut sect: Option<(String, String)> = None; // (section, arg) inside fn
    for line in s.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            let rest = rest.trim_end();
            let (k, a) = rest.split_once(' ').unwrap_or((rest, ""));
            let a = a.trim();
            match k {
                "//" => {}
                "include" => {
                    let p = Path::new(path).parent().unwrap().join(a);
                    parse_into(p.to_str().unwrap(), u, file, assume);
                    sect = None;
                }
                // the contracts of another unit, which proves them
                "assume" => {
                    let p = Path::new(path).parent().unwrap().join(a);
                    parse_into(p.to_str().unwrap(), u, file, true);
                    sect = None;
                }
                "file" => {
                    *file = a.into();
                    sect = None;
                }
                // a quote! template and the name of its tag
                "quote" => {
                    let (n, t) = a.split_once(' ').unwrap_or((a, ""));
                    u.quotes.push((n.into(), t.into()));
                    sect = None;
                }
                "complete" => u.complete.push(file.clone()),
                "skip" => u.skip.push(a.into()),
                "text" => sect = None,
                "item" | "fn" => {
                    u.entries.push(Entry::Item { file: file.clone(), kind: k.into(), name: a.into(), fc: FnContract { external: assume, ..Default::default() } });
                    sect = None;
                }
                _ => {
                    let Some(Entry::Item { fc, .. }) = u.entries.last_mut() else { panic!("{path}: @{k} outside fn") };
                    match k {
                        "ret" => fc.ret = Some(a.into()),
                        "rename" => fc.rename = Some(a.into()),
                        "generics" => fc.generics.push(a.into()),
                        "extra" => fc.extra.push(a.into()),
                        "self" => fc.self_ty = Some(a.into()),
                        "attrs" => { fc.attrs.push_str(a); fc.attrs.push('\n'); }
                        "subst" => {
                            let (n, t) = a.split_once(':').unwrap();
                            fc.subst.insert(n.trim().into(), t.trim().into());
                        }
                        "callarg" => {
                            let (n, t) = a.split_once(' ').unwrap();
                            fc.callargs.insert(n.trim().into(), t.trim().into());
                        }
                        "locals" => fc.locals = a.split_whitespace().map(|s| s.to_string()).collect(),
                        "nloops" => fc.nloops = Some(a.parse().unwrap()),
                        "panics" => fc.panics = a.into(),
                        "lenient" => fc.lenient = true,
                        "external" => fc.external = true,
                        "closure" => {
                            // `@closure K name`: the closure that mentions `name`, K-th when that is not one closure each
                            let (n, key) = a.split_once(' ').unwrap_or((a, ""));
                            if !key.is_empty() {
                                fc.closure_keys.insert(n.parse().unwrap(), key.trim().into());
                            }
                            sect = Some((k.into(), n.into()));
                            continue;
                        }
                        "spec" | "loop" | "entry" | "tail" | "loopentry" | "loopexit" | "loopend" => {
                            sect = Some((k.into(), a.into()));
                            continue;
                        }
                        _ => panic!("{path}: unknown directive @{k}"),
                    }
                    sect = None;
                }
            }
            continue;
        }
        match &sect {
            None => {
                if let Some(Entry::Text(t)) = u.entries.last_mut() {
                    t.push_str(line);
                    t.push('\n');
                } else if !line.trim().is_empty() {
                    u.entries.push(Entry::Text(format!("{line}\n")));
                }
            }
            Some((k, a)) => {
                let Some(Entry::Item { fc, .. }) = u.entries.last_mut() else { panic!() };
                let dst = match k.as_str() {
                    "spec" => &mut fc.spec,
                    "entry" => &mut fc.entry,
                    "tail" => &mut fc.before_tail,
                    "loop" => fc.loops.entry(a.parse().unwrap()).or_default(),
                    "loopentry" => fc.loop_entry.entry(a.parse().unwrap()).or_default(),
                    "loopexit" => fc.loop_exit.entry(a.parse().unwrap()).or_default(),
                    "loopend" => fc.loop_end.entry(a.parse().unwrap()).or_default(),
                    "closure" => fc.closures.entry(a.parse().unwrap()).or_default(),
                    _ => unreachable!(),
                };
                dst.push_str(line);
                dst.push('\n');
            }
        }
    }
}
