//! The helpers called by the generated parsers, called directly with generated name tables and
//! tokens, against an oracle written from C06, C07, C15 and C16.  Finds inputs for failed
//! obligations; see DESIGN.md.
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use structmeta::helpers::*;
use syn::{MacroDelimiter, parse::ParseStream, parse::Parser};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Case {
    tables: [Vec<String>; 3],
    rest: [bool; 3],
    no_unnamed: bool,
    snake: bool,
    toks: String,
}
impl Case {
    fn show(&self) -> String {
        format!("{}\u{1}{}\u{1}{}\u{1}{}{}{}{}{}\u{1}{}", self.tables[0].join(","), self.tables[1].join(","), self.tables[2].join(","), self.rest[0] as u8, self.rest[1] as u8, self.rest[2] as u8, self.no_unnamed as u8, self.snake as u8, self.toks)
    }
    fn read(s: &str) -> Case {
        let p: Vec<&str> = s.split('\u{1}').collect();
        let l = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
        let b: Vec<bool> = p[3].chars().map(|c| c == '1').collect();
        Case { tables: [l(p[0]), l(p[1]), l(p[2])], rest: [b[0], b[1], b[2]], no_unnamed: b[3], snake: b[4], toks: p[4].to_string() }
    }
}
#[derive(Debug, PartialEq, Eq, Clone)]
enum Want {
    Unnamed,
    Taken(usize, Option<usize>, usize),
    Unknown(String, Option<String>),
    Wrong(Vec<String>, Option<String>),
    TooMany,
}
fn eq_op(t: &[TokenTree]) -> bool {
    match t.first() {
        Some(TokenTree::Punct(p)) if p.as_char() == '=' => match (p.spacing(), t.get(1)) {
            (proc_macro2::Spacing::Joint, Some(TokenTree::Punct(q))) => q.as_char() != '=' && q.as_char() != '>',
            _ => true,
        },
        _ => false,
    }
}
/// 0 equal, 1 one character inserted, removed or replaced, 2 two adjacent characters swapped
fn near(a: &str, b: &str) -> Option<usize> {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    if a == b {
        return Some(0);
    }
    let without = |s: &[char], i: usize| s.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| *c).collect::<Vec<_>>();
    if a.len() + 1 == b.len() && (0..b.len()).any(|i| without(&b, i) == a) || b.len() + 1 == a.len() && (0..a.len()).any(|i| without(&a, i) == b) {
        return Some(1);
    }
    if a.len() == b.len() {
        let diff: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
        if diff.len() == 1 {
            return Some(1);
        }
        if diff.len() == 2 && diff[0] + 1 == diff[1] && a[diff[0]] == b[diff[1]] && a[diff[1]] == b[diff[0]] {
            return Some(2);
        }
    }
    None
}
fn oracle(c: &Case, t: &[TokenTree]) -> Want {
    let has = |s: usize| !c.tables[s].is_empty() || c.rest[s];
    if let Some(TokenTree::Ident(i)) = t.first() {
        let n = i.to_string();
        let passes = !c.snake || n.chars().all(|x| matches!(x, 'a'..='z' | '0'..='9' | '_'));
        if passes {
            let shown = if t.len() == 1 || matches!(&t[1], TokenTree::Punct(p) if p.as_char() == ',') {
                Some(0)
            } else if eq_op(&t[1..]) {
                Some(1)
            } else if matches!(&t[1], TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis) {
                Some(2)
            } else {
                None
            };
            let named = c.no_unnamed || shown.is_some_and(has);
            if named {
                if let Some(s) = shown {
                    let consumed = if s == 1 { 2 } else { 1 };
                    if let Some(k) = c.tables[s].iter().position(|x| *x == n) {
                        return Want::Taken(s, Some(k), consumed);
                    }
                    if c.rest[s] {
                        return Want::Taken(s, None, consumed);
                    }
                }
                let form = |s: usize| [format!("flag `{n}`"), format!("`{n} = ...`"), format!("`{n}(...)`")][s].clone();
                let acc: Vec<String> = (0..3).filter(|&s| c.rest[s] || c.tables[s].contains(&n)).map(form).collect();
                if !acc.is_empty() {
                    return Want::Wrong(acc, shown.map(|s| [format!("`{n}`"), format!("`{n} = ...`"), format!("`{n}`(...)")][s].clone()));
                }
                let all: BTreeSet<&String> = c.tables.iter().flatten().collect();
                let best = all.iter().filter_map(|x| near(&n, x)).min();
                let at: Vec<_> = all.iter().filter(|x| best.is_some() && near(&n, x) == best).collect();
                return Want::Unknown(n, if at.len() == 1 { Some(at[0].to_string()) } else { None });
            }
        }
    }
    if c.no_unnamed { Want::TooMany } else { Want::Unnamed }
}
fn quoted(m: &str) -> Vec<String> {
    m.split('`').skip(1).step_by(2).map(|s| s.to_string()).collect()
}
fn pos(s: Span) -> (usize, usize) {
    (s.start().line, s.start().column)
}
type Props = BTreeSet<&'static str>;
fn judge(c: &Case, classes: &mut BTreeMap<String, u64>) -> Option<(Props, String)> {
    let ts: TokenStream = c.toks.parse().ok()?;
    let t: Vec<TokenTree> = ts.clone().into_iter().collect();
    let want = oracle(c, &t);
    *classes.entry(format!("{want:?}").split('(').next().unwrap().to_string()).or_default() += 1;
    let tabs: Vec<Vec<&str>> = c.tables.iter().map(|v| v.iter().map(|s| s.as_str()).collect()).collect();
    let flt: &dyn Fn(&str) -> bool = if c.snake { &is_snake_case } else { &|_| true };
    let mut left = None;
    let p = |input: ParseStream| {
        let r = try_parse_name(input, &tabs[0], c.rest[0], &tabs[1], c.rest[1], &tabs[2], c.rest[2], c.no_unnamed, flt);
        let l: TokenStream = input.parse()?;
        left = Some(l.into_iter().count());
        Ok(r)
    };
    let mut props = Props::new();
    let got = match catch_unwind(AssertUnwindSafe(|| p.parse2(ts))) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return Some((["C06"].into(), format!("cannot read on: {e}"))),
        Err(_) => return Some((["C06", "C07"].into(), "panicked".into())),
    };
    let consumed = t.len() - left.unwrap();
    let at = t.first().map(|x| pos(x.span()));
    let ok = match (&want, &got) {
        (Want::Unnamed, Ok(None)) => consumed == 0,
        (Want::Taken(s, k, n), Ok(Some((i, sp)))) => {
            let (gs, gi) = match i {
                NameIndex::Flag(i) => (0, i),
                NameIndex::NameValue(i) => (1, i),
                NameIndex::NameArgs(i) => (2, i),
            };
            if Some(pos(*sp)) != at || gi.as_ref().is_err_and(|i| Some(pos(i.span())) != at) {
                props.insert("C16");
            }
            let name = t[0].to_string();
            gs == *s && gi.as_ref().ok().copied() == *k && (k.is_some() || gi.as_ref().is_err_and(|i| i.to_string() == name)) && consumed == *n
        }
        (Want::TooMany, Err(_)) => true,
        (Want::Unknown(n, sug), Err(e)) => {
            let m = e.to_string();
            let q = quoted(&m);
            if !m.contains("cannot find") || q.first() != Some(n) || q[1..] != sug.iter().cloned().collect::<Vec<_>>()[..] {
                props.insert("C07");
            }
            if Some(pos(e.span())) != at {
                props.insert("C16");
            }
            true
        }
        (Want::Wrong(acc, found), Err(e)) => {
            let m = e.to_string();
            let (e0, f) = match m.find(", found ") {
                Some(i) => (m[..i].to_string(), Some(m[i + 8..].to_string())),
                None => (m.clone(), None),
            };
            let mut k = 0;
            let mut ok = m.starts_with("expected ");
            for a in acc {
                match e0[k..].find(a.as_str()) {
                    Some(i) => k += i + a.len(),
                    None => ok = false,
                }
            }
            if !ok || quoted(&e0).len() != acc.len() || k != e0.len() || &f != found {
                props.insert("C07");
            }
            if Some(pos(e.span())) != at {
                props.insert("C16");
            }
            true
        }
        _ => false,
    };
    if !ok {
        props.insert("C06");
        props.insert("C01");
    }
    if props.is_empty() {
        return None;
    }
    let g = match &got {
        Ok(None) => "left to the unnamed parameters".to_string(),
        Ok(Some((i, sp))) => format!(
            "taken as {} at {:?}",
            match i {
                NameIndex::Flag(i) => format!("flag {i:?}"),
                NameIndex::NameValue(i) => format!("name = value {i:?}"),
                NameIndex::NameArgs(i) => format!("name(args) {i:?}"),
            },
            pos(*sp)
        ),
        Err(e) => format!("error at {:?}: {e}", pos(e.span())),
    };
    Some((props, format!("try_parse_name: expected {want:?}, got {g}; {consumed} token trees consumed")))
}
fn delims(c: &str) -> Option<(Props, String)> {
    let ts: TokenStream = c.parse().ok()?;
    let t: Vec<TokenTree> = ts.clone().into_iter().collect();
    let r = (|input: ParseStream| {
        let r = parse_macro_delimiter(input).map(|(d, b)| (d, b.parse::<TokenStream>().unwrap().to_string()));
        let l: TokenStream = input.parse()?;
        Ok((r, l.to_string()))
    })
    .parse2(ts.clone());
    let why = |s: &str| Some((["C15"].into(), s.to_string()));
    let (r, left) = match r {
        Ok(x) => x,
        Err(e) => return why(&format!("cannot read on: {e}")),
    };
    match (t.first(), r) {
        (Some(TokenTree::Group(g)), Ok((d, inner))) if g.delimiter() != Delimiter::None => {
            let dd = match d {
                MacroDelimiter::Paren(_) => Delimiter::Parenthesis,
                MacroDelimiter::Brace(_) => Delimiter::Brace,
                MacroDelimiter::Bracket(_) => Delimiter::Bracket,
            };
            let rest: TokenStream = t[1..].iter().cloned().collect();
            if dd != g.delimiter() || inner != g.stream().to_string() || left != rest.to_string() {
                return why(&format!("parsed as {dd:?} around `{inner}`, left `{left}`"));
            }
            let mut out: TokenStream = "before".parse().unwrap();
            surround_macro_delimiter(&d, &mut out, |o| g.stream().to_tokens(o));
            let mut want: TokenStream = "before".parse().unwrap();
            want.extend([TokenTree::Group(Group::new(g.delimiter(), g.stream()))]);
            if out.to_string() != want.to_string() {
                return why(&format!("printed as `{out}`"));
            }
            None
        }
        (Some(TokenTree::Group(_)), Err(e)) => why(&format!("rejected: {e}")),
        (_, Ok(_)) => why("accepted without a group"),
        (_, Err(_)) if left != ts.to_string() => why("tokens consumed by a failed parse"),
        _ => None,
    }
}
const NAMES: &[&str] = &[
    "a", "b", "c", "ab", "ba", "abc", "acb", "abd", "bac", "abcd", "abdc", "aabc", "abcc", "xyz", "xy", "yx", "type", "fn", "self", "r#type", "A", "Abc", "aBc", "a_b", "_a", "_", "a1", "a1b", "été", "étè",
    "eté", "long_name", "long_nmae", "ong_name", "long_namee", "lomg_name", "q", "aa", "bb", "aab", "aba", "a٣", "x1٣", "aⅧ", "maß", "ǅa", "ａb", "_٣",
];
const TAILS: &[&str] = &[
    "", "", ",", ", 1", ", b", "= 1", "=1", "=-1", "= -1", "=!z", "=&x", "= =", "= >", "==1", "== 1", "=>1", "=> 1", "=", "=,", "=== 1", "=(1)", "()", "(1)", "(a = 1), c", "[1]", "{}", ".b", "::c", "::<T>()", "! x", "!=1", "+1", "+= 1", "<= 1", "=<1", "1", "\"s\"", "c", "; 1", "|x| y",
    "'a", ": u8", "?", "=.1", "=..1", "=~1", "=|x| 1", "=#x", "=*x", "=$x",
];
fn case(r: &mut Rng) -> Case {
    let mut pool: Vec<String> = vec![];
    for _ in 0..1 + r.below(4) {
        pool.push(r.pick(NAMES).to_string());
    }
    let mut tables: [Vec<String>; 3] = Default::default();
    for t in tables.iter_mut() {
        for p in &pool {
            if r.chance(40) {
                t.push(p.clone());
            }
        }
        if r.chance(10) {
            t.push(r.pick(NAMES).to_string());
        }
        t.sort();
        t.dedup();
    }
    let mut n = if r.chance(50) { r.pick(&pool).clone() } else { r.pick(NAMES).to_string() };
    if r.chance(35) {
        let mut c: Vec<char> = n.chars().collect();
        match r.below(5) {
            0 if c.len() > 1 => {
                let i = r.below(c.len());
                c.remove(i);
            }
            1 => {
                let i = r.below(c.len() + 1);
                c.insert(i, *r.pick(&['a', 'b', 'z', '_', 'Q', 'é', '٣', 'Ⅷ', 'ß', '0', '9', 'A', 'Z']));
            }
            2 => {
                let i = r.below(c.len());
                c[i] = *r.pick(&['a', 'b', 'z', 'Z', 'è', 'ß', 'Ⅷ']);
            }
            3 if c.len() > 1 => {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            _ => {
                let i = r.below(c.len());
                let x = c[i];
                c.insert(i, x);
            }
        }
        n = c.into_iter().collect();
    }
    let tail = *r.pick(TAILS);
    let toks = if r.chance(8) { r.pick(&["", "1", "\"a\"", "(a)", "[a]", "{a}", "= 1", ", a", "'a", "-1", "#a"]).to_string() } else { format!("{n} {tail}") };
    Case { tables, rest: [r.chance(20), r.chance(20), r.chance(20)], no_unnamed: r.chance(50), snake: r.chance(25), toks }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut classes = BTreeMap::new();
    if a[1] == "one" {
        let r = match a[2].strip_prefix("delim ") {
            Some(d) => delims(d),
            None => judge(&Case::read(&a[2]), &mut classes),
        };
        match r {
            Some((p, why)) => {
                println!("MISMATCH props={p:?} {why}");
                std::process::exit(1);
            }
            None => println!("ok"),
        }
        return;
    }
    let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    for _ in 0..8 {
        r.next();
    }
    let mut found: Vec<(Props, String, String)> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut evals = 0u64;
    let mut samples = vec![];
    let ds = ["", "a", "= 1", "1 (a)", ", []"];
    for d in ["()", "[]", "{}", "(a b)", "[a, b]", "{a; b}", "((x))", "[(x) [y] {z}]", "{{}}"].iter().map(|s| s.to_string()) {
        for t in ds {
            for c in [format!("{d} {t}"), format!("{t} {d}")] {
                evals += 1;
                seen.insert(c.clone());
                if let Some((p, w)) = delims(&c) {
                    found.push((p, format!("delim {c}"), w));
                }
            }
        }
    }
    for i in 0..n {
        let c = case(&mut r);
        evals += 1;
        if i % (n / 6 + 1) == 0 {
            samples.push(format!("{c:?}"));
        }
        if let Some((p, w)) = judge(&c, &mut classes) {
            if found.len() < 2000 {
                found.push((p, c.show(), w));
            }
        }
        seen.insert(c.show());
    }
    found.sort_by_key(|x| x.1.len());
    let mut count: BTreeMap<Props, usize> = BTreeMap::new();
    let found: Vec<_> = found
        .into_iter()
        .filter(|x| {
            let k = count.entry(x.0.clone()).or_default();
            *k += 1;
            *k <= 4
        })
        .collect();
    println!(
        "{{\"evaluations\":{evals},\"distinct\":{},\"classes\":{{{}}},\"samples\":[{}],\"mismatches\":[{}]}}",
        seen.len(),
        classes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        found
            .iter()
            .map(|(p, c, w)| format!("{{\"props\":[{}],\"def\":\"helpers\",\"src\":{},\"list\":{},\"why\":{}}}", p.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), js(&c.replace('\u{1}', " | ")), js(c), js(w)))
            .collect::<Vec<_>>()
            .join(",")
    );
}
