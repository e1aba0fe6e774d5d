//! Bounded search over argument lists for the definition family: the real parser against the
//! oracle of model.rs.  Stand-in and replay engine; see DESIGN.md.
extern crate alloc;
mod defs;
mod model;
use model::*;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

fn good(l: Leaf) -> &'static [&'static str] {
    match l {
        Leaf::Int => &["1", "2", "0x1f"],
        Leaf::Str => &["\"s\"", "\"t\""],
        Leaf::Ident => &["q", "ab", "W"],
        Leaf::Expr => &["1", "a + b", "-1", "f(x)", "a == b", "(1, 2)", "x = 3", "!z", "ab", "&q", "abc = 1", "|v| v", "a::b"],
        Leaf::Type => &["u8", "Vec<u8, A>", "(u8, u8)", "&'a T", "fn(a) -> b", "ab"],
        Leaf::OtherVec | Leaf::OtherOption | Leaf::OtherNv => &["[1]", "[2]"],
        Leaf::OtherFlag => &["[x]"],
        Leaf::Empty => &[""],
    }
}
const JUNK: &[&str] = &[
    "1", "\"s\"", "q", "a + b", "-1", "[1]", "[x]", "u8", "(1)", "{ }", "=", "==", "=>", "=1", "= ,", ";", "#", "::", "a b", "1 2", "'a", "'c'",
    "_", "+", "$", "true", "self", "x = 1", "x(1)", "x", "a.b", "Zz", "zz",
];
fn misspell(n: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = n.chars().collect();
    match r.below(6) {
        0 if c.len() > 1 => {
            let i = r.below(c.len());
            c.remove(i);
        }
        1 => {
            let i = r.below(c.len() + 1);
            c.insert(i, *r.pick(&['a', 'b', 'z', '_', 'Q', 'é', '٣', '9']));
        }
        2 => {
            let i = r.below(c.len());
            c[i] = *r.pick(&['a', 'b', 'z', 'Z', 'ß']);
        }
        3 if c.len() > 1 => {
            let i = r.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        4 => return n.to_uppercase(),
        5 if c.len() > 1 => {
            let i = r.below(c.len() - 1);
            c.swap(i, i + 1);
            c.push('z');
        }
        _ => c.push('x'),
    }
    let s: String = c.into_iter().collect();
    if s.is_empty() || s.chars().next().unwrap().is_ascii_digit() || s == "_" { "zz".into() } else { s }
}
const FORMS: usize = 22;
fn form(n: &str, v: &str, w: &str, k: usize) -> String {
    match k {
        0 => n.to_string(),
        1 => format!("{n} = {v}"),
        2 => format!("{n}({v})"),
        3 => format!("{n}={v}"),
        4 => format!("{n}()"),
        5 => format!("{n}({v}, {w})"),
        6 => format!("{n}({v},)"),
        7 => format!("{n}({v} {w})"),
        8 => format!("{n}(,)"),
        9 => format!("{n} == {v}"),
        10 => format!("{n} => {v}"),
        11 => format!("{n} {v}"),
        12 => format!("{n} ="),
        13 => format!("{n}[{v}]"),
        14 => format!("{n}{{{v}}}"),
        15 => format!("{n} = {v} {w}"),
        16 => format!("{n}({v}) {w}"),
        17 => format!("{n} == = {v}"),
        18 => format!("{n}({v}; {w})"),
        19 => format!("{n}::{n}"),
        20 => format!("{n}({v},,{w})"),
        _ => format!("{n}!({v})"),
    }
}
struct Gen<'a> {
    d: &'a Def,
    vals: Vec<String>,
    names: Vec<String>,
}
impl<'a> Gen<'a> {
    fn new(d: &'a Def) -> Self {
        let mut vals = BTreeSet::new();
        for f in &d.fields {
            for g in good(f.leaf) {
                vals.insert(g.to_string());
            }
        }
        let mut names: Vec<String> = d.fields.iter().filter_map(|f| if let Place::Named(n) = f.place { Some(n.to_string()) } else { None }).collect();
        names.push("zz".into());
        names.push("Zz".into());
        Gen { d, vals: vals.into_iter().collect(), names }
    }
    /// small systematic set of arguments
    fn atoms(&self, r: &mut Rng) -> Vec<String> {
        let mut a: BTreeSet<String> = BTreeSet::new();
        for n in &self.names {
            let f = self.d.fields.iter().find(|f| matches!(f.place, Place::Named(x) if x == n)).or(self.d.fields.iter().find(|f| f.place == Place::Rest));
            let g = f.map(|f| good(f.leaf)).unwrap_or(&["1"]);
            for k in 0..FORMS {
                a.insert(form(n, r.pick(g), r.pick(g), k));
            }
        }
        for n in self.names.clone() {
            for _ in 0..2 {
                let m = misspell(&n, r);
                let k = r.below(3);
                a.insert(form(&m, "1", "1", k));
            }
        }
        a.extend(self.vals.iter().cloned());
        a.extend(JUNK.iter().map(|s| s.to_string()));
        a.into_iter().filter(|s| !s.is_empty()).collect()
    }
    fn named_arg(&self, n: &str, f: &FieldDef, r: &mut Rng) -> String {
        let g = good(f.leaf);
        let (v, w) = (*r.pick(g), *r.pick(g));
        let flag = |r: &mut Rng, k| if r.chance(30) { form(n, v, w, 0) } else { form(n, v, w, k) };
        match f.kind {
            Kind::Bool | Kind::Flag => form(n, v, w, 0),
            Kind::Val | Kind::Nv => form(n, v, w, *r.pick(&[1, 3])),
            Kind::Nvo => {
                let k = *r.pick(&[1, 3]);
                flag(r, k)
            }
            Kind::Na => form(n, v, w, 2),
            Kind::Nao => flag(r, 2),
            Kind::Vec | Kind::Nav => form(n, v, w, *r.pick(&[2, 4, 5, 6])),
            Kind::Naov => {
                let k = *r.pick(&[2, 4, 5, 6]);
                flag(r, k)
            }
        }
    }
    /// arguments of a list that ought to be accepted
    fn valid(&self, r: &mut Rng) -> Vec<String> {
        let d = self.d;
        let mut out = vec![];
        let keep = *r.pick(&[20, 50, 90]);
        let mut stop = false;
        for f in d.fields.iter().filter(|f| f.place == Place::Unnamed) {
            let g = good(f.leaf);
            if f.kind == Kind::Vec && !f.opt {
                if !stop {
                    for _ in 0..r.below(4) {
                        out.push(r.pick(g).to_string());
                    }
                }
            } else if f.opt {
                stop |= !r.chance(keep);
                if !stop {
                    out.push(r.pick(g).to_string());
                }
            } else {
                out.push(r.pick(g).to_string());
            }
        }
        let mut named = vec![];
        for f in &d.fields {
            match f.place {
                Place::Named(n) => {
                    let optional = f.opt || matches!(f.kind, Kind::Bool | Kind::Flag);
                    if !optional || r.chance(keep) {
                        named.push(self.named_arg(n, f, r));
                    }
                }
                Place::Rest => {
                    for n in ["zz", "yy", "r1"] {
                        if r.chance(keep) {
                            named.push(self.named_arg(n, f, r));
                        }
                    }
                }
                _ => {}
            }
        }
        for i in (1..named.len()).rev() {
            named.swap(i, r.below(i + 1));
        }
        out.extend(named);
        out
    }
    fn mutate(&self, mut l: Vec<String>, atoms: &[String], r: &mut Rng) -> (Vec<String>, String) {
        let d = self.d;
        let mut sep = ", ".to_string();
        for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
            let n = l.len();
            match r.below(9) {
                0 if n > 0 => {
                    l.remove(r.below(n));
                }
                1 if n > 0 => {
                    let x = l[r.below(n)].clone();
                    l.insert(r.below(n + 1), x);
                }
                2 => l.insert(r.below(n + 1), r.pick(atoms).clone()),
                3 if n > 0 => l[r.below(n)] = r.pick(atoms).clone(),
                4 if n > 1 => {
                    let (i, j) = (r.below(n), r.below(n));
                    l.swap(i, j);
                }
                5 => {
                    // repeat a parameter in another of its forms
                    let fs: Vec<_> = d.fields.iter().filter(|f| f.place != Place::Unnamed).collect();
                    if !fs.is_empty() {
                        let f = *r.pick(&fs);
                        let n = if let Place::Named(n) = f.place { n.to_string() } else { r.pick(&["zz", "yy"]).to_string() };
                        let a = self.named_arg(&n, f, r);
                        l.insert(r.below(l.len() + 1), a);
                    }
                }
                6 => {
                    let nm = misspell(r.pick(&self.names), r);
                    let k = r.below(4);
                    l.insert(r.below(n + 1), form(&nm, r.pick(&["1", "q", "\"s\""]), "1", k));
                }
                7 => {
                    let nm = r.pick(&self.names).clone();
                    let k = r.below(FORMS);
                    let v = r.pick(&self.vals_or()).clone();
                    l.insert(r.below(n + 1), form(&nm, &v, &v, k));
                }
                _ => sep = r.pick(&[",", " , ", ",,", "; ", " "]).to_string(),
            }
        }
        (l, sep)
    }
    fn vals_or(&self) -> Vec<String> {
        if self.vals.is_empty() { vec!["1".into()] } else { self.vals.clone() }
    }
}
fn render(l: &[String], sep: &str, r: &mut Rng) -> String {
    let mut s = String::new();
    let odd = if l.len() > 1 { r.below(l.len()) } else { 0 };
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            s.push_str(if sep == ", " || sep == "," || i == odd.max(1) { sep } else { ", " });
        }
        s.push_str(x);
    }
    s
}

#[derive(Clone)]
struct Miss {
    props: Vec<&'static str>,
    def: String,
    src: String,
    list: String,
    why: String,
}
fn quoted(s: &str) -> Vec<String> {
    s.split('`').skip(1).step_by(2).map(|x| x.to_string()).collect()
}
fn judge(d: &Def, list: &str, stats: &mut Stats) -> Option<Miss> {
    let Ok(ts) = list.parse::<TokenStream>() else { return None };
    let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut info = Info::default();
    let want = oracle(d, &toks, &mut info);
    let got = catch_unwind(AssertUnwindSafe(|| (d.parse)(ts)));
    stats.evals += 1;
    let class = match &want {
        Ok(_) => "accepted".to_string(),
        Err(w) => format!("{w:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
    };
    if toks.len() > 1 {
        stats.distinct += 1;
    }
    *stats.classes.entry(class).or_default() += 1;
    let mut props: BTreeSet<&'static str> = BTreeSet::new();
    let why;
    match (&want, &got) {
        (_, Err(_)) => {
            props.extend(["C01", "C03", "C04", "C05", "C06"]);
            why = "the parser panicked".to_string();
        }
        (Ok(w), Ok(Ok(g))) => {
            if w == g {
                return None;
            }
            for (i, f) in d.fields.iter().enumerate() {
                if w[i] == g[i] {
                    continue;
                }
                if w[i].no_span() == g[i].no_span() {
                    props.insert("C16");
                    continue;
                }
                let empty = |v: &V| match v {
                    V::None | V::Bool(false) | V::Flag(None) => true,
                    V::Vec(v) => v.is_empty() && f.place == Place::Unnamed,
                    V::Map(m) => m.is_empty(),
                    _ => false,
                };
                if empty(&w[i]) != empty(&g[i]) {
                    props.insert("C03");
                }
                props.insert(if f.place == Place::Unnamed { "C04" } else { "C01" });
            }
            why = format!("expected {w:?}, got {g:?}");
        }
        (Err(w), Ok(Ok(g))) => {
            match w {
                Why::Dup(..) => props.extend(["C02", "C01"]),
                Why::MissingNamed(_) => props.extend(["C03"]),
                Why::TooFewUnnamed => props.extend(["C03", "C04"]),
                Why::TooManyUnnamed | Why::UnnamedAfterNamed => props.extend(["C04"]),
                Why::Separator | Why::Leftover => props.extend(["C05"]),
                Why::Unknown { .. } | Why::WrongStyle { .. } => props.extend(["C01", "C06", "C07"]),
                Why::Leaf(true) => props.extend(["C01", "C05"]),
                Why::Leaf(false) => props.extend(["C04", "C05", "C06"]),
            };
            if matches!(w, Why::Unknown { .. } | Why::TooManyUnnamed) && d.snake {
                props.insert("C06");
            }
            why = format!("must be rejected ({w:?}), but was accepted as {g:?}");
        }
        (Ok(w), Ok(Err(e))) => {
            let m = e.to_string();
            if info.named {
                props.insert("C01");
            }
            if info.unnamed {
                props.insert("C04");
            }
            if info.comma || m.contains("`,`") || m.contains("unexpected token") {
                props.insert("C05");
            }
            if m.contains("more than once") {
                props.insert("C02");
            }
            if m.contains("missing") || m.contains("end of input") || m.contains("least") || w.iter().any(|v| matches!(v, V::None)) {
                props.insert("C03");
            }
            if m.contains("cannot find") || m.contains("expected") || m.contains("unnamed") {
                props.insert("C06");
            }
            if props.is_empty() {
                props.insert("C03");
            }
            why = format!("must be accepted as {w:?}, but was rejected: {m}");
        }
        (Err(w), Ok(Err(e))) => {
            let m = e.to_string();
            let at = pos(e.span());
            let mut notes = vec![];
            match w {
                Why::MissingNamed(l) => {
                    if !l.iter().any(|x| m.contains(x.as_str())) || !m.contains("missing") {
                        props.insert("C03");
                        notes.push(format!("must report one of {l:?} as missing"));
                    }
                }
                Why::Dup(p, true) => {
                    if at != *p {
                        props.insert("C16");
                        notes.push(format!("error must be at {p:?}, is at {at:?}"));
                    }
                }
                Why::Unknown { name, at: p, suggest } => {
                    if at != *p {
                        props.insert("C16");
                        notes.push(format!("error must be at {p:?}, is at {at:?}"));
                    }
                    let q = quoted(&m);
                    let sugg: Vec<String> = q.iter().skip(1).cloned().collect();
                    let want: Vec<String> = suggest.iter().cloned().collect();
                    if !m.contains("cannot find") || q.first() != Some(name) || sugg != want {
                        props.insert("C07");
                        notes.push(format!("must say it cannot find `{name}` and suggest exactly {suggest:?}"));
                    }
                }
                Why::WrongStyle { at: p, accepted, found } => {
                    if at != *p {
                        props.insert("C16");
                        notes.push(format!("error must be at {p:?}, is at {at:?}"));
                    }
                    let (e, f) = match m.find(", found ") {
                        Some(i) => (m[..i].to_string(), Some(m[i + 8..].to_string())),
                        None => (m.clone(), None),
                    };
                    let mut k = 0;
                    let mut ok = m.starts_with("expected ");
                    for a in accepted {
                        match e[k..].find(a.as_str()) {
                            Some(i) => k += i + a.len(),
                            None => ok = false,
                        }
                    }
                    ok &= quoted(&e).len() == accepted.len() && k == e.len();
                    ok &= &f == found;
                    if !ok {
                        props.insert("C07");
                        notes.push(format!("must list exactly {accepted:?} and found {found:?}"));
                    }
                }
                _ => {}
            }
            if props.is_empty() {
                return None;
            }
            why = format!("{}; message: {m}", notes.join("; "));
        }
    }
    Some(Miss { props: props.into_iter().collect(), def: d.name.to_string(), src: d.src.to_string(), list: list.to_string(), why })
}
#[derive(Default)]
struct Stats {
    evals: usize,
    distinct: usize,
    classes: BTreeMap<String, usize>,
    samples: Vec<(String, String)>,
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn run_def(d: &Def, seed: u64, n: usize, st: &mut Stats, out: &mut Vec<Miss>) {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in d.src.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h | 1);
    let g = Gen::new(d);
    let atoms = g.atoms(&mut r);
    let mut lists: BTreeSet<String> = BTreeSet::new();
    for s in ["", ",", ",,", ";"] {
        lists.insert(s.into());
    }
    for a in &atoms {
        lists.insert(a.clone());
        lists.insert(format!("{a},"));
        lists.insert(format!(", {a}"));
        lists.insert(format!("{a},,"));
    }
    for _ in 0..n / 4 {
        let (a, b) = (r.pick(&atoms), r.pick(&atoms));
        lists.insert(format!("{a}, {b}"));
    }
    // valid lists: all, then with each argument dropped, doubled, each pair swapped
    for _ in 0..n / 40 {
        let l = g.valid(&mut r);
        for i in 0..l.len() {
            let mut x = l.clone();
            let y = x.remove(i);
            lists.insert(x.join(", "));
            x.insert(i, y.clone());
            x.push(y);
            lists.insert(x.join(", "));
            if i > 0 {
                let mut x = l.clone();
                x.swap(i, i - 1);
                lists.insert(x.join(", "));
            }
        }
        lists.insert(l.join(", "));
        lists.insert(l.join(", ") + ",");
    }
    for _ in 0..n {
        let l = g.valid(&mut r);
        let (l, sep) = g.mutate(l, &atoms, &mut r);
        let mut s = render(&l, &sep, &mut r);
        match r.below(12) {
            0 => s.push(','),
            1 => s.push_str(", ,"),
            2 => s.insert(0, ','),
            _ => {}
        }
        lists.insert(s);
    }
    let mut seen: BTreeMap<Vec<&'static str>, usize> = BTreeMap::new();
    for (i, l) in lists.iter().enumerate() {
        if i % 2000 == 1999 {
            proc_macro2::extra::invalidate_current_thread_spans();
        }
        if let Some(m) = judge(d, l, st) {
            let c = seen.entry(m.props.clone()).or_default();
            *c += 1;
            if *c <= 2 {
                out.push(m);
            }
        }
    }
    proc_macro2::extra::invalidate_current_thread_spans();
    if let Some(l) = lists.iter().nth(lists.len() / 2) {
        st.samples.push((d.src.to_string(), l.clone()));
    }
    let _ = Delimiter::None;
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let defs = defs::all();
    if a[1] == "one" {
        // replay: sm one DEF LIST
        let d = defs.iter().find(|d| d.name == a[2]).expect("no such definition");
        let mut st = Stats::default();
        match judge(d, &a[3], &mut st) {
            Some(m) => {
                println!("MISMATCH props={} {}", m.props.join(","), m.why);
                std::process::exit(1);
            }
            None => println!("as specified"),
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let n: usize = a[3].parse().unwrap();
    let next = Mutex::new(0usize);
    let total = Mutex::new((Stats::default(), Vec::<Miss>::new()));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut st = Stats::default();
                    let mut out = vec![];
                    loop {
                        let i = {
                            let mut k = next.lock().unwrap();
                            *k += 1;
                            *k - 1
                        };
                        if i >= defs.len() {
                            break;
                        }
                        run_def(&defs[i], seed, n, &mut st, &mut out);
                    }
                    let mut t = total.lock().unwrap();
                    t.0.evals += st.evals;
                    t.0.distinct += st.distinct;
                    t.0.samples.extend(st.samples);
                    for (k, v) in st.classes {
                        *t.0.classes.entry(k).or_default() += v;
                    }
                    t.1.extend(out);
                })
                .unwrap();
        }
    });
    let (mut st, mut out) = total.into_inner().unwrap();
    out.sort_by(|a, b| (a.list.len(), &a.def, &a.list).cmp(&(b.list.len(), &b.def, &b.list)));
    st.samples.sort();
    let k = (st.samples.len() / 5).max(1);
    let samples: Vec<String> = st.samples.iter().step_by(k).map(|(a, b)| format!("{{\"definition\":{},\"list\":{}}}", js(a), js(b))).collect();
    let classes: Vec<String> = st.classes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let misses: Vec<String> = out
        .iter()
        .map(|m| {
            format!(
                "{{\"props\":[{}],\"def\":{},\"src\":{},\"list\":{},\"why\":{}}}",
                m.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
                js(&m.def),
                js(&m.src),
                js(&m.list),
                js(&m.why)
            )
        })
        .collect();
    println!(
        "{{\"definitions\":{},\"evaluations\":{},\"distinct\":{},\"classes\":{{{}}},\"samples\":[{}],\"mismatches\":[{}]}}",
        defs.len(),
        st.evals,
        st.distinct,
        classes.join(","),
        samples.join(","),
        misses.join(",\n")
    );
}
