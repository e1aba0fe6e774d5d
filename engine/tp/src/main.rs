//! Bounded search for derived Parse / ToTokens against the oracle of model.rs.
mod defs;
mod model;
use model::*;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use syn::parse::{ParseStream, Parser};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}
#[derive(Clone)]
struct Miss {
    props: Vec<&'static str>,
    def: String,
    src: String,
    input: String,
    why: String,
}
#[derive(Default)]
struct Stats {
    evals: usize,
    classes: BTreeMap<&'static str, usize>,
    samples: Vec<(String, String)>,
}
fn extra(d: &Def, props: &mut BTreeSet<&'static str>) {
    if d.variants.iter().flatten().any(|f| f.leaf == Leaf::Macro) {
        props.insert("C15");
    }
    if d.src.contains("T0") {
        props.insert("C17");
    }
}
fn judge_parse(d: &Def, ts: TokenStream, st: &mut Stats) -> Option<Miss> {
    let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
    let text = ts.to_string();
    let want = oracle(d, &toks);
    st.evals += 1;
    *st.classes.entry(if want == Out::Err { "rejected" } else { "accepted" }).or_default() += 1;
    let got = catch_unwind(AssertUnwindSafe(|| {
        let r = (|i: ParseStream| {
            let (k, v) = (d.parse)(i)?;
            let rest: TokenStream = i.parse()?;
            Ok((k, v, rest.to_string()))
        })
        .parse2(ts);
        match r {
            Ok((k, v, rest)) => Out::Ok(k, v, rest),
            Err(_) => Out::Err,
        }
    }));
    let mut props = BTreeSet::new();
    let why = match got {
        Ok(g) => {
            if g == want {
                return None;
            }
            props.insert(if d.is_enum { "C12" } else { "C11" });
            match (&want, &g) {
                (Out::Ok(a, ..), Out::Ok(b, ..)) if a == b => {
                    props.insert("C11");
                }
                (Out::Ok(k, ..), Out::Err) | (Out::Err, Out::Ok(k, ..)) => {
                    if d.variants[*k].iter().any(|f| f.opens()) || d.variants.len() == 1 {
                        props.insert("C11");
                    }
                }
                _ => {}
            }
            format!("parsing: expected {want:?}, got {g:?}")
        }
        Err(_) => {
            props.extend(["C11", "C12"]);
            "parsing panicked".to_string()
        }
    };
    extra(d, &mut props);
    Some(Miss { props: props.into_iter().collect(), def: d.name.into(), src: d.src.into(), input: format!("parse {text}"), why })
}
fn judge_write(d: &Def, k: usize, t: &[&str], st: &mut Stats) -> Option<Miss> {
    st.evals += 1;
    *st.classes.entry("written").or_default() += 1;
    let want = format!("pre (x y) {}", expected_tokens(&d.variants[k], t)).parse::<TokenStream>().unwrap().to_string();
    let mut out: TokenStream = "pre (x y)".parse().unwrap();
    let got = catch_unwind(AssertUnwindSafe(|| {
        (d.write)(k, t, &mut out);
        out.to_string().parse::<TokenStream>().unwrap().to_string()
    }))
    .unwrap_or("panic".into());
    if got == want {
        return None;
    }
    let mut props: BTreeSet<&'static str> = BTreeSet::from(["C10"]);
    extra(d, &mut props);
    Some(Miss { props: props.into_iter().collect(), def: d.name.into(), src: d.src.into(), input: format!("write {k} {}", t.join(" | ")), why: format!("writing: expected `{want}`, got `{got}`") })
}
fn mutate(ts: TokenStream, r: &mut Rng, pool: &[TokenTree]) -> TokenStream {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    let n = v.len();
    let groups: Vec<usize> = (0..n).filter(|&i| matches!(v[i], TokenTree::Group(_))).collect();
    if !groups.is_empty() && r.below(3) > 0 {
        let i = *r.pick(&groups);
        let TokenTree::Group(g) = v[i].clone() else { unreachable!() };
        v[i] = if r.below(5) == 0 {
            let d = *r.pick(&[Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace]);
            Group::new(d, g.stream()).into()
        } else {
            Group::new(g.delimiter(), mutate(g.stream(), r, pool)).into()
        };
        return v.into_iter().collect();
    }
    match r.below(5) {
        0 if n > 0 => {
            v.remove(r.below(n));
        }
        1 if n > 0 => {
            let x = v[r.below(n)].clone();
            v.insert(r.below(n + 1), x);
        }
        2 if n > 1 => v.swap(r.below(n), r.below(n)),
        3 if n > 0 => {
            let i = r.below(n);
            v[i] = r.pick(pool).clone();
        }
        _ => v.insert(r.below(n + 1), r.pick(pool).clone()),
    }
    v.into_iter().collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn run_def(d: &Def, seed: u64, n: usize, st: &mut Stats, out: &mut Vec<Miss>) {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in d.src.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h | 1);
    let pool: Vec<TokenTree> = "q fn self 1 \"s\" , = - => ( ) [ ] { } ( q ) [ 1 , 2 ] { fn } ;".parse::<TokenStream>().unwrap().into_iter().collect();
    let mut miss: Vec<Miss> = vec![];
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut push = |m: Option<Miss>, miss: &mut Vec<Miss>| {
        if let Some(m) = m {
            let c = seen.entry(format!("{:?}{}", m.props, &m.input[..5])).or_default();
            *c += 1;
            if *c <= 2 {
                miss.push(m);
            }
        }
    };
    push(judge_parse(d, TokenStream::new(), st), &mut miss);
    for t in &pool {
        push(judge_parse(d, t.clone().into(), st), &mut miss);
        for u in &pool {
            push(judge_parse(d, [t.clone(), u.clone()].into_iter().collect(), st), &mut miss);
        }
    }
    for k in 0..d.variants.len() {
        let fs = &d.variants[k];
        for i in 0..n / d.variants.len() {
            let t: Vec<&str> = fs.iter().map(|f| *r.pick(samples(f.leaf))).collect();
            if i < 40 {
                push(judge_write(d, k, &t, st), &mut miss);
            }
            let ts = expected_tokens(fs, &t);
            let mut ts: TokenStream = if i % 2 == 0 { ts } else { ts.to_string().parse().unwrap() };
            if i == 1 {
                st.samples.push((d.src.into(), ts.to_string()));
            }
            if i < 10 {
                push(judge_parse(d, ts.clone(), st), &mut miss);
                let mut a = ts.clone();
                a.extend([r.pick(&pool).clone()]);
                push(judge_parse(d, a, st), &mut miss);
                // every prefix
                let v: Vec<TokenTree> = ts.clone().into_iter().collect();
                for p in 0..v.len() {
                    push(judge_parse(d, v[..p].iter().cloned().collect(), st), &mut miss);
                }
            }
            for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                ts = mutate(ts, &mut r, &pool);
            }
            push(judge_parse(d, ts, st), &mut miss);
        }
    }
    out.extend(miss);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let defs = defs::all();
    if a[1] == "one" {
        let d = defs.iter().find(|d| d.name == a[2]).expect("no such definition");
        let mut st = Stats::default();
        let m = if let Some(s) = a[3].strip_prefix("parse ").or(a[3].strip_prefix("parse")) {
            judge_parse(d, s.parse().unwrap(), &mut st)
        } else {
            let s = a[3].strip_prefix("write ").unwrap();
            let (k, t) = s.split_once(' ').unwrap();
            let t: Vec<&str> = if d.variants[k.parse::<usize>().unwrap()].is_empty() { vec![] } else { t.split(" | ").collect() };
            judge_write(d, k.parse().unwrap(), &t, &mut st)
        };
        match m {
            Some(m) => {
                println!("MISMATCH props={} {}", m.props.join(","), m.why);
                std::process::exit(1);
            }
            None => println!("as specified"),
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let n: usize = a[3].parse().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new((Stats::default(), Vec::<Miss>::new()));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut st = Stats::default();
                    let mut out = vec![];
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= defs.len() {
                            break;
                        }
                        run_def(&defs[i], seed, n, &mut st, &mut out);
                        proc_macro2::extra::invalidate_current_thread_spans();
                    }
                    let mut t = total.lock().unwrap();
                    t.0.evals += st.evals;
                    t.0.samples.extend(st.samples);
                    for (k, v) in st.classes {
                        *t.0.classes.entry(k).or_default() += v;
                    }
                    t.1.extend(out);
                })
                .unwrap();
        }
    });
    let (mut st, mut out) = total.into_inner().unwrap();
    out.sort_by(|a, b| (a.input.len(), &a.def, &a.input).cmp(&(b.input.len(), &b.def, &b.input)));
    st.samples.sort();
    let k = (st.samples.len() / 5).max(1);
    let samples: Vec<String> = st.samples.iter().step_by(k).map(|(a, b)| format!("{{\"definition\":{},\"input\":{}}}", js(a), js(b))).collect();
    let classes: Vec<String> = st.classes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let misses: Vec<String> = out
        .iter()
        .map(|m| format!("{{\"props\":[{}],\"def\":{},\"src\":{},\"list\":{},\"why\":{}}}", m.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","), js(&m.def), js(&m.src), js(&m.input), js(&m.why)))
        .collect();
    println!(
        "{{\"definitions\":{},\"evaluations\":{},\"distinct\":{},\"classes\":{{{}}},\"samples\":[{}],\"mismatches\":[{}]}}",
        defs.len(),
        st.evals,
        st.evals,
        classes.join(","),
        samples.join(","),
        misses.join(",\n")
    );
}
