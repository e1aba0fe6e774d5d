//! Black-box oracle for `#[derive(StructMeta)]`, written from /verif/properties.jsonl only.
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use std::collections::BTreeMap;
use std::collections::HashMap;
use structmeta::{Flag, NameArgs, NameValue};
use syn::parse::{Parse, ParseStream, Parser};

pub type Pos = (usize, usize);
pub fn pos(s: Span) -> Pos {
    let l = s.start();
    (l.line, l.column)
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    None,
    Some(Box<V>),
    Bool(bool),
    Flag(Option<Pos>),
    Leaf(String),
    Vec(Vec<V>),
    Named(Pos, Box<V>),
    Map(BTreeMap<String, V>),
}
impl V {
    pub fn no_span(&self) -> V {
        match self {
            V::Some(v) => V::Some(Box::new(v.no_span())),
            V::Flag(p) => V::Flag(p.map(|_| (0, 0))),
            V::Named(_, v) => V::Named((0, 0), Box::new(v.no_span())),
            V::Vec(v) => V::Vec(v.iter().map(|x| x.no_span()).collect()),
            V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), v.no_span())).collect()),
            v => v.clone(),
        }
    }
}
pub trait View {
    fn view(&self) -> V;
}
impl View for bool {
    fn view(&self) -> V {
        V::Bool(*self)
    }
}
impl View for Flag {
    fn view(&self) -> V {
        V::Flag(self.span.map(pos))
    }
}
impl<T: View> View for Option<T> {
    fn view(&self) -> V {
        match self {
            None => V::None,
            Some(x) => V::Some(Box::new(x.view())),
        }
    }
}
impl<T: View> View for Vec<T> {
    fn view(&self) -> V {
        V::Vec(self.iter().map(|x| x.view()).collect())
    }
}
impl<T: View> View for NameValue<T> {
    fn view(&self) -> V {
        V::Named(pos(self.name_span), Box::new(self.value.view()))
    }
}
impl<T: View> View for NameArgs<T> {
    fn view(&self) -> V {
        V::Named(pos(self.name_span), Box::new(self.args.view()))
    }
}
impl<T: View> View for HashMap<String, T> {
    fn view(&self) -> V {
        V::Map(self.iter().map(|(k, v)| (k.clone(), v.view())).collect())
    }
}
/// All leaf types are wrapped so that every plain value goes through one impl.
macro_rules! leaf {
    ($($n:ident => $t:ty),* $(,)?) => { $(
        impl View for $t { fn view(&self) -> V { V::Leaf(quote::ToTokens::to_token_stream(self).to_string()) } }
    )*
    #[derive(Clone, Copy, Debug, PartialEq)]
    #[allow(dead_code)]
    pub enum Leaf { $($n,)* OtherVec, OtherOption, OtherNv, OtherFlag, Empty }
    pub fn parse_leaf(l: Leaf, t: &[TokenTree]) -> Option<(V, usize)> {
        fn go<T: Parse + View>(t: &[TokenTree]) -> Option<(V, usize)> {
            let n = t.len();
            let ts: TokenStream = t.iter().cloned().collect();
            let mut left = 0;
            let v = (|input: ParseStream| {
                let v: T = input.parse()?;
                let rest: TokenStream = input.parse()?;
                left = rest.into_iter().count();
                Ok(v.view())
            }).parse2(ts).ok()?;
            Some((v, n - left))
        }
        match l { $(Leaf::$n => go::<$t>(t),)*
            Leaf::OtherVec => go::<other::Vec<syn::LitInt>>(t),
            Leaf::OtherOption => go::<other::Option<syn::LitInt>>(t),
            Leaf::OtherNv => go::<other::NameValue<syn::LitInt>>(t),
            Leaf::OtherFlag => go::<other::Flag>(t),
            Leaf::Empty => go::<Empty>(t),
        }
    }
    };
}
leaf!(Int => syn::LitInt, Str => syn::LitStr, Ident => syn::Ident, Expr => syn::Expr, Type => syn::Type);

/// Types with the names of documented ones under an unrelated path: plain values.
pub mod other {
    use super::{V, View};
    use syn::parse::{Parse, ParseStream};
    macro_rules! def { ($n:ident) => {
        pub struct $n<T>(pub T);
        impl<T: Parse> Parse for $n<T> { fn parse(i: ParseStream) -> syn::Result<Self> { let c; syn::bracketed!(c in i); Ok(Self(c.parse()?)) } }
        impl<T: View> View for $n<T> { fn view(&self) -> V { V::Some(std::boxed::Box::new(V::Some(std::boxed::Box::new(self.0.view())))) } }
    } }
    def!(Vec);
    def!(Option);
    def!(NameValue);
    pub struct Flag;
    impl Parse for Flag {
        fn parse(i: ParseStream) -> syn::Result<Self> {
            let c;
            syn::bracketed!(c in i);
            c.parse::<syn::Ident>()?;
            Ok(Self)
        }
    }
    impl View for Flag {
        fn view(&self) -> V {
            V::Leaf("other flag".to_string())
        }
    }
}
/// A parser that takes nothing.
pub struct Empty;
impl Parse for Empty {
    fn parse(_: ParseStream) -> syn::Result<Self> {
        Ok(Empty)
    }
}
impl View for Empty {
    fn view(&self) -> V {
        V::Leaf("".into())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bool,
    Flag,
    Val,
    Vec,
    Nv,
    Nvo,
    Na,
    Nao,
    Nav,
    Naov,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Style {
    Flag,
    NameValue,
    NameArgs,
}
impl Kind {
    fn takes(self, s: Style) -> bool {
        use Kind::*;
        match s {
            Style::Flag => matches!(self, Bool | Flag | Nvo | Nao | Naov),
            Style::NameValue => matches!(self, Val | Nv | Nvo),
            Style::NameArgs => matches!(self, Vec | Na | Nao | Nav | Naov),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Named(&'static str),
    Unnamed,
    Rest,
}
#[derive(Clone, Debug)]
pub struct FieldDef {
    pub place: Place,
    pub kind: Kind,
    pub opt: bool,
    pub leaf: Leaf,
}
pub struct Def {
    pub name: &'static str,
    pub src: &'static str,
    pub fields: Vec<FieldDef>,
    pub snake: bool,
    pub parse: fn(TokenStream) -> syn::Result<Vec<V>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    MissingNamed(Vec<String>),
    TooFewUnnamed,
    TooManyUnnamed,
    UnnamedAfterNamed,
    Dup(Pos, bool),
    Unknown { name: String, at: Pos, suggest: Option<String> },
    WrongStyle { at: Pos, accepted: Vec<String>, found: Option<String> },
    Separator,
    Leftover,
    Leaf(bool),
}

fn is_comma(t: Option<&TokenTree>) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == ',')
}
fn written(t: &[TokenTree]) -> Option<Style> {
    match t.first() {
        None => Some(Style::Flag),
        Some(TokenTree::Punct(p)) if p.as_char() == ',' => Some(Style::Flag),
        Some(TokenTree::Punct(p)) if p.as_char() == '=' => {
            if p.spacing() == Spacing::Joint {
                if let Some(TokenTree::Punct(q)) = t.get(1) {
                    if q.as_char() == '=' || q.as_char() == '>' {
                        return None;
                    }
                }
            }
            Some(Style::NameValue)
        }
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => Some(Style::NameArgs),
        _ => None,
    }
}

/// 0 equal, 1 one edit, 2 adjacent swap
pub fn closeness(a: &str, b: &str) -> Option<u32> {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    if a == b {
        return Some(0);
    }
    if a.len() == b.len() {
        let d: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
        if d.len() == 1 {
            return Some(1);
        }
        if d.len() == 2 && d[1] == d[0] + 1 && a[d[0]] == b[d[1]] && a[d[1]] == b[d[0]] {
            return Some(2);
        }
        return None;
    }
    let (s, l) = if a.len() < b.len() { (&a, &b) } else { (&b, &a) };
    if s.len() + 1 == l.len() {
        for i in 0..l.len() {
            let mut x = l.clone();
            x.remove(i);
            if &x == s {
                return Some(1);
            }
        }
    }
    None
}
fn suggestion(names: &[&str], n: &str) -> Option<String> {
    let mut names: Vec<&str> = names.to_vec();
    names.sort();
    names.dedup();
    let mut best: Vec<(u32, &str)> = names.iter().filter_map(|x| closeness(x, n).map(|d| (d, *x))).collect();
    best.sort();
    match best.len() {
        0 => None,
        1 => Some(best[0].1.to_string()),
        _ => {
            if best[0].0 < best[1].0 {
                Some(best[0].1.to_string())
            } else {
                None
            }
        }
    }
}

/// Result of one argument list according to the properties.  `info` collects what kinds of
/// arguments were seen.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub named: bool,
    pub unnamed: bool,
    pub comma: bool,
}
pub fn oracle(d: &Def, toks: &[TokenTree], info: &mut Info) -> Result<Vec<V>, Why> {
    let n = toks.len();
    let mut vals: Vec<Option<V>> = vec![None; d.fields.len()];
    let unnamed: Vec<usize> = (0..d.fields.len()).filter(|&i| d.fields[i].place == Place::Unnamed).collect();
    let req: Vec<usize> = unnamed.iter().copied().filter(|&i| !d.fields[i].opt && d.fields[i].kind != Kind::Vec).collect();
    let opt: Vec<usize> = unnamed.iter().copied().filter(|&i| d.fields[i].opt).collect();
    let var = unnamed.iter().copied().find(|&i| d.fields[i].kind == Kind::Vec && !d.fields[i].opt);
    let rest = (0..d.fields.len()).find(|&i| d.fields[i].place == Place::Rest);
    let mut map: BTreeMap<String, V> = BTreeMap::new();
    let mut variadic: Vec<V> = vec![];
    let no_unnamed = opt.is_empty() && var.is_none();
    let declares = |s: Style| d.fields.iter().any(|f| f.place != Place::Unnamed && f.kind.takes(s));
    let mut p = 0;
    for (k, &i) in req.iter().enumerate() {
        if k > 0 {
            if p >= n {
                return Err(Why::TooFewUnnamed);
            }
            if !is_comma(toks.get(p)) {
                return Err(Why::Separator);
            }
            info.comma = true;
            p += 1;
        }
        match parse_leaf(d.fields[i].leaf, &toks[p..]) {
            Some((v, c)) => {
                vals[i] = Some(v);
                info.unnamed = true;
                p += c;
            }
            None => return Err(if p >= n { Why::TooFewUnnamed } else { Why::Leaf(false) }),
        }
    }
    let mut need_sep = !req.is_empty();
    let mut un = 0;
    let mut named_seen = false;
    let mut leftover = false;
    while p < n {
        if need_sep {
            if !is_comma(toks.get(p)) {
                return Err(Why::Separator);
            }
            info.comma = true;
            p += 1;
            if p >= n {
                break;
            }
        }
        need_sep = true;
        let t = &toks[p..];
        let mut name = None;
        if let TokenTree::Ident(id) = &t[0] {
            let s = id.to_string();
            if !d.snake || s.chars().all(|c| matches!(c, 'a'..='z' | '0'..='9' | '_')) {
                let w = written(&t[1..]);
                if no_unnamed || w.map(|w| declares(w)).unwrap_or(false) {
                    name = Some((s, pos(id.span()), w));
                }
            }
        }
        if let Some((s, at, w)) = name {
            named_seen = true;
            info.named = true;
            let own = (0..d.fields.len()).find(|&i| matches!(d.fields[i].place, Place::Named(x) if x == s));
            let accepted: Vec<Style> = [Style::Flag, Style::NameValue, Style::NameArgs]
                .into_iter()
                .filter(|&st| {
                    own.map(|i| d.fields[i].kind.takes(st)).unwrap_or(false)
                        || rest.map(|i| d.fields[i].kind.takes(st)).unwrap_or(false)
                })
                .collect();
            let target = w.and_then(|w| {
                if let Some(i) = own {
                    if d.fields[i].kind.takes(w) {
                        return Some((i, false));
                    }
                }
                if let Some(i) = rest {
                    if d.fields[i].kind.takes(w) {
                        return Some((i, true));
                    }
                }
                None
            });
            let Some((i, is_rest)) = target else {
                if accepted.is_empty() {
                    let all: Vec<&str> = d
                        .fields
                        .iter()
                        .filter_map(|f| match f.place {
                            Place::Named(n) => Some(n),
                            _ => None,
                        })
                        .collect();
                    let suggest = suggestion(&all, &s);
                    return Err(Why::Unknown { name: s, at, suggest });
                }
                let form = |st: Style| match st {
                    Style::Flag => format!("flag `{s}`"),
                    Style::NameValue => format!("`{s} = ...`"),
                    Style::NameArgs => format!("`{s}(...)`"),
                };
                return Err(Why::WrongStyle {
                    at,
                    accepted: accepted.into_iter().map(form).collect(),
                    found: w.map(|w| match w {
                        Style::Flag => format!("`{s}`"),
                        Style::NameValue => format!("`{s} = ...`"),
                        Style::NameArgs => format!("`{s}`(...)"),
                    }),
                });
            };
            let w = w.unwrap();
            let f = &d.fields[i];
            let dup = if is_rest { map.contains_key(&s) } else { vals[i].is_some() };
            p += 1;
            let value: Result<V, Why> = match w {
                Style::Flag => Ok(match f.kind {
                    Kind::Bool => V::Bool(true),
                    Kind::Flag => V::Flag(Some(at)),
                    _ => V::Named(at, Box::new(V::None)),
                }),
                Style::NameValue => {
                    p += 1;
                    match parse_leaf(f.leaf, &toks[p..]) {
                        None => Err(Why::Leaf(true)),
                        Some((v, c)) => {
                            p += c;
                            Ok(match f.kind {
                                Kind::Val => v,
                                Kind::Nv => V::Named(at, Box::new(v)),
                                _ => V::Named(at, Box::new(V::Some(Box::new(v)))),
                            })
                        }
                    }
                }
                Style::NameArgs => {
                    let TokenTree::Group(g) = &toks[p] else { unreachable!() };
                    p += 1;
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let is_vec = matches!(f.kind, Kind::Vec | Kind::Nav | Kind::Naov);
                    let r = if is_vec {
                        let mut v = vec![];
                        let mut q = 0;
                        let mut bad = false;
                        while q < inner.len() {
                            match parse_leaf(f.leaf, &inner[q..]) {
                                None => {
                                    bad = true;
                                    break;
                                }
                                Some((x, c)) => {
                                    v.push(x);
                                    q += c;
                                }
                            }
                            if q >= inner.len() {
                                break;
                            }
                            if !is_comma(inner.get(q)) {
                                bad = true;
                                break;
                            }
                            q += 1;
                        }
                        if bad { Err(Why::Leaf(true)) } else { Ok(V::Vec(v)) }
                    } else {
                        match parse_leaf(f.leaf, &inner) {
                            None => Err(Why::Leaf(true)),
                            Some((v, c)) => {
                                if c < inner.len() {
                                    leftover = true;
                                }
                                Ok(v)
                            }
                        }
                    };
                    r.map(|v| match f.kind {
                        Kind::Vec => v,
                        Kind::Na | Kind::Nav => V::Named(at, Box::new(v)),
                        _ => V::Named(at, Box::new(V::Some(Box::new(v)))),
                    })
                }
            };
            if dup {
                return Err(Why::Dup(at, value.is_ok()));
            }
            let value = value?;
            if is_rest {
                map.insert(s, value);
            } else {
                vals[i] = Some(if f.opt { V::Some(Box::new(value)) } else { value });
            }
        } else {
            if no_unnamed {
                return Err(Why::TooManyUnnamed);
            }
            if named_seen {
                return Err(Why::UnnamedAfterNamed);
            }
            let (i, is_var) = if un < opt.len() {
                (opt[un], false)
            } else if let Some(v) = var {
                (v, true)
            } else {
                return Err(Why::TooManyUnnamed);
            };
            match parse_leaf(d.fields[i].leaf, t) {
                None => return Err(Why::Leaf(false)),
                Some((v, c)) => {
                    info.unnamed = true;
                    p += c;
                    un += 1;
                    if is_var {
                        variadic.push(v);
                    } else {
                        vals[i] = Some(V::Some(Box::new(v)));
                    }
                }
            }
        }
    }
    // absent parameters
    let mut missing = vec![];
    let mut out = vec![];
    for (i, f) in d.fields.iter().enumerate() {
        let v = match (&f.place, vals[i].take()) {
            (_, Some(v)) => v,
            (Place::Rest, None) => V::Map(map.clone()),
            (Place::Unnamed, None) if Some(i) == var => V::Vec(variadic.clone()),
            (_, None) if f.opt => V::None,
            (Place::Named(n), None) => match f.kind {
                Kind::Bool => V::Bool(false),
                Kind::Flag => V::Flag(None),
                Kind::Val | Kind::Nv | Kind::Nvo => {
                    missing.push(format!("`{n} = ...`"));
                    V::None
                }
                _ => {
                    missing.push(format!("`{n}(...)`"));
                    V::None
                }
            },
            (Place::Unnamed, None) => return Err(Why::TooFewUnnamed),
        };
        out.push(v);
    }
    if !missing.is_empty() {
        return Err(Why::MissingNamed(missing));
    }
    if leftover {
        return Err(Why::Leftover);
    }
    Ok(out)
}
