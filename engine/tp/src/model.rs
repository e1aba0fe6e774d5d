//! Black-box oracle for derived Parse / ToTokens, written from /verif/properties.jsonl only.
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::cell::RefCell;
use syn::ext::IdentExt;
use syn::parse::{ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::{Ident, LitInt, LitStr, MacroDelimiter, Token, token};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Leaf {
    Ident,
    Int,
    Str,
    Comma,
    Eq,
    Arrow,
    Fn,
    Expr,
    Type,
    OptComma,
    AnyIdent,
    Terms,
    AnyTerms,
    Paren,
    Bracket,
    Brace,
    Macro,
}
pub struct Fd {
    pub leaf: Leaf,
    /// delimiters of its `to_tokens` attributes
    pub ops: &'static str,
    pub peek: bool,
}
impl Fd {
    pub fn opens(&self) -> bool {
        self.ops.chars().any(is_open)
    }
}
pub fn is_open(c: char) -> bool {
    matches!(c, '(' | '[' | '{')
}
pub struct Def {
    pub name: &'static str,
    pub src: &'static str,
    pub is_enum: bool,
    pub variants: Vec<Vec<Fd>>,
    pub parse: fn(ParseStream) -> syn::Result<(usize, Vec<String>)>,
    pub write: fn(usize, &[&str], &mut TokenStream),
}
pub trait View {
    fn view(&self) -> String;
}
pub trait Mk {
    fn mk(l: Leaf, t: &str) -> Self;
}
macro_rules! plain { ($($t:ty),*) => { $(
    impl View for $t { fn view(&self) -> String { self.to_token_stream().to_string() } }
)* } }
plain!(Ident, LitInt, LitStr, Token![,], Token![=], Token![=>], Token![fn], syn::Expr, syn::Type, Option<Token![,]>, Punctuated<Ident, Token![,]>);
macro_rules! mk { ($($t:ty),*) => { $(
    impl Mk for $t { fn mk(_: Leaf, t: &str) -> Self { syn::parse_str(t).unwrap() } }
)* } }
mk!(LitInt, LitStr, Token![,], Token![=], Token![=>], Token![fn], syn::Expr, syn::Type, Option<Token![,]>);
impl Mk for Ident {
    fn mk(_: Leaf, t: &str) -> Self {
        Ident::parse_any.parse_str(t).unwrap()
    }
}
impl Mk for Punctuated<Ident, Token![,]> {
    fn mk(_: Leaf, t: &str) -> Self {
        (|i: ParseStream| Punctuated::parse_terminated_with(i, Ident::parse_any)).parse_str(t).unwrap()
    }
}
macro_rules! delim { ($($t:ident),*) => { $(
    impl View for token::$t { fn view(&self) -> String { stringify!($t).into() } }
    impl Mk for token::$t { fn mk(_: Leaf, _: &str) -> Self { Default::default() } }
)* } }
delim!(Paren, Bracket, Brace);
impl View for MacroDelimiter {
    fn view(&self) -> String {
        match self {
            MacroDelimiter::Paren(_) => "Paren",
            MacroDelimiter::Bracket(_) => "Bracket",
            MacroDelimiter::Brace(_) => "Brace",
        }
        .into()
    }
}
impl Mk for MacroDelimiter {
    fn mk(_: Leaf, t: &str) -> Self {
        match t {
            "Paren" => MacroDelimiter::Paren(Default::default()),
            "Bracket" => MacroDelimiter::Bracket(Default::default()),
            _ => MacroDelimiter::Brace(Default::default()),
        }
    }
}

pub fn samples(l: Leaf) -> &'static [&'static str] {
    match l {
        Leaf::Ident => &["q", "ab", "W"],
        Leaf::Int => &["1", "2"],
        Leaf::Str => &["\"s\"", "\"t\""],
        Leaf::Comma => &[","],
        Leaf::Eq => &["="],
        Leaf::Arrow => &["=>"],
        Leaf::Fn => &["fn"],
        Leaf::Expr => &["1", "a + b", "-1", "f(x)", "[1]", "(1, 2)", "a.b"],
        Leaf::Type => &["u8", "Vec<u8, A>", "(u8, u8)", "[u8]"],
        Leaf::OptComma => &["", ","],
        Leaf::AnyIdent => &["q", "fn", "struct", "self"],
        Leaf::Terms => &["", "a", "a, b", "a, b, c,"],
        Leaf::AnyTerms => &["", "a", "fn, b", "a, self, c,"],
        Leaf::Paren | Leaf::Bracket | Leaf::Brace => &[""],
        Leaf::Macro => &["Paren", "Bracket", "Brace"],
    }
}
fn go(t: &[TokenTree], f: impl Fn(ParseStream) -> syn::Result<String>) -> Option<(String, usize)> {
    let left = RefCell::new(0);
    let ts: TokenStream = t.iter().cloned().collect();
    let s = (|input: ParseStream| {
        let s = f(input)?;
        let rest: TokenStream = input.parse()?;
        *left.borrow_mut() = rest.into_iter().count();
        Ok(s)
    })
    .parse2(ts)
    .ok()?;
    let n = *left.borrow();
    Some((s, t.len() - n))
}
pub fn parse_leaf(l: Leaf, t: &[TokenTree]) -> Option<(String, usize)> {
    fn p<T: syn::parse::Parse + View>(i: ParseStream) -> syn::Result<String> {
        Ok(i.parse::<T>()?.view())
    }
    match l {
        Leaf::Ident => go(t, p::<Ident>),
        Leaf::Int => go(t, p::<LitInt>),
        Leaf::Str => go(t, p::<LitStr>),
        Leaf::Comma => go(t, p::<Token![,]>),
        Leaf::Eq => go(t, p::<Token![=]>),
        Leaf::Arrow => go(t, p::<Token![=>]>),
        Leaf::Fn => go(t, p::<Token![fn]>),
        Leaf::Expr => go(t, p::<syn::Expr>),
        Leaf::Type => go(t, p::<syn::Type>),
        Leaf::OptComma => go(t, p::<Option<Token![,]>>),
        Leaf::AnyIdent => go(t, |i| Ok(Ident::parse_any(i)?.view())),
        Leaf::Terms => go(t, |i| Ok(Punctuated::<Ident, Token![,]>::parse_terminated(i)?.view())),
        Leaf::AnyTerms => go(t, |i| Ok(Punctuated::<Ident, Token![,]>::parse_terminated_with(i, Ident::parse_any)?.view())),
        Leaf::Paren | Leaf::Bracket | Leaf::Brace | Leaf::Macro => None,
    }
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn group(t: Option<&TokenTree>, d: Delimiter) -> bool {
    matches!(t, Some(TokenTree::Group(g)) if g.delimiter() == d)
}
fn peeks(l: Leaf, t: &[TokenTree]) -> bool {
    match l {
        Leaf::Ident => t.first().is_some_and(|x| syn::parse2::<Ident>(x.clone().into()).is_ok()),
        Leaf::AnyIdent => matches!(t.first(), Some(TokenTree::Ident(_))),
        Leaf::Fn => matches!(t.first(), Some(TokenTree::Ident(i)) if i == "fn"),
        Leaf::Comma => punct(t.first(), ','),
        Leaf::Eq => punct(t.first(), '='),
        Leaf::Arrow => matches!(t.first(), Some(TokenTree::Punct(p)) if p.as_char() == '=' && p.spacing() == Spacing::Joint) && punct(t.get(1), '>'),
        Leaf::Int => t.first().is_some_and(|x| syn::parse2::<LitInt>(x.clone().into()).is_ok()) || (punct(t.first(), '-') && t.get(1).is_some_and(|x| syn::parse2::<LitInt>(x.clone().into()).is_ok())),
        Leaf::Str => t.first().is_some_and(|x| syn::parse2::<LitStr>(x.clone().into()).is_ok()),
        Leaf::Paren => group(t.first(), Delimiter::Parenthesis),
        Leaf::Bracket => group(t.first(), Delimiter::Bracket),
        Leaf::Brace => group(t.first(), Delimiter::Brace),
        _ => unreachable!(),
    }
}
fn delim_of(c: char) -> Delimiter {
    match c {
        '(' => Delimiter::Parenthesis,
        '[' => Delimiter::Bracket,
        _ => Delimiter::Brace,
    }
}
pub fn dname(d: Delimiter) -> &'static str {
    match d {
        Delimiter::Parenthesis => "Paren",
        Delimiter::Bracket => "Bracket",
        Delimiter::Brace => "Brace",
        Delimiter::None => "None",
    }
}
/// fields in order at their nesting levels; (values, tokens taken, leftover inside a group)
fn parse_fields(fs: &[Fd], toks: &[TokenTree]) -> Option<(Vec<String>, usize, bool)> {
    let mut stack: Vec<(Vec<TokenTree>, usize)> = vec![(toks.to_vec(), 0)];
    let mut out = vec![];
    let mut leftover = false;
    for f in fs {
        let mut opened = None;
        for c in f.ops.chars() {
            if !is_open(c) {
                let (t, p) = stack.pop().unwrap();
                leftover |= p < t.len();
                continue;
            }
            let (t, p) = stack.last_mut().unwrap();
            let Some(TokenTree::Group(g)) = t.get(*p) else { return None };
            let d = g.delimiter();
            if d == Delimiter::None || (f.leaf != Leaf::Macro && d != delim_of(c)) {
                return None;
            }
            *p += 1;
            opened = Some(dname(d).to_string());
            let inner = g.stream().into_iter().collect();
            stack.push((inner, 0));
        }
        let (t, p) = stack.last_mut().unwrap();
        if let Some(d) = opened {
            out.push(d);
        } else {
            let (s, n) = parse_leaf(f.leaf, &t[*p..])?;
            *p += n;
            out.push(s);
        }
    }
    while stack.len() > 1 {
        let (t, p) = stack.pop().unwrap();
        leftover |= p < t.len();
    }
    Some((out, stack[0].1, leftover))
}
#[derive(Debug, PartialEq)]
pub enum Out {
    Ok(usize, Vec<String>, String),
    Err,
}
/// what parsing `toks` as the type and then everything else as tokens gives
pub fn oracle(d: &Def, toks: &[TokenTree]) -> Out {
    let done = |k: usize, r: Option<(Vec<String>, usize, bool)>| match r {
        Some((v, n, false)) => Out::Ok(k, v, toks[n..].iter().cloned().collect::<TokenStream>().to_string()),
        _ => Out::Err,
    };
    if !d.is_enum {
        return done(0, parse_fields(&d.variants[0], toks));
    }
    for (k, v) in d.variants.iter().enumerate() {
        let ps: Vec<&Fd> = v.iter().filter(|f| f.peek).collect();
        if !ps.is_empty() {
            if ps.iter().enumerate().all(|(i, f)| i <= toks.len() && peeks(f.leaf, &toks[i..])) {
                return done(k, parse_fields(v, toks));
            }
        } else if let Some(r) = parse_fields(v, toks) {
            return done(k, Some(r));
        }
    }
    Out::Err
}
/// tokens written for the variant with these field texts
pub fn expected_tokens(fs: &[Fd], t: &[&str]) -> TokenStream {
    let mut stack: Vec<(Option<Delimiter>, TokenStream)> = vec![(None, TokenStream::new())];
    fn close(stack: &mut Vec<(Option<Delimiter>, TokenStream)>) {
        let (d, ts) = stack.pop().unwrap();
        stack.last_mut().unwrap().1.extend([TokenTree::Group(Group::new(d.unwrap(), ts))]);
    }
    for (f, t) in fs.iter().zip(t) {
        for c in f.ops.chars() {
            if !is_open(c) {
                close(&mut stack);
                continue;
            }
            let d = if f.leaf == Leaf::Macro {
                match *t {
                    "Paren" => Delimiter::Parenthesis,
                    "Bracket" => Delimiter::Bracket,
                    _ => Delimiter::Brace,
                }
            } else {
                delim_of(c)
            };
            stack.push((Some(d), TokenStream::new()));
        }
        if !f.opens() {
            stack.last_mut().unwrap().1.extend(t.parse::<TokenStream>().unwrap());
        }
    }
    while stack.len() > 1 {
        close(&mut stack);
    }
    stack.pop().unwrap().1
}
