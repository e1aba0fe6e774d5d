//! The rewrites from the repository's Rust to the subset Verus accepts (see DESIGN.md,
//! "What the extraction changes"), and the splicing of contracts.
use crate::contract::FnContract;
use crate::index::Func;
use crate::print::print;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{ToTokens, format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct RR {
    pub text: String,
    pub problems: Vec<String>,
    pub src_line: usize,
    pub locals: Vec<String>,
}

fn ts(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| panic!("contract text does not lex: {e}: {s}"))
}

/// Replaces identifiers in contract text (canonical local names -> names in the source).
fn subst(t: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut prev_dot = false;
    let toks: Vec<_> = t.into_iter().collect();
    for (k, t) in toks.iter().enumerate() {
        let next_colon = matches!(toks.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':')
            && !matches!(toks.get(k + 2), Some(TokenTree::Punct(p)) if p.as_char() == ':');
        let _ = next_colon;
        let mut dot = false;
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if let (false, Some(n)) = (prev_dot, m.get(&s)) {
                    out.extend([TokenTree::Ident(Ident::new(n, Span::call_site()))]);
                } else {
                    out.extend([t.clone()]);
                }
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            TokenTree::Punct(p) => {
                dot = p.as_char() == '.';
                out.extend([t.clone()]);
            }
            t => out.extend([t.clone()]),
        }
        prev_dot = dot;
    }
    out
}

struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn is_buf_type(t: &Type) -> bool {
    let s = quote!(#t).to_string().replace(' ', "");
    s.contains("ParseStream") || s.contains("ParseBuffer")
}

/// Collects names of locals that are parse buffers.
struct Bufs(BTreeSet<String>, BTreeSet<String>);
impl<'a> Visit<'a> for Bufs {
    fn visit_local(&mut self, l: &'a Local) {
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if let Expr::MethodCall(m) = &*init.expr {
                if m.method == "fork" {
                    self.0.insert(p.ident.to_string());
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if ["parenthesized", "bracketed", "braced", "helpers_parse_macro_delimiter"].contains(&n.as_str()) {
            if let Some(TokenTree::Ident(i)) = m.tokens.clone().into_iter().next() {
                self.0.insert(i.to_string());
            }
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        for p in &c.inputs {
            if let Pat::Type(t) = p {
                if is_buf_type(&t.ty) {
                    if let Pat::Ident(i) = &*t.pat {
                        self.1.insert(i.ident.to_string());
                    }
                }
            }
        }
        syn::visit::visit_expr_closure(self, c);
    }
}

/// quote! templates in the functions under contract: normal form, number of interpolated variables, seen in the source
pub struct Template {
    pub text: String,
    pub args: usize,
    pub used: bool,
    /// by parse_quote!
    pub parsed: bool,
}
thread_local! {
    pub static TEMPLATES: std::cell::RefCell<Vec<Template>> = const { std::cell::RefCell::new(vec![]) };
}
/// what is quoted by quote_spanned!(span => ..)
fn behind_arrow(t: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = t.into_iter().collect();
    let i = t.windows(2).position(|w| matches!(w, [TokenTree::Punct(a), TokenTree::Punct(b)] if a.as_char() == '=' && b.as_char() == '>'));
    t.into_iter().skip(i.map(|i| i + 2).unwrap_or(0)).collect()
}
/// the template's number and its variables in order of first use; `#x` becomes `#0`, ..
pub fn template(t: TokenStream, used: bool) -> (usize, Vec<Ident>) {
    fn go(t: TokenStream, args: &mut Vec<Ident>) -> TokenStream {
        let t: Vec<TokenTree> = t.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < t.len() {
            match (&t[i], t.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(x))) if p.as_char() == '#' => {
                    let k = args.iter().position(|a| a == x).unwrap_or_else(|| {
                        args.push(x.clone());
                        args.len() - 1
                    });
                    let k = proc_macro2::Literal::usize_unsuffixed(k);
                    out.extend(quote!(# #k));
                    i += 1;
                }
                (TokenTree::Group(g), _) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), args)))]),
                (x, _) => out.extend([x.clone()]),
            }
            i += 1;
        }
        out
    }
    let mut args = vec![];
    let text = go(t, &mut args).to_string();
    let text = text.split_whitespace().collect::<Vec<_>>().join(" ");
    TEMPLATES.with_borrow_mut(|ts| {
        let k = match ts.iter().position(|x| x.text == text) {
            Some(k) => k,
            None => {
                ts.push(Template { text, args: args.len(), used: false, parsed: false });
                ts.len() - 1
            }
        };
        ts[k].used |= used;
        ts[k].args = ts[k].args.max(args.len());
        (k, args)
    })
}

/// the buffer a nested buffer was opened in
struct Opened {
    x: Ident,
    parent: Option<Ident>,
}
impl<'a> Visit<'a> for Opened {
    fn visit_macro(&mut self, m: &'a Macro) {
        let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        if let [TokenTree::Ident(a), TokenTree::Ident(i), rest @ ..] = &t[..] {
            if *a == self.x && i == "in" {
                for t in rest {
                    if let TokenTree::Ident(y) = t {
                        self.parent = Some(y.clone());
                    }
                }
            }
        }
    }
}
/// a buffer moved out by name
struct Moved {
    x: Ident,
    found: bool,
}
impl<'a> Visit<'a> for Moved {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_)) => {}
            Expr::MethodCall(m) => {
                if !matches!(&*m.receiver, Expr::Path(_)) {
                    self.visit_expr(&m.receiver);
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            Expr::Path(p) if p.path.is_ident(&self.x) => self.found = true,
            e => syn::visit::visit_expr(self, e),
        }
    }
}

struct Returns(bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

pub struct Rw<'a> {
    fc: &'a FnContract,
    m: BTreeMap<String, String>,
    bufs: BTreeSet<String>,
    /// buffers that are values (not references) somewhere, and at this point
    all_own: BTreeSet<String>,
    own_bufs: BTreeSet<String>,
    nloop: usize,
    nclosure: usize,
    by_key: bool,
    used_closures: BTreeSet<usize>,
    nsurround: usize,
    pub problems: Vec<String>,
}

pub fn tok_name(t: &str) -> Option<&'static str> {
    Some(match t {
        "," => "TkComma",
        "=" => "TkEq",
        "==" => "TkEqEq",
        "=>" => "TkFatArrow",
        ":" => "TkColon",
        ";" => "TkSemi",
        "::" => "TkPathSep",
        "." => "TkDot",
        "!" => "TkNot",
        "?" => "TkQuestion",
        "#" => "TkPound",
        "-" => "TkMinus",
        "+" => "TkPlus",
        "*" => "TkStar",
        "->" => "TkRArrow",
        "<" => "TkLt",
        ">" => "TkGt",
        "&" => "TkAnd",
        "fn" => "TkFn",
        "let" => "TkLet",
        "struct" => "TkStruct",
        "enum" => "TkEnum",
        _ => return None,
    })
}

fn lower(s: &str) -> bool {
    s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false)
}
const PRIMS: &[&str] = &["usize", "u8", "u16", "u32", "u64", "i32", "i64", "bool", "char", "str", "f64", "isize"];

pub fn strip_path(p: &mut Path) {
    if p.segments.len() > 1 {
        let n = p.segments.len();
        let mut cut = 0;
        for (i, s) in p.segments.iter().enumerate().take(n - 1) {
            let t = s.ident.to_string();
            if lower(&t) && t != "self" && !PRIMS.contains(&t.as_str()) {
                cut = i + 1;
            }
        }
        if cut > 0 {
            let segs: Vec<_> = p.segments.iter().skip(cut).cloned().collect();
            p.segments = Punctuated::from_iter(segs);
        }
    }
    p.leading_colon = None;
}

/// `<T as a::b::Trait>::x` and `<T>::x`
pub fn strip_qself(q: &mut QSelf, p: &mut Path) {
    if q.position > 0 {
        let tr = p.segments[q.position - 1].clone();
        let segs: Vec<_> = std::iter::once(tr).chain(p.segments.iter().skip(q.position).cloned()).collect();
        p.segments = Punctuated::from_iter(segs);
        p.leading_colon = None;
        q.position = 1;
    }
}

impl Rw<'_> {
    fn problem(&mut self, s: impl Into<String>) {
        self.problems.push(s.into());
    }
    fn contract(&self, s: &str) -> TokenStream {
        subst(ts(s), &self.m)
    }
    fn is_buf(&self, e: &Expr) -> Option<Ident> {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.bufs.contains(&i.to_string()) {
                    return Some(i.clone());
                }
            }
        }
        None
    }
    /// nested buffers declared in this block and dropped at its end, innermost first
    fn drops(&self, b: &Block) -> Vec<TokenStream> {
        let mut out = Vec::new();
        let mut aliased = BTreeSet::new();
        let mut declared = Vec::new();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let Pat::Ident(p) = &l.pat {
                    let n = p.ident.to_string();
                    match &l.init {
                        None if self.all_own.contains(&n) => declared.push(p.ident.clone()),
                        Some(i) => {
                            if let Expr::Reference(r) = &*i.expr {
                                if matches!(self.is_buf(&r.expr), Some(x) if x == p.ident) {
                                    aliased.insert(n);
                                }
                            }
                        }
                        _ => (),
                    }
                }
            }
        }
        for x in declared.into_iter().rev() {
            let mut f = Opened { x: x.clone(), parent: None };
            f.visit_block(b);
            let Some(y) = f.parent else { continue };
            let mut moved = Moved { x: x.clone(), found: false };
            if let (Some(Stmt::Expr(e, None)), false) = (b.stmts.last(), aliased.contains(&x.to_string())) {
                moved.visit_expr(e);
            }
            if moved.found {
                continue;
            }
            let r = |i: &Ident| {
                let n = i.to_string();
                if self.own_bufs.contains(&n) { quote!(&mut #i) } else { quote!(&mut *#i) }
            };
            let (a, c) = (r(&x), r(&y));
            out.push(quote!(vx_drop(#a, #c)));
        }
        out
    }
    /// `d.surround(tokens, |t| body)`: `body` on an empty stream, then one group around it
    fn surround(&mut self, e: &Expr) -> Option<TokenStream> {
        let (func, mut recv, mut toks, clo) = match e {
            Expr::Call(c) if c.args.len() == 3 => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n != "surround" && n != "surround_macro_delimiter" {
                    return None;
                }
                let mut p = p.clone();
                strip_path(&mut p.path);
                let l = p.path.segments.last_mut().unwrap();
                l.ident = format_ident!("vx_{}", n);
                (quote!(#p), c.args[0].clone(), c.args[1].clone(), c.args[2].clone())
            }
            Expr::MethodCall(m) if m.method == "surround" && m.args.len() == 2 => {
                (quote!(Surround::vx_surround), (*m.receiver).clone(), m.args[0].clone(), m.args[1].clone())
            }
            _ => return None,
        };
        let Expr::Closure(c) = clo else { return None };
        let (1, Some(p)) = (c.inputs.len(), c.inputs.first()) else { return None };
        let p = match p {
            Pat::Type(t) => &t.pat,
            p => p,
        };
        let mut ret = Returns(false);
        ret.visit_expr(&c.body);
        if !matches!(p, Pat::Ident(_) | Pat::Wild(_)) || ret.0 {
            return None;
        }
        if let Expr::MethodCall(m) = e {
            let r = &m.receiver;
            recv = parse_quote!(&#r);
        }
        let mut body = (*c.body).clone();
        self.visit_expr_mut(&mut recv);
        self.visit_expr_mut(&mut toks);
        self.visit_expr_mut(&mut body);
        let v = format_ident!("vx_s{}", self.nsurround);
        self.nsurround += 1;
        let bind = if let Pat::Wild(_) = p { quote!() } else { quote!(let #p = &mut #v;) };
        Some(quote!({ let mut #v = TokenStream::new(); { #bind #body; } #func(#recv, #toks, #v) }))
    }
    fn lit_or_expr(&mut self, e: &Expr) -> TokenStream {
        quote!(#e)
    }
    fn format(&mut self, tokens: TokenStream, disp: TokenStream) -> TokenStream {
        let args = match Punctuated::<Expr, Token![,]>::parse_terminated.parse2(tokens) {
            Ok(a) => a,
            Err(_) => {
                self.problem("format! with unsupported arguments");
                return quote!(vx_unsupported());
            }
        };
        let mut args: Vec<Expr> = args.into_iter().collect();
        for a in &mut args {
            self.visit_expr_mut(a);
        }
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.first() else {
            self.problem("format! without literal");
            return quote!(vx_unsupported());
        };
        let f: Vec<char> = f.value().chars().collect();
        let mut out: Option<TokenStream> = None;
        let mut cur = String::new();
        let mut pos = 1;
        let mut push = |x: TokenStream| {
            out = Some(match out.take() {
                None => x,
                Some(o) => quote!(fcat(#o, #x)),
            });
        };
        let mut i = 0;
        while i < f.len() {
            if f[i] == '{' && i + 1 < f.len() && f[i + 1] == '{' {
                cur.push('{');
                i += 2;
            } else if f[i] == '}' {
                cur.push('}');
                i += 2;
            } else if f[i] == '{' {
                if !cur.is_empty() {
                    push(quote!(lit(#cur)));
                    cur.clear();
                }
                let mut n = String::new();
                i += 1;
                while i < f.len() && f[i] != '}' {
                    n.push(f[i]);
                    i += 1;
                }
                i += 1;
                let e = if n.is_empty() {
                    pos += 1;
                    args.get(pos - 1).map(|e| quote!(#e))
                } else if let Ok(k) = n.parse::<usize>() {
                    args.get(k + 1).map(|e| quote!(#e))
                } else if n.contains(':') {
                    None
                } else {
                    Some(ts(&n))
                };
                match e {
                    Some(e) => push(quote!(#disp(&#e))),
                    None => push(quote!(vx_unsupported())),
                }
            } else {
                cur.push(f[i]);
                i += 1;
            }
        }
        if !cur.is_empty() || out.is_none() {
            let x = quote!(lit(#cur));
            out = Some(match out.take() {
                None => x,
                Some(o) => quote!(fcat(#o, #x)),
            });
        }
        out.unwrap()
    }
    fn mac(&mut self, m: &Macro) -> Option<TokenStream> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "Token" => {
                let t = m.tokens.to_string().replace(' ', "");
                match tok_name(&t) {
                    Some(x) => Some(Ident::new(x, Span::call_site()).into_token_stream()),
                    None => {
                        self.problem(format!("Token![{t}]"));
                        None
                    }
                }
            }
            "format" => Some(self.format(m.tokens.clone(), quote!(Disp::disp_string))),
            "bail" => {
                let toks = m.tokens.clone();
                let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(toks).ok()?;
                let mut a: Vec<Expr> = args.into_iter().collect();
                let mut span = a.remove(0);
                self.visit_expr_mut(&mut span);
                let msg = if a.len() == 1 {
                    let mut e = a.remove(0);
                    if let Expr::Lit(_) = e {
                        quote!(#e)
                    } else {
                        self.visit_expr_mut(&mut e);
                        quote!(#e)
                    }
                } else {
                    self.format(quote!(#(#a),*), quote!(Disp::disp_string))
                };
                Some(quote!(return Err(Error::new(#span, #msg))))
            }
            "panic" if !self.fc.panics.is_empty() => {
                let c = self.contract(&self.fc.panics);
                Some(quote!(vx_panic_when(Ghost(#c))))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(quote!(vx_panic())),
            "matches" => {
                let v = m.tokens.clone();
                let p = |i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((e, p, g))
                };
                let (mut e, mut p, g) = p.parse2(v).ok()?;
                self.visit_expr_mut(&mut e);
                self.visit_pat_mut(&mut p);
                let g = g.map(|mut g| {
                    self.visit_expr_mut(&mut g);
                    quote!(if #g)
                });
                Some(quote!((match #e { #p #g => true, _ => false })))
            }
            "parenthesized" | "bracketed" | "braced" | "helpers_parse_macro_delimiter" => {
                let p = |i: parse::ParseStream| {
                    let c: Ident = i.parse()?;
                    i.parse::<Token![in]>()?;
                    let e: Expr = i.parse()?;
                    Ok((c, e))
                };
                let (c, e) = p.parse2(m.tokens.clone()).ok()?;
                if n == "helpers_parse_macro_delimiter" {
                    return Some(quote!(match parse_macro_delimiter(#e) { Ok((token, content)) => { #c = content; token } Err(e) => return Err(e) }));
                }
                let f = match n.as_str() {
                    "parenthesized" => quote!(parse_parens),
                    "bracketed" => quote!(parse_brackets),
                    _ => quote!(parse_braces),
                };
                let e = match self.is_buf(&e) {
                    Some(i) if self.own_bufs.contains(&i.to_string()) => quote!(&mut #i),
                    _ => quote!(#e),
                };
                Some(quote!(match #f(#e) { Ok(vxp) => { #c = vxp.1; vxp.0 } Err(error) => return Err(error) }))
            }
            "quote" | "quote_spanned" => {
                let t = if n == "quote" { m.tokens.clone() } else { behind_arrow(m.tokens.clone()) };
                let (k, args) = template(t, true);
                let f = Ident::new(&format!("vx_q{k}"), Span::call_site());
                Some(quote!(#f(#(&#args),*)))
            }
            // what the macro expands to
            "parse_macro_input" => {
                let p = |i: parse::ParseStream| {
                    let e: Ident = i.parse()?;
                    let t = if i.peek(Token![as]) {
                        i.parse::<Token![as]>()?;
                        i.parse::<Type>()?
                    } else {
                        parse_quote!(DeriveInput)
                    };
                    Ok((e, t))
                };
                let (e, mut t) = p.parse2(m.tokens.clone()).ok()?;
                self.visit_type_mut(&mut t);
                Some(quote!(match vx_parse_input::<#t>(#e) { Ok(x__in) => x__in, Err(e__in) => return e__in.to_compile_error() }))
            }
            "parse_quote" => {
                let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                match &t[..] {
                    [TokenTree::Ident(i)] => {
                        let i = i.to_string();
                        Some(quote!(vx_pq_ident(#i)))
                    }
                    _ => {
                        let (k, args) = template(m.tokens.clone(), false);
                        TEMPLATES.with_borrow_mut(|ts| ts[k].parsed = true);
                        let f = Ident::new(&format!("vx_p{k}"), Span::call_site());
                        Some(quote!(#f(#(&#args),*)))
                    }
                }
            }
            "format_ident" => {
                let f = self.format(m.tokens.clone(), quote!(Frag::frag_string));
                Some(quote!(vx_ident(#f)))
            }
            "vec" => {
                let p = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone());
                match p {
                    Ok(a) => {
                        let mut v: Vec<Expr> = a.into_iter().collect();
                        for e in &mut v {
                            self.visit_expr_mut(e);
                        }
                        Some(quote!(vec![#(#v),*]))
                    }
                    Err(_) => {
                        let p = |i: parse::ParseStream| {
                            let e: Expr = i.parse()?;
                            i.parse::<Token![;]>()?;
                            Ok((e, i.parse::<Expr>()?))
                        };
                        let (mut e, mut n) = p.parse2(m.tokens.clone()).ok()?;
                        self.visit_expr_mut(&mut e);
                        self.visit_expr_mut(&mut n);
                        Some(quote!(vx_repeat(#e, #n)))
                    }
                }
            }
            _ => {
                self.problem(format!("macro {n}!"));
                None
            }
        }
    }
    /// the proof at the end of a loop body is also due where the body continues early
    fn at_continue(&self, end: &TokenStream, b: &mut Block) {
        struct V<'a>(&'a TokenStream);
        impl VisitMut for V<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Continue(c) if c.label.is_none() => {
                        let end = self.0;
                        *e = Expr::Verbatim(quote!({ #end continue; }));
                    }
                    Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        if !end.is_empty() {
            V(end).visit_block_mut(b);
        }
    }
    fn loop_parts(&mut self) -> (usize, TokenStream, TokenStream, TokenStream, TokenStream) {
        let k = self.nloop;
        self.nloop += 1;
        let inv = match self.fc.loops.get(&k) {
            Some(s) => self.contract(s),
            None => {
                self.problem(format!("loop {k} has no contract"));
                quote!()
            }
        };
        let g = |m: &BTreeMap<usize, String>| m.get(&k).map(|s| self.contract(s)).unwrap_or_default();
        (k, inv, g(&self.fc.loop_entry), g(&self.fc.loop_exit), g(&self.fc.loop_end))
    }
}

impl VisitMut for Rw<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        rewrite_type(t, &mut self.problems);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        match &mut p.qself {
            Some(q) => {
                strip_qself(q, &mut p.path);
                self.visit_type_mut(&mut q.ty);
                for s in &mut p.path.segments {
                    visit_mut::visit_path_segment_mut(self, s);
                }
            }
            None => visit_mut::visit_expr_path_mut(self, p),
        }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        match &mut p.qself {
            Some(q) => {
                strip_qself(q, &mut p.path);
                self.visit_type_mut(&mut q.ty);
                for s in &mut p.path.segments {
                    visit_mut::visit_path_segment_mut(self, s);
                }
            }
            None => visit_mut::visit_type_path_mut(self, p),
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let Pat::Ident(p) = &mut l.pat {
            let n = p.ident.to_string();
            if self.all_own.contains(&n) && p.by_ref.is_none() {
                let is_ref = matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Reference(_)));
                if !is_ref {
                    p.mutability = Some(Default::default());
                }
                visit_mut::visit_local_mut(self, l);
                if is_ref {
                    self.own_bufs.remove(&n);
                } else {
                    self.own_bufs.insert(n);
                }
                return;
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        let orig = b.clone();
        let own = self.own_bufs.clone();
        visit_mut::visit_block_mut(self, b);
        let drops = self.drops(&orig);
        self.own_bufs = own;
        if !drops.is_empty() {
            let last = match b.stmts.last() {
                Some(Stmt::Expr(_, None)) => b.stmts.pop(),
                _ => None,
            };
            let drops: Vec<Stmt> = drops.into_iter().map(|d| Stmt::Expr(Expr::Verbatim(d), Some(Default::default()))).collect();
            match last {
                Some(Stmt::Expr(e, _)) => {
                    b.stmts.push(Stmt::Expr(Expr::Verbatim(quote!(let vxt = #e)), Some(Default::default())));
                    b.stmts.extend(drops);
                    b.stmts.push(Stmt::Expr(Expr::Verbatim(quote!(vxt)), None));
                }
                _ => b.stmts.extend(drops),
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            if let Some(t) = self.mac(&mac) {
                *s = Stmt::Expr(Expr::Verbatim(t), m.semi_token);
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(t) = self.surround(e) {
            *e = Expr::Verbatim(t);
            return;
        }
        match e {
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(t) = self.mac(&mac) {
                    *e = Expr::Verbatim(t);
                }
                return;
            }
            Expr::While(w) => {
                let (_, inv, le, lx, lend) = self.loop_parts();
                if let Expr::Let(l) = &mut *w.cond {
                    self.visit_pat_mut(&mut l.pat);
                    self.visit_expr_mut(&mut l.expr);
                    self.at_continue(&lend, &mut w.body);
                    self.visit_block_mut(&mut w.body);
                    let (p, x, b) = (&l.pat, &l.expr, &w.body.stmts);
                    *e = Expr::Verbatim(quote!({ loop #inv { #le match #x { #p => { #(#b)* #lend } _ => { break; } } } #lx }));
                    return;
                }
                if inv.to_string().ends_with("ensures false") || inv.to_string().contains("ensures false decreases") {
                    self.problem("a loop that only returns has become one with a condition");
                }
                self.visit_expr_mut(&mut w.cond);
                self.at_continue(&lend, &mut w.body);
                self.visit_block_mut(&mut w.body);
                let (c, b) = (&w.cond, &w.body.stmts);
                *e = Expr::Verbatim(quote!({ while #c #inv { #le #(#b)* #lend } #lx }));
                return;
            }
            Expr::Loop(l) => {
                let (_, inv, le, lx, lend) = self.loop_parts();
                self.at_continue(&lend, &mut l.body);
                self.visit_block_mut(&mut l.body);
                let b = &l.body.stmts;
                *e = Expr::Verbatim(quote!({ loop #inv { #le #(#b)* #lend } #lx }));
                return;
            }
            Expr::ForLoop(f) => {
                let (k, inv, le, lx, lend) = self.loop_parts();
                let i = format_ident!("__i{}", k);
                let n = format_ident!("__n{}", k);
                let s = format_ident!("__s{}", k);
                let mut x = (*f.expr).clone();
                self.visit_pat_mut(&mut f.pat);
                let pat = (*f.pat).clone();
                if let Expr::Range(r) = &mut x {
                    let (Some(lo), Some(hi)) = (&mut r.start, &mut r.end) else {
                        self.problem("open range loop");
                        return;
                    };
                    self.visit_expr_mut(lo);
                    self.visit_expr_mut(hi);
                    let hi = match r.limits {
                        RangeLimits::HalfOpen(_) => quote!(#hi),
                        RangeLimits::Closed(_) => quote!(#hi + 1),
                    };
                    self.at_continue(&lend, &mut f.body);
                    self.visit_block_mut(&mut f.body);
                    let b = &f.body.stmts;
                    *e = Expr::Verbatim(quote!({ let mut #i: usize = #lo; let #n: usize = #hi;
                        while #i < #n #inv { let #pat = #i; #i = #i + 1; #le #(#b)* #lend } #lx }));
                    return;
                }
                // strip adaptors
                let mut enumerate = false;
                let mut chars = false;
                let mut owned = false;
                if let Expr::MethodCall(m) = &x {
                    if m.method == "enumerate" {
                        enumerate = true;
                        x = (*m.receiver).clone();
                    }
                }
                if let Expr::MethodCall(m) = &x {
                    if m.method == "iter" && m.args.is_empty() {
                        let r = m.receiver.clone();
                        x = parse_quote!(&#r);
                    } else if m.method == "chars" {
                        chars = true;
                        let r = m.receiver.clone();
                        x = if matches!(&*r, Expr::MethodCall(_)) { parse_quote!(vx_chars(#r.as_str())) } else { parse_quote!(vx_chars(&#r)) };
                    } else if m.method == "into_iter" {
                        owned = true;
                        let r = m.receiver.clone();
                        x = parse_quote!(IntoVec::into_vec(#r));
                    }
                }
                self.visit_expr_mut(&mut x);
                self.at_continue(&lend, &mut f.body);
                self.visit_block_mut(&mut f.body);
                let b = &f.body.stmts;
                let elem = if chars { quote!(#s[#i]) } else if owned { quote!(vx_own(&#s, #i)) } else { quote!(&#s[#i]) };
                let bind = if enumerate {
                    if let Pat::Tuple(t) = &pat {
                        let (a, c) = (&t.elems[0], &t.elems[1]);
                        quote!(let #a = #i; let #c = #elem;)
                    } else {
                        self.problem("enumerate pattern");
                        quote!()
                    }
                } else if let Pat::Reference(r) = &pat {
                    let p = &r.pat;
                    quote!(let #p = #s[#i];)
                } else {
                    quote!(let #pat = #elem;)
                };
                *e = Expr::Verbatim(quote!({ let #s = #x; let mut #i: usize = 0;
                    while #i < #s.len() #inv { #bind #i = #i + 1; #le #(#b)* #lend } #lx }));
                return;
            }
            Expr::Match(m) if m.arms.iter().any(|a| str_pats(&a.pat).is_some()) => {
                self.visit_expr_mut(&mut m.expr);
                let x = &m.expr;
                let mut out = TokenStream::new();
                let mut closed = false;
                for a in &mut m.arms {
                    self.visit_expr_mut(&mut a.body);
                    let b = &a.body;
                    match (str_pats(&a.pat), &a.pat) {
                        (Some(l), _) => out.extend(quote!(if #(vx_str_eq(vxm, #l))||* { #b } else)),
                        (None, Pat::Wild(_)) => {
                            out.extend(quote!({ #b }));
                            closed = true;
                            break;
                        }
                        (None, Pat::Ident(i)) => {
                            out.extend(quote!({ let #i = vxm; #b }));
                            closed = true;
                            break;
                        }
                        _ => self.problem("match on a string"),
                    }
                }
                if !closed {
                    out.extend(quote!({ vx_panic() }));
                }
                *e = Expr::Verbatim(quote!((match #x { vxm => { #out } })));
                return;
            }
            Expr::MethodCall(m) if matches!(m.args.last(), Some(Expr::Closure(_))) => {
                // closures of Option's adaptors are unfolded
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                let Some(Expr::Closure(c)) = args.pop() else { unreachable!() };
                let n = m.method.to_string();
                // `or_else`, `unwrap_or_else` of a Result pass the error
                let res = matches!(n.as_str(), "or_else" | "unwrap_or_else") && c.inputs.len() == 1;
                let arity = if matches!(n.as_str(), "ok_or_else" | "or_else" | "unwrap_or_else") && !res { 0 } else { 1 };
                let ok = matches!(n.as_str(), "ok_or_else" | "or_else" | "unwrap_or_else" | "is_some_and" | "is_none_or" | "map_err" | "is_ok_and") && args.is_empty() || n == "map_or" && args.len() == 1;
                if n == "map_or_else" && args.len() == 1 && c.inputs.len() == 1 && !leaves(&c.body) {
                    if let Expr::Closure(d) = args[0].clone() {
                        if d.inputs.len() < 2 && !leaves(&d.body) {
                            let (mut db, mut cb) = ((*d.body).clone(), (*c.body).clone());
                            self.visit_expr_mut(&mut m.receiver);
                            self.visit_expr_mut(&mut db);
                            self.visit_expr_mut(&mut cb);
                            let r = &m.receiver;
                            let bare = |p: &Pat| match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            let cp = bare(&c.inputs[0]);
                            *e = Expr::Verbatim(match d.inputs.first() {
                                Some(p) => {
                                    let dp = bare(p);
                                    quote!((match #r { Ok(#cp) => #cb, Err(#dp) => #db }))
                                }
                                None => quote!((match #r { Some(#cp) => #cb, None => #db })),
                            });
                            return;
                        }
                    }
                }
                if ok && c.inputs.len() == arity && (n == "ok_or_else" || !leaves(&c.body)) {
                    let mut body = (*c.body).clone();
                    self.visit_expr_mut(&mut m.receiver);
                    self.visit_expr_mut(&mut body);
                    for a in &mut args {
                        self.visit_expr_mut(a);
                    }
                    let r = &m.receiver;
                    let pat = c.inputs.first().map(|p| match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    });
                    *e = Expr::Verbatim(match n.as_str() {
                        "ok_or_else" => quote!((match #r { Some(vxv) => Ok(vxv), None => Err(#body) })),
                        "or_else" if res => quote!((match #r { Ok(vxv) => Ok(vxv), Err(#pat) => #body })),
                        "unwrap_or_else" if res => quote!((match #r { Ok(vxv) => vxv, Err(#pat) => #body })),
                        "map_err" => quote!((match #r { Ok(vxv) => Ok(vxv), Err(#pat) => Err(#body) })),
                        "is_ok_and" => quote!((match #r { Ok(#pat) => #body, Err(_) => false })),
                        "or_else" => quote!((match #r { Some(vxv) => Some(vxv), None => #body })),
                        "unwrap_or_else" => quote!((match #r { Some(vxv) => vxv, None => #body })),
                        "is_some_and" => quote!((match #r { Some(#pat) => #body, None => false })),
                        "is_none_or" => quote!((match #r { Some(#pat) => #body, None => true })),
                        _ => {
                            let d = &args[0];
                            quote!((match #r { vxr => { let vxd = #d; match vxr { Some(#pat) => #body, None => vxd } } }))
                        }
                    });
                    return;
                }
            }
            Expr::Closure(c) => {
                let mut k = self.nclosure;
                self.nclosure += 1;
                if self.by_key {
                    if let Some(j) = keys_in(&self.fc.closure_keys, &c.body).first() {
                        k = *j;
                    }
                }
                let mut c2 = c.clone();
                let own = self.own_bufs.clone();
                for p in &c.inputs {
                    let mut b = Binders(vec![]);
                    b.visit_pat(p);
                    for n in b.0 {
                        self.own_bufs.remove(&n);
                    }
                }
                self.visit_expr_closure_mut(&mut c2);
                self.own_bufs = own;
                if let Some(h) = self.fc.closures.get(&k) {
                    // parameter names of the contract header are positional
                    let mut want = Vec::new();
                    for p in &c.inputs {
                        let mut b = Binders(vec![]);
                        b.visit_pat(p);
                        want.push(b.0.into_iter().next().unwrap_or("_".into()));
                    }
                    let mut head = self.contract(h);
                    let canon = closure_params(&head);
                    if canon.len() == want.len() {
                        let m: BTreeMap<_, _> = canon.into_iter().zip(want).filter(|(_, w)| w != "_").collect();
                        head = subst(head, &m);
                    } else {
                        self.problem(format!("closure {k} arity"));
                    }
                    self.used_closures.insert(k);
                    let body = &c2.body;
                    *e = Expr::Verbatim(quote!(#head { #body }));
                } else {
                    if !self.fc.lenient {
                        self.problem(format!("closure {k} has no contract"));
                    }
                    *e = Expr::Closure(c2);
                }
                return;
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Some(i) = self.is_buf(&r.expr) {
                    *e = if self.own_bufs.contains(&i.to_string()) {
                        Expr::Verbatim(quote!(&mut #i))
                    } else {
                        Expr::Verbatim(quote!(#i))
                    };
                    return;
                }
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "advance_to" && m.args.len() == 1 {
                self.visit_expr_mut(&mut m.receiver);
                return;
            }
            if m.method == "push_str" {
                // keep
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                // `Parse::parse(input)`
                let n = p.path.segments.len();
                if p.qself.is_none() && n >= 2 && c.args.len() == 1 && p.path.segments[n - 1].ident == "parse" && p.path.segments[n - 2].ident == "Parse" {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = if let Expr::Path(_) = a { Expr::Verbatim(quote!(#a.parse())) } else { Expr::Verbatim(quote!((#a).parse())) };
                    return;
                }
                if n >= 1 && p.path.segments[n - 1].ident == "parse_terminated_with" && c.args.len() == 2 {
                    if let Expr::Path(q) = &c.args[1] {
                        if q.path.segments.last().unwrap().ident == "parse_any" {
                            c.args[1] = parse_quote!(AnyParser {});
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == "advance_to" && c.args.len() == 2 {
                    let mut a0 = c.args[0].clone();
                    let a1 = c.args[1].clone();
                    self.visit_expr_mut(&mut a0);
                    *e = Expr::Verbatim(quote!(#a0.advance_to(#a1)));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.segments.last() {
                        let n = i.ident.to_string();
                        if let Some(x) = self.fc.callargs.get(&n) {
                            let x = self.contract(x);
                            // dyn arguments of the original become generic ones
                            if let Some(l) = c.args.last_mut() {
                                if let Expr::Reference(r) = l {
                                    *l = (*r.expr).clone();
                                }
                            }
                            let (f, a) = (&c.func, &c.args);
                            let comma = if a.is_empty() || a.trailing_punct() { quote!() } else { quote!(,) };
                            *e = Expr::Verbatim(quote!(#f(#a #comma #x)));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if (n == "peek" || n == "peek2" || n == "peek3") && m.args.len() == 1 {
                    let a = m.args[0].clone();
                    let r = &m.receiver;
                    let me = &m.method;
                    let t = match &a {
                        Expr::Path(p) => {
                            let mut p = p.clone();
                            if p.path.segments.last().map(|s| s.ident == "peek_any").unwrap_or(false) && p.path.segments.len() > 1 {
                                let k = p.path.segments.len() - 1;
                                p.path.segments = p.path.segments.into_iter().take(k).collect();
                                let f = format_ident!("{}_any", me);
                                *e = Expr::Verbatim(quote!(#r.#f::<#p>()));
                                return;
                            }
                            quote!(#p)
                        }
                        Expr::Verbatim(t) => quote!(#t),
                        a => {
                            let s = quote!(#a).to_string();
                            self.problem(format!("peek argument {s}"));
                            quote!(#a)
                        }
                    };
                    *e = Expr::Verbatim(quote!(#r.#me::<#t>()));
                } else if n == "into" {
                    if let Expr::Lit(l) = &*m.receiver {
                        *e = Expr::Verbatim(quote!(lit(#l)));
                    }
                } else if n == "extend" && m.args.len() == 1 {
                    if let Expr::MethodCall(y) = &m.args[0] {
                        if y.method == "chars" {
                            let (x, y) = (&m.receiver, &y.receiver);
                            *e = Expr::Verbatim(quote!(vx_extend_chars(&mut #x, #y)));
                        } else if y.method == "cloned" && y.args.is_empty() {
                            if let Expr::MethodCall(z) = &*y.receiver {
                                if z.method == "iter" && z.args.is_empty() {
                                    let (x, z) = (&m.receiver, &z.receiver);
                                    *e = Expr::Verbatim(quote!(vx_extend_cloned(&mut #x, &#z)));
                                }
                            }
                        }
                    }
                } else if n == "parse_args_with" && m.args.len() == 1 {
                    // `attr.parse_args_with(Punctuated::<T, P>::parse_terminated)`
                    let mut ok = None;
                    if let Expr::Path(p) = &m.args[0] {
                        let k = p.path.segments.len();
                        if k == 2 && p.path.segments[0].ident == "Punctuated" && p.path.segments[1].ident == "parse_terminated" {
                            if let PathArguments::AngleBracketed(g) = &p.path.segments[0].arguments {
                                ok = Some(g.args.clone());
                            }
                        }
                    }
                    let r = &m.receiver;
                    match ok {
                        Some(g) => *e = Expr::Verbatim(quote!(#r.parse_args_terminated::<#g>())),
                        None => self.problem("parse_args_with"),
                    }
                } else if n == "parse_terminated" && m.args.len() == 2 {
                    // `input.parse_terminated(T::parse, Token![,])`
                    let mut ok = None;
                    if let Expr::Path(p) = &m.args[0] {
                        if p.path.segments.len() == 2 && p.path.segments[1].ident == "parse" && p.qself.is_none() {
                            ok = Some(p.path.segments[0].ident.clone());
                        }
                    }
                    let (r, sep) = (&m.receiver, &m.args[1]);
                    match ok {
                        Some(t) => *e = Expr::Verbatim(quote!(Punctuated::<#t, #sep>::parse_terminated(#r))),
                        None => self.problem("parse_terminated"),
                    }
                } else if n == "collect" && m.args.is_empty() {
                    // `x.iter().map(f).collect()`
                    let mut new = None;
                    if let Expr::MethodCall(y) = &*m.receiver {
                        if y.method == "map" && y.args.len() == 1 {
                            if let Expr::MethodCall(z) = &*y.receiver {
                                if z.method == "iter" && z.args.is_empty() {
                                    let (x, a) = (&z.receiver, &y.args[0]);
                                    new = Some(quote!(vx_map(&#x, #a)));
                                }
                            }
                        }
                    }
                    if let Some(n) = new {
                        *e = Expr::Verbatim(n);
                    }
                } else if (n == "position" || n == "any") && m.args.len() == 1 {
                    if let Expr::MethodCall(y) = &*m.receiver {
                        if y.method == "iter" && y.args.is_empty() {
                            let (x, a) = (&y.receiver, &m.args[0]);
                            let f = format_ident!("vx_{}", n);
                            *e = Expr::Verbatim(quote!(#f(&#x, #a)));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// does control leave the closure other than at its end?
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_macro(&mut self, _: &'a syn::Macro) {
            self.0 |= true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
/// the literals of a pattern made of string literals only
fn str_pats(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_pats(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_pats(&p.pat),
        _ => None,
    }
}

/// the keys of the contract's closures that an expression mentions
fn keys_in(keys: &BTreeMap<usize, String>, e: &Expr) -> Vec<usize> {
    fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut s = BTreeSet::new();
    idents(quote!(#e), &mut s);
    keys.iter().filter(|(_, n)| s.contains(*n)).map(|(k, _)| *k).collect()
}
/// every key is mentioned by one closure, and no closure mentions two
fn keyed(keys: &BTreeMap<usize, String>, b: &syn::Block) -> bool {
    struct V<'a>(&'a BTreeMap<usize, String>, Vec<Vec<usize>>);
    impl<'a> syn::visit::Visit<'a> for V<'a> {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            self.1.push(keys_in(self.0, &c.body));
        }
    }
    let mut v = V(keys, vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    let all: Vec<usize> = v.1.iter().flatten().copied().collect();
    !keys.is_empty() && v.1.iter().all(|k| k.len() <= 1) && keys.keys().all(|k| all.iter().filter(|j| *j == k).count() == 1)
}
fn closure_params(h: &TokenStream) -> Vec<String> {
    // |a: T, b: U| -> (r: V) ...
    let mut v = Vec::new();
    let mut depth = 0i32;
    let mut start = false;
    let mut expect = false;
    for t in h.clone() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '|' => {
                if start {
                    break;
                }
                start = true;
                expect = true;
            }
            TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
            TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => expect = true,
            TokenTree::Ident(i) if expect && start && i != "mut" => {
                v.push(i.to_string());
                expect = false;
            }
            _ => {}
        }
    }
    v
}

pub fn rewrite_type(t: &mut Type, problems: &mut Vec<String>) {
    match t {
        Type::Path(p) if p.qself.is_none() => {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" && p.path.segments[1].ident == "Output" {
                *t = parse_quote!(Self);
                return;
            }
            strip_path(&mut p.path);
            let last = p.path.segments.last().unwrap().ident.to_string();
            if last == "ParseStream" {
                *t = parse_quote!(&mut ParseBuffer);
            } else if last == "ParseBuffer" {
                *t = parse_quote!(ParseBuffer);
            }
        }
        Type::Reference(r) => {
            if let Type::Path(p) = &*r.elem {
                if p.path.segments.last().unwrap().ident == "ParseBuffer" {
                    *t = parse_quote!(&mut ParseBuffer);
                }
            }
        }
        Type::Macro(m) => {
            let s = m.mac.tokens.to_string().replace(' ', "");
            match tok_name(&s) {
                Some(n) => {
                    let i = Ident::new(n, Span::call_site());
                    *t = parse_quote!(#i);
                }
                None => problems.push(format!("type macro {s}")),
            }
        }
        _ => {}
    }
}

struct TyRw<'a>(&'a mut Vec<String>);
impl VisitMut for TyRw<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        rewrite_type(t, self.0);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        match &mut p.qself {
            Some(q) => {
                strip_qself(q, &mut p.path);
                self.visit_type_mut(&mut q.ty);
                for s in &mut p.path.segments {
                    visit_mut::visit_path_segment_mut(self, s);
                }
            }
            None => visit_mut::visit_expr_path_mut(self, p),
        }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        match &mut p.qself {
            Some(q) => {
                strip_qself(q, &mut p.path);
                self.visit_type_mut(&mut q.ty);
                for s in &mut p.path.segments {
                    visit_mut::visit_path_segment_mut(self, s);
                }
            }
            None => visit_mut::visit_type_path_mut(self, p),
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_field_mut(&mut self, f: &mut Field) {
        f.attrs.clear();
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_variant_mut(&mut self, f: &mut Variant) {
        f.attrs.clear();
        visit_mut::visit_variant_mut(self, f);
    }
}

pub fn item(i: &Item, fc: &FnContract) -> RR {
    let mut i = i.clone();
    let mut problems = vec![];
    match &mut i {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        Item::Const(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            if !fc.spec.is_empty() {
                TyRw(&mut problems).visit_item_const_mut(s);
                struct Static;
                impl VisitMut for Static {
                    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                        if r.lifetime.is_none() {
                            r.lifetime = Some(parse_quote!('static));
                        }
                        visit_mut::visit_type_reference_mut(self, r);
                    }
                }
                Static.visit_type_mut(&mut s.ty);
                let (n, t, e, spec) = (&s.ident, &s.ty, &s.expr, ts(&fc.spec));
                return RR { text: format!("\n{}\n", print(quote!(pub exec const #n: #t #spec { #e }))), problems, src_line: n.span().start().line, locals: vec![] };
            }
        }
        _ => {}
    }
    StripAttrs.visit_item_mut(&mut i);
    TyRw(&mut problems).visit_item_mut(&mut i);
    let a = ts(&fc.attrs);
    RR { text: format!("\n{}\n", print(quote!(#a #i))), problems, src_line: 0, locals: vec![] }
}

/// `let x; .. let x; ..` in one block: the first `x`, which lives on to the end of the block, gets a name of its own
struct Unshadow(usize);
impl VisitMut for Unshadow {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        fn name(s: &Stmt) -> Option<String> {
            match s {
                Stmt::Local(Local { pat: Pat::Ident(p), init: None, .. }) => Some(p.ident.to_string()),
                _ => None,
            }
        }
        let mut j = 0;
        while j < b.stmts.len() {
            if let Some(n) = name(&b.stmts[j]) {
                if let Some(i) = b.stmts[..j].iter().position(|s| name(s).as_ref() == Some(&n)) {
                    self.0 += 1;
                    let m = BTreeMap::from([(n.clone(), format!("{n}_sh{}", self.0))]);
                    for s in &mut b.stmts[i..j] {
                        let Ok(t) = syn::parse::Parser::parse2(Block::parse_within, subst(s.to_token_stream(), &m)) else { return };
                        let [t] = <[Stmt; 1]>::try_from(t).unwrap_or_else(|_| panic!("one statement"));
                        *s = t;
                    }
                }
            }
            j += 1;
        }
    }
}

pub fn func(f: &Func, fc: &FnContract, probe: &str) -> RR {
    let mut problems = vec![];
    let f = &{
        let mut f = f.clone();
        Unshadow(0).visit_block_mut(&mut f.block);
        f
    };
    let mut bufs = Bufs(Default::default(), Default::default());
    bufs.visit_block(&f.block);
    let own_bufs = bufs.0.clone();
    let refs = std::mem::take(&mut bufs.1);
    bufs.0.extend(refs);
    let mut sig = f.sig.clone();
    // canonical names -> actual names (parameters, then binders in order)
    let mut actual: Vec<String> = Vec::new();
    for a in &sig.inputs {
        match a {
            FnArg::Typed(t) => {
                let mut b = Binders(vec![]);
                b.visit_pat(&t.pat);
                if is_buf_type(&t.ty) {
                    bufs.0.extend(b.0.iter().cloned());
                }
                actual.extend(b.0);
            }
            FnArg::Receiver(_) => actual.push("self".into()),
        }
    }
    let mut b = Binders(vec![]);
    b.visit_block(&f.block);
    actual.extend(b.0);
    let mut m = BTreeMap::new();
    if !fc.locals.is_empty() {
        // a name the function still has stands for itself; the others are matched in order
        let np = sig.inputs.len();
        for (c, a) in fc.locals.iter().zip(&actual).take(np) {
            if c != a {
                m.entry(c.clone()).or_insert(a.clone());
            }
        }
        let once = |l: &[String], other: &[String]| {
            let mut out: Vec<String> = vec![];
            for n in l {
                if !other.contains(n) && !out.contains(n) {
                    out.push(n.clone());
                }
            }
            out
        };
        let gone = once(fc.locals.get(np..).unwrap_or(&[]), &actual);
        let new = once(actual.get(np..).unwrap_or(&[]), &fc.locals);
        if gone.len() == new.len() {
            for (c, a) in gone.into_iter().zip(new) {
                m.entry(c).or_insert(a);
            }
        }
    }
    let mut rw = Rw {
        fc,
        m,
        bufs: bufs.0,
        all_own: own_bufs,
        own_bufs: Default::default(),
        nloop: 0,
        nclosure: 0,
        by_key: keyed(&fc.closure_keys, &f.block),
        used_closures: Default::default(),
        nsurround: 0,
        problems: vec![],
    };
    let mut block = f.block.clone();
    if !fc.external {
        rw.visit_block_mut(&mut block);
        let want = fc.loops.keys().max().map(|k| k + 1).unwrap_or(0);
        if rw.nloop != want {
            rw.problems.push(format!("{} loops, contract has {want}", rw.nloop));
        }
        for k in fc.closures.keys() {
            if !rw.used_closures.contains(k) && !fc.lenient {
                rw.problems.push(format!("closure {k} of the contract not found"));
            }
        }
    }
    // a by-value parameter that the body may change: the contract speaks of `x__in`, the value passed
    let mut lets: Vec<TokenStream> = vec![];
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(p), false) = (&mut *t.pat, is_buf_type(&t.ty)) {
                let name = p.ident.to_string();
                let canon = rw.m.iter().find(|(_, a)| **a == name).map(|(c, _)| c.clone()).unwrap_or(name.clone());
                let c_in = format!("{canon}__in");
                if fc.spec.contains(&c_in) {
                    let a_in = format!("{name}__in");
                    let (id, new) = (p.ident.clone(), Ident::new(&a_in, p.ident.span()));
                    lets.push(quote!(let mut #id = #new;));
                    p.ident = new;
                    p.mutability = None;
                    if c_in != a_in {
                        rw.m.insert(c_in, a_in);
                    }
                }
            }
        }
    }
    // signature
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
            let name = t.pat.to_token_stream().to_string();
            let key = rw.m.iter().find(|(_, a)| **a == name).map(|(c, _)| c.clone()).unwrap_or(name);
            if let Some(s) = fc.subst.get(&key) {
                *t.ty = parse_str(s).unwrap();
            }
        }
    }
    TyRw(&mut problems).visit_signature_mut(&mut sig);
    problems.append(&mut rw.problems);
    let name = match &fc.rename {
        Some(r) => Ident::new(r, Span::call_site()),
        None => sig.ident.clone(),
    };
    let gparams: Vec<TokenStream> = sig
        .generics
        .params
        .iter()
        .map(|p| quote!(#p))
        .chain(fc.generics.iter().map(|g| ts(g)))
        .collect();
    let generics = if gparams.is_empty() { quote!() } else { quote!(<#(#gparams),*>) };
    let wh = &sig.generics.where_clause;
    let mut ins: Vec<TokenStream> = sig.inputs.iter().map(|p| quote!(#p)).collect();
    for x in &fc.extra {
        ins.push(rw.contract(x));
    }
    let out = match (&sig.output, &fc.ret) {
        (ReturnType::Default, _) => quote!(),
        (ReturnType::Type(_, t), Some(r)) => {
            let r = Ident::new(r, Span::call_site());
            quote!(-> (#r: #t))
        }
        (ReturnType::Type(_, t), None) => quote!(-> #t),
    };
    let spec = rw.contract(&fc.spec);
    let entry = rw.contract(&fc.entry);
    let tail = rw.contract(&fc.before_tail);
    let attrs = ts(&fc.attrs);
    let attrs = if fc.external { quote!(#attrs #[verifier::external_body]) } else { attrs };
    let body = if fc.external {
        quote!({ unimplemented!() })
    } else {
        let mut stmts = block.stmts.clone();
        let last = match stmts.last() {
            Some(Stmt::Expr(_, None)) => stmts.pop(),
            _ => None,
        };
        let (pe, pt) = match probe {
            "entry" => (quote!(assert(false);), quote!()),
            "tail" => (quote!(), quote!(assert(false);)),
            _ => (quote!(), quote!()),
        };
        quote!({ #pe #(#lets)* #entry #(#stmts)* #tail #pt #last })
    };
    let fun = quote!(#attrs fn #name #generics (#(#ins),*) #out #wh #spec #body);
    let fun = match &f.self_ty {
        Some(t) => {
            let mut t = t.clone();
            TyRw(&mut problems).visit_type_mut(&mut t);
            let mut g = f.impl_generics.clone();
            TyRw(&mut problems).visit_generics_mut(&mut g);
            let (ig, _, wc) = g.split_for_impl();
            quote!(impl #ig #t #wc { #fun })
        }
        None => fun,
    };
    RR { text: format!("\n{}\n", print(fun)), problems, src_line: f.line, locals: actual }
}
