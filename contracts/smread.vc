@//  What the code derive(StructMeta) quotes does when it runs (the templates' reading), and what C01-C05 ask of it.
@include nameread.vc
@include values.vc
@file structmeta-derive/src/struct_meta.rs
@quote s_all &|_| true
@quote s_snake &::structmeta::helpers::is_snake_case
@quote s_letopt let mut #0 : Option<#1> = None;
@quote s_letvec let mut #0 = <#1>::new();
@quote s_letreq let #0 = input.parse::<#1>()?;
@quote s_letnone let mut #0 = None;
@quote s_letmap let mut #0 = ::std::collections::HashMap::new();
@quote s_wflag Flag
@quote s_wnv NameValue
@quote s_wna NameArgs
@quote s_parse input.parse::<#0>()?
@quote s_list ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#0, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect()
@quote s_inner content.parse::<#0>()?
@quote s_paren { let content; ::structmeta::helpers::exports::syn::parenthesized!(content in input); #0 }
@quote s_span span
@quote s_none None
@quote s_some Some(#0)
@quote s_nv ::structmeta::NameValue { name_span : span, value: #0 }
@quote s_na structmeta::NameArgs { name_span : span, args: #0 }
@quote s_arm ::structmeta::helpers::NameIndex::#0(Ok(#1)) => { if #2.is_some() { return Err(::structmeta::helpers::exports::syn::Error::new(span, #3)); } #2 = Some(#4); }
@quote s_restarm ::structmeta::helpers::NameIndex::#0(Err(name)) => { if #1.insert(name.to_string(), #2).is_some() { return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name))); } }
@quote s_idxarm #0 => { #1 = Some(#2); }
@quote s_pusharm _ => { #0.push(#1); }
@quote s_manyarm _ => { return Err(input.error("too many unnamed parameter")); }
@quote s_init #0 : #1
@quote s_flag ::structmeta::Flag { span: #0 }
@quote s_issome #0.is_some()
@quote s_need #0.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #1))?
@quote s_unwrap #0.unwrap()
@quote s_comma if input.is_empty () { return Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #0)); } input.parse::<::structmeta::helpers::exports::syn::Token![,]>()?;
@quote s_rec { #(#0,)*}
@quote s_tup ( #(#0,)*)
@quote s_unnamed if named_used { return Err(input.error("cannot use unnamed parameter after named parameter")); } match unnamed_index { #(#0)* } unnamed_index += 1;
@quote s_nounnamed return Err(input.error("cannot use unnamed parameter"));
@quote s_main let mut is_next = #0; let mut unnamed_index = 0; let mut named_used = false; while !input.is_empty() { if is_next { input.parse::<::structmeta::helpers::exports::syn::Token![,]>()?; if input.is_empty() { break; } } is_next = true; if let Some((index, span)) = ::structmeta::helpers::try_parse_name(input, &[#(#1,)*], #2, &[#(#3,)*], #4, &[#(#5,)*], #6, #7, #8)? { named_used = true; match index { #(#9)* _ => unreachable!() } } else { #10 } } Ok(Self #11)
@text
pub mod smr {
use super::*;
/// the value of a variable of the generated function, or of a field
pub ghost enum Lv { V(Fv), O(Option<Fv>), L(Seq<Val>), M(Map<Seq<char>, Fv>), B(bool), G(Option<Fv>) }
pub type Env = Map<Seq<char>, Lv>;
/// how reading an argument list ends, or why it stops
pub ghost enum Out<S> { End(S, Pb), Dup(int), Sep, TooFew, TooMany, AfterNamed, Name(Pb), Leaf, Stuck }
pub ghost enum Step<S> { Go(S, Pb), Stop(Out<S>) }
/// the parser of a type
pub uninterp spec fn tyid(t: Type) -> int;
pub open spec fn flt(snake: bool) -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| snake ==> snake_name(n) }
/// comma separated arguments, read to the end (C05)
pub open spec fn looped<S>(f: spec_fn(S, Pb) -> Step<S>, s: S, next: bool, b: Pb) -> Out<S>
    decreases b.toks.len(), (if next { 0int } else { 1 })
{
    if b.toks.len() == 0 { Out::End(s, b) }
    else if next && !punct1(b.toks, ',') { Out::Sep }
    else {
        let c = if next { b.adv(1) } else { b };
        if next && c.toks.len() == 0 { Out::End(s, c) }
        else { match f(s, c) { Step::Go(t, d) => if d.toks.len() <= c.toks.len() { looped(f, t, true, d) } else { Out::Stuck }, Step::Stop(o) => o } }
    }
}
pub open spec fn alike<S, T>(rel: spec_fn(S, T) -> bool, a: Out<S>, b: Out<T>) -> bool {
    match (a, b) {
        (Out::End(s, x), Out::End(t, y)) => x == y && rel(s, t),
        (Out::Dup(x), Out::Dup(y)) => x == y, (Out::Name(x), Out::Name(y)) => x == y,
        (Out::Sep, Out::Sep) | (Out::TooFew, Out::TooFew) | (Out::TooMany, Out::TooMany) | (Out::AfterNamed, Out::AfterNamed) | (Out::Leaf, Out::Leaf) => true,
        _ => false,
    }
}
pub open spec fn step_alike<S, T>(rel: spec_fn(S, T) -> bool, c: Pb, a: Step<S>, b: Step<T>) -> bool {
    match (a, b) { (Step::Go(s, x), Step::Go(t, y)) => x == y && x.toks.len() <= c.toks.len() && rel(s, t), (Step::Stop(o), Step::Stop(q)) => alike(rel, o, q), _ => false }
}
pub proof fn lemma_looped<S, T>(rel: spec_fn(S, T) -> bool, f: spec_fn(S, Pb) -> Step<S>, g: spec_fn(T, Pb) -> Step<T>, s: S, t: T, next: bool, b: Pb)
    requires rel(s, t), forall|s: S, t: T, c: Pb| rel(s, t) && c.toks.len() > 0 ==> step_alike(rel, c, #[trigger] f(s, c), #[trigger] g(t, c))
    ensures alike(rel, looped(f, s, next, b), looped(g, t, next, b))
    decreases b.toks.len(), (if next { 0int } else { 1 })
{
    if b.toks.len() > 0 && !(next && !punct1(b.toks, ',')) {
        let c = if next { b.adv(1) } else { b };
        if c.toks.len() > 0 {
            assert(step_alike(rel, c, f(s, c), g(t, c)));
            match (f(s, c), g(t, c)) { (Step::Go(u, d), Step::Go(v, e)) => { lemma_looped(rel, f, g, u, v, true, d); }, _ => {} }
        }
    }
}

// ---- the definition: fields, tables, one argument (C01, C02, C04, C06) ---------------------------
pub open spec fn takes(s: Sty, w: Style) -> bool { match w { Style::Flag => c08_flag(s), Style::NameValue => c08_name_value(s), Style::NameArgs => c08_name_args(s) } }
pub open spec fn named_in(f: Field, n: Seq<char>, w: Style) -> bool { match param_of(f) { Par::Named(m, s, _) => m == n && takes(s, w), _ => false } }
pub open spec fn rest_in(f: Field, w: Style) -> bool { match param_of(f) { Par::Rest(s) => takes(s, w), _ => false } }
pub open spec fn names_in(fs: Seq<Field>, w: Style) -> Seq<Seq<char>>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { let r = names_in(fs.drop_last(), w); match param_of(fs.last()) { Par::Named(n, s, _) => if takes(s, w) { r.push(n) } else { r }, _ => r } } }
/// the tables of a definition: for each style the parameters that take it, in order
pub open spec fn def_tab(fs: Seq<Field>, w: Style) -> Tab { Tab { names: names_in(fs, w), rest: exists|i: int| 0 <= i < fs.len() && rest_in(#[trigger] fs[i], w) } }
pub open spec fn def_tabs(fs: Seq<Field>) -> Tabs { Tabs { f: def_tab(fs, Style::Flag), v: def_tab(fs, Style::NameValue), a: def_tab(fs, Style::NameArgs), no_unnamed: !any_optional(fs) && !any_variadic(fs) } }
/// the value of an argument of a style, written in a form, after the name
pub open spec fn value(s: Sty, w: Style, sp: int, b: Pb) -> Option<(Fv, Pb)> {
    match s {
        Sty::Bool | Sty::Flag => Some((Fv::Sp(sp), b)),
        Sty::Value(t, false) => match p_value(tyid(t), b) { Some((v, d)) => Some((Fv::V(v), d)), None => None },
        Sty::Value(t, true) => match p_list(tyid(t), b) { Some((v, d)) => Some((Fv::L(v), d)), None => None },
        Sty::NameValue(t, o) => if w is Flag { Some((Fv::N(sp, Inner::None), b)) }
            else { match p_value(tyid(t), b) { Some((v, d)) => Some((Fv::N(sp, if o { Inner::SomeV(v) } else { Inner::V(v) }), d)), None => None } },
        Sty::NameArgs(t, o, false) => if w is Flag { Some((Fv::N(sp, Inner::None), b)) }
            else { match p_args(tyid(t), b) { Some((v, d)) => Some((Fv::N(sp, if o { Inner::SomeV(v) } else { Inner::V(v) }), d)), None => None } },
        Sty::NameArgs(t, o, true) => if w is Flag { Some((Fv::N(sp, Inner::None), b)) }
            else { match p_list(tyid(t), b) { Some((v, d)) => Some((Fv::N(sp, if o { Inner::SomeL(v) } else { Inner::L(v) }), d)), None => None } },
    }
}
/// per field what has been read so far; optional and variadic arguments so far; a named one has been seen
pub ghost struct Sst { pub v: Map<int, Lv>, pub k: int, pub used: bool }
pub open spec fn sty_of(f: Field) -> Sty { match param_of(f) { Par::Named(_, s, _) => s, Par::Rest(s) => s, _ => Sty::Bool } }
pub open spec fn type_of(f: Field) -> Type { match param_of(f) { Par::Unnamed(t, _, _) => t, _ => f.ty } }
pub open spec fn field_named(fs: Seq<Field>, n: Seq<char>) -> int { choose|i: int| 0 <= i < fs.len() && named_as(#[trigger] fs[i], n) }
pub open spec fn field_rest(fs: Seq<Field>) -> int { choose|i: int| 0 <= i < fs.len() && is_rest(#[trigger] fs[i]) }
pub open spec fn field_variadic(fs: Seq<Field>) -> int { choose|i: int| 0 <= i < fs.len() && is_variadic(#[trigger] fs[i]) }
pub open spec fn named_arg(fs: Seq<Field>, i: int, w: Style, sp: int, s: Sst, d: Pb) -> Step<Sst> {
    match s.v[i] {
        Lv::O(None) => match value(sty_of(fs[i]), w, sp, d) { Some((v, e)) => Step::Go(Sst { v: s.v.insert(i, Lv::O(Some(v))), ..s }, e), None => Step::Stop(Out::Leaf) },
        Lv::O(Some(_)) => Step::Stop(Out::Dup(sp)),
        _ => Step::Stop(Out::Stuck),
    }
}
pub open spec fn rest_arg(fs: Seq<Field>, n: Seq<char>, w: Style, sp: int, s: Sst, d: Pb) -> Step<Sst> {
    let i = field_rest(fs);
    match s.v[i] {
        Lv::M(m) => match value(sty_of(fs[i]), w, sp, d) { Some((v, e)) => if m.dom().contains(n) { Step::Stop(Out::Dup(sp)) } else { Step::Go(Sst { v: s.v.insert(i, Lv::M(m.insert(n, v))), ..s }, e) }, None => Step::Stop(Out::Leaf) },
        _ => Step::Stop(Out::Stuck),
    }
}
pub open spec fn unnamed_arg(fs: Seq<Field>, s: Sst, c: Pb) -> Step<Sst> {
    let i = if s.k < opt_ix(fs).len() { opt_ix(fs)[s.k] } else { field_variadic(fs) };
    if s.used { Step::Stop(Out::AfterNamed) }
    else if s.k >= opt_ix(fs).len() && !any_variadic(fs) { Step::Stop(Out::TooMany) }
    else { match p_value(tyid(type_of(fs[i])), c) {
        Some((v, d)) => match s.v[i] {
            Lv::O(_) => Step::Go(Sst { v: s.v.insert(i, Lv::O(Some(Fv::V(v)))), k: s.k + 1, ..s }, d),
            Lv::L(l) => Step::Go(Sst { v: s.v.insert(i, Lv::L(l.push(v))), k: s.k + 1, ..s }, d),
            _ => Step::Stop(Out::Stuck),
        },
        None => Step::Stop(Out::Leaf),
    } }
}
pub open spec fn c_step(fs: Seq<Field>, snake: bool) -> spec_fn(Sst, Pb) -> Step<Sst> { |s: Sst, c: Pb|
    match name_at(def_tabs(fs), flt(snake), c.toks) {
        Named::Unnamed => unnamed_arg(fs, s, c),
        Named::Err => Step::Stop(Out::Name(c)),
        Named::Taken(w, x, sp, n) => match x {
            Idx::At(j) => named_arg(fs, field_named(fs, def_tabs(fs).of(w).names[j]), w, sp, Sst { used: true, ..s }, c.adv(n as int)),
            Idx::Rest(m) => rest_arg(fs, m, w, sp, Sst { used: true, ..s }, c.adv(n as int)),
        },
    }
}
/// what a field holds before its argument (C03)
pub open spec fn empty_of(f: Field) -> Lv { if is_variadic(f) { Lv::L(Seq::empty()) } else if is_rest(f) { Lv::M(Map::empty()) } else { Lv::O(None) } }
/// the required unnamed fields `rq` one after the other (C04)
pub ghost enum Pre<S> { Go(S, Pb), Stop(Out<Est>) }
pub open spec fn pre_fields(fs: Seq<Field>, rq: Seq<int>, b: Pb) -> Pre<Map<int, Lv>>
    decreases rq.len()
{
    if rq.len() == 0 { Pre::Go(Map::empty(), b) } else {
        let i = rq.last();
        match pre_fields(fs, rq.drop_last(), b) {
            Pre::Go(v, c) => if rq.len() > 1 && c.toks.len() == 0 { Pre::Stop(Out::TooFew) }
                else if rq.len() > 1 && !punct1(c.toks, ',') { Pre::Stop(Out::Sep) }
                else { match p_value(tyid(type_of(fs[i])), if rq.len() > 1 { c.adv(1) } else { c }) { Some((x, d)) => Pre::Go(v.insert(i, Lv::V(Fv::V(x))), d), None => Pre::Stop(Out::Leaf) } },
            s => s,
        }
    }
}
pub open spec fn with_empty(fs: Seq<Field>, v: Map<int, Lv>) -> Map<int, Lv> { Map::new(vstd::set_lib::set_int_range(0, fs.len() as int), |i: int| if is_required(fs[i]) { v[i] } else { empty_of(fs[i]) }) }
/// the whole list, by the definition
pub open spec fn sem(fs: Seq<Field>, snake: bool, b: Pb) -> Out<Sst> {
    match pre_fields(fs, req_ix(fs), b) {
        Pre::Go(v, c) => looped(c_step(fs, snake), Sst { v: with_empty(fs, v), k: 0, used: false }, req_ix(fs).len() > 0, c),
        Pre::Stop(o) => match o { Out::TooFew => Out::TooFew, Out::Sep => Out::Sep, Out::Leaf => Out::Leaf, _ => Out::Stuck },
    }
}
/// the value of a field when the list has ended (C03); None: a required one is missing
pub open spec fn want(f: Field, v: Lv) -> Option<Lv> {
    match param_of(f) {
        Par::Named(_, s, opt) => match v {
            Lv::O(o) => if opt { Some(v) } else if s is Bool { Some(Lv::B(o is Some)) } else if s is Flag { Some(Lv::G(o)) } else { match o { Some(x) => Some(Lv::V(x)), None => None } },
            _ => None,
        },
        _ => Some(v),
    }
}
/// how a missing parameter is reported
pub open spec fn form_of(f: Field) -> Seq<char> { match param_of(f) { Par::Named(n, s, _) => if takes(s, Style::NameArgs) { n + "(...)"@ } else { n + " = ..."@ }, _ => Seq::empty() } }
pub open spec fn complete(fs: Seq<Field>, s: Sst) -> bool { forall|i: int| 0 <= i < fs.len() ==> want(#[trigger] fs[i], s.v[i]) is Some }

// ---- the code -----------------------------------------------------------------------------------
pub ghost struct Est { pub v: Env, pub k: int, pub used: bool }
/// the result of the generated function
pub ghost enum Res { Done(Seq<Lv>, Pb), Missing(Seq<char>), Stop(Out<Est>) }
pub proof fn lemma_tmp(i: int, j: int) requires 0 <= i <= usize::MAX, 0 <= j <= usize::MAX, tmp(i) == tmp(j) ensures i == j
{ broadcast use disp_inj; reveal_strlit("_value_"); assert(tmp(i).skip(7) =~= (i as usize).disp()); assert(tmp(j).skip(7) =~= (j as usize).disp()); }
pub open spec fn node_of(c: Seq<Cd>, t: int, n: nat) -> Option<Seq<Seq<Cd>>> { if c.len() == 1 { match c[0] { Cd::N(u, a) => if u == t && a.len() == n { Some(a) } else { None }, _ => None } } else { None } }
pub open spec fn id_of(c: Seq<Cd>) -> Option<Seq<char>> { if c.len() == 1 { match c[0] { Cd::Id(s) => Some(s), _ => None } } else { None } }
pub open spec fn ty_of(c: Seq<Cd>) -> Option<Type> { if c.len() == 1 { match c[0] { Cd::Ty(t) => Some(t), _ => None } } else { None } }
pub open spec fn num_of(c: Seq<Cd>) -> Option<int> { if c.len() == 1 { match c[0] { Cd::Num(n) => Some(n), _ => None } } else { None } }
pub open spec fn str_of(c: Seq<Cd>) -> Option<Seq<char>> { if c.len() == 1 { match c[0] { Cd::Str(s) => Some(s), _ => None } } else { None } }
pub open spec fn bool_of(c: Seq<Cd>) -> bool { c.len() == 1 && c[0] == Cd::Bool(true) }
pub open spec fn reps(c: Seq<Cd>) -> Seq<Seq<Cd>> { if c.len() == 1 { match c[0] { Cd::R(l) => l, _ => Seq::empty() } } else { Seq::empty() } }
pub open spec fn way_of(c: Seq<Cd>) -> Option<Style> {
    if node_of(c, s_wflag(), 0) is Some { Some(Style::Flag) } else if node_of(c, s_wnv(), 0) is Some { Some(Style::NameValue) } else if node_of(c, s_wna(), 0) is Some { Some(Style::NameArgs) } else { None }
}
/// a parsing expression: `input.parse()?`, the parenthesized ones
pub open spec fn ev0(c: Seq<Cd>, b: Pb) -> Option<(Inner, Pb)> {
    if node_of(c, s_parse(), 1) is Some { match p_value(tyid(ty_of(node_of(c, s_parse(), 1)->0[0])->0), b) { Some((v, d)) => Some((Inner::V(v), d)), None => None } }
    else {
        let x = node_of(c, s_paren(), 1)->0[0];
        if node_of(x, s_inner(), 1) is Some { match p_args(tyid(ty_of(node_of(x, s_inner(), 1)->0[0])->0), b) { Some((v, d)) => Some((Inner::V(v), d)), None => None } }
        else { match p_list(tyid(ty_of(node_of(x, s_list(), 1)->0[0])->0), b) { Some((v, d)) => Some((Inner::L(v), d)), None => None } }
    }
}
pub open spec fn ok0(c: Seq<Cd>) -> bool {
    ||| node_of(c, s_parse(), 1) is Some && ty_of(node_of(c, s_parse(), 1)->0[0]) is Some
    ||| node_of(c, s_paren(), 1) is Some && { let x = node_of(c, s_paren(), 1)->0[0];
        ||| node_of(x, s_inner(), 1) is Some && ty_of(node_of(x, s_inner(), 1)->0[0]) is Some
        ||| node_of(x, s_list(), 1) is Some && ty_of(node_of(x, s_list(), 1)->0[0]) is Some }
}
/// the inside of NameValue or NameArgs
pub open spec fn ev1(c: Seq<Cd>, b: Pb) -> Option<(Inner, Pb)> {
    if node_of(c, s_none(), 0) is Some { Some((Inner::None, b)) }
    else if node_of(c, s_some(), 1) is Some { match ev0(node_of(c, s_some(), 1)->0[0], b) { Some((Inner::V(v), d)) => Some((Inner::SomeV(v), d)), Some((Inner::L(v), d)) => Some((Inner::SomeL(v), d)), _ => None } }
    else { ev0(c, b) }
}
pub open spec fn ok1(c: Seq<Cd>) -> bool { node_of(c, s_none(), 0) is Some || (node_of(c, s_some(), 1) is Some && ok0(node_of(c, s_some(), 1)->0[0])) || ok0(c) }
/// the expression for an argument; `sp` is the span of the name
pub open spec fn ev(c: Seq<Cd>, sp: int, b: Pb) -> Option<(Fv, Pb)> {
    if node_of(c, s_span(), 0) is Some { Some((Fv::Sp(sp), b)) }
    else if node_of(c, s_nv(), 1) is Some { match ev1(node_of(c, s_nv(), 1)->0[0], b) { Some((v, d)) => Some((Fv::N(sp, v), d)), None => None } }
    else if node_of(c, s_na(), 1) is Some { match ev1(node_of(c, s_na(), 1)->0[0], b) { Some((v, d)) => Some((Fv::N(sp, v), d)), None => None } }
    else { match ev0(c, b) { Some((Inner::V(v), d)) => Some((Fv::V(v), d)), Some((Inner::L(v), d)) => Some((Fv::L(v), d)), _ => None } }
}
pub open spec fn okv(c: Seq<Cd>) -> bool { node_of(c, s_span(), 0) is Some || (node_of(c, s_nv(), 1) is Some && ok1(node_of(c, s_nv(), 1)->0[0])) || (node_of(c, s_na(), 1) is Some && ok1(node_of(c, s_na(), 1)->0[0])) || ok0(c) }
/// the statements in front of the loop
pub open spec fn stmt(x: Cd, v: Env, b: Pb) -> Pre<Env> {
    let c = seq![x];
    if node_of(c, s_letopt(), 2) is Some { Pre::Go(v.insert(id_of(node_of(c, s_letopt(), 2)->0[0])->0, Lv::O(None)), b) }
    else if node_of(c, s_letnone(), 1) is Some { Pre::Go(v.insert(id_of(node_of(c, s_letnone(), 1)->0[0])->0, Lv::O(None)), b) }
    else if node_of(c, s_letvec(), 2) is Some { Pre::Go(v.insert(id_of(node_of(c, s_letvec(), 2)->0[0])->0, Lv::L(Seq::empty())), b) }
    else if node_of(c, s_letmap(), 1) is Some { Pre::Go(v.insert(id_of(node_of(c, s_letmap(), 1)->0[0])->0, Lv::M(Map::empty())), b) }
    else if node_of(c, s_letreq(), 2) is Some {
        let a = node_of(c, s_letreq(), 2)->0;
        match p_value(tyid(ty_of(a[1])->0), b) { Some((x, d)) => Pre::Go(v.insert(id_of(a[0])->0, Lv::V(Fv::V(x))), d), None => Pre::Stop(Out::Leaf) }
    }
    else if node_of(c, s_comma(), 1) is Some { if b.toks.len() == 0 { Pre::Stop(Out::TooFew) } else if !punct1(b.toks, ',') { Pre::Stop(Out::Sep) } else { Pre::Go(v, b.adv(1)) } }
    else { Pre::Stop(Out::Stuck) }
}
pub open spec fn pre(c: Seq<Cd>, b: Pb) -> Pre<Env>
    decreases c.len()
{ if c.len() == 0 { Pre::Go(Map::empty(), b) } else { match pre(c.drop_last(), b) { Pre::Go(v, d) => stmt(c.last(), v, d), s => s } } }
/// the first arm that matches
pub open spec fn first(l: Seq<Seq<Cd>>, p: spec_fn(Seq<Cd>) -> bool) -> Option<int>
    decreases l.len()
{ if l.len() == 0 { None } else if first(l.drop_last(), p) is Some { first(l.drop_last(), p) } else if p(l.last()) { Some(l.len() - 1) } else { None } }
pub proof fn lemma_first_arm(l: Seq<Seq<Cd>>, p: spec_fn(Seq<Cd>) -> bool, j: int)
    requires 0 <= j < l.len(), p(l[j])
    ensures first(l, p) is Some, 0 <= first(l, p)->0 <= j, p(l[first(l, p)->0])
    decreases l.len()
{ if j < l.len() - 1 { lemma_first_arm(l.drop_last(), p, j); } else if first(l.drop_last(), p) is Some { lemma_first_hits(l.drop_last(), p); } }
pub proof fn lemma_first_hits(l: Seq<Seq<Cd>>, p: spec_fn(Seq<Cd>) -> bool)
    requires first(l, p) is Some ensures 0 <= first(l, p)->0 < l.len(), p(l[first(l, p)->0])
    decreases l.len()
{ reveal(c03_c04_pre); reveal(c04_uarms); if first(l.drop_last(), p) is Some { lemma_first_hits(l.drop_last(), p); } }
/// does the arm take this entry of this style's table
pub open spec fn hits(w: Style, x: Idx) -> spec_fn(Seq<Cd>) -> bool { |c: Seq<Cd>| match x {
    Idx::At(i) => match node_of(c, s_arm(), 5) { Some(a) => way_of(a[0]) == Some(w) && num_of(a[1]) == Some(i), None => false },
    Idx::Rest(_) => match node_of(c, s_restarm(), 3) { Some(a) => way_of(a[0]) == Some(w), None => false } } }
pub open spec fn run_arm(c: Seq<Cd>, x: Idx, sp: int, e: Est, d: Pb) -> Step<Est> {
    match x {
        Idx::At(_) => { let a = node_of(c, s_arm(), 5)->0; let t = id_of(a[2])->0;
            match e.v[t] { Lv::O(None) => match ev(a[4], sp, d) { Some((v, f)) => Step::Go(Est { v: e.v.insert(t, Lv::O(Some(v))), ..e }, f), None => Step::Stop(Out::Leaf) }, Lv::O(Some(_)) => Step::Stop(Out::Dup(sp)), _ => Step::Stop(Out::Stuck) } }
        Idx::Rest(n) => { let a = node_of(c, s_restarm(), 3)->0; let t = id_of(a[1])->0;
            match e.v[t] { Lv::M(m) => match ev(a[2], sp, d) { Some((v, f)) => if m.dom().contains(n) { Step::Stop(Out::Dup(sp)) } else { Step::Go(Est { v: e.v.insert(t, Lv::M(m.insert(n, v))), ..e }, f) }, None => Step::Stop(Out::Leaf) }, _ => Step::Stop(Out::Stuck) } }
    }
}
pub open spec fn uhits(k: int) -> spec_fn(Seq<Cd>) -> bool { |c: Seq<Cd>| match node_of(c, s_idxarm(), 3) { Some(a) => num_of(a[0]) == Some(k), None => true } }
pub open spec fn run_uarm(c: Seq<Cd>, e: Est, b: Pb) -> Step<Est> {
    if node_of(c, s_idxarm(), 3) is Some { let a = node_of(c, s_idxarm(), 3)->0;
        match ev(a[2], 0, b) { Some((v, d)) => Step::Go(Est { v: e.v.insert(id_of(a[1])->0, Lv::O(Some(v))), k: e.k + 1, ..e }, d), None => Step::Stop(Out::Leaf) } }
    else if node_of(c, s_pusharm(), 2) is Some { let a = node_of(c, s_pusharm(), 2)->0; let t = id_of(a[0])->0;
        match (ev(a[1], 0, b), e.v[t]) { (Some((Fv::V(v), d)), Lv::L(l)) => Step::Go(Est { v: e.v.insert(t, Lv::L(l.push(v))), k: e.k + 1, ..e }, d), (None, _) => Step::Stop(Out::Leaf), _ => Step::Stop(Out::Stuck) } }
    else if node_of(c, s_manyarm(), 0) is Some { Step::Stop(Out::TooMany) }
    else { Step::Stop(Out::Stuck) }
}
pub open spec fn run_unnamed(c: Seq<Cd>, e: Est, b: Pb) -> Step<Est> {
    if node_of(c, s_unnamed(), 1) is Some {
        let l = reps(node_of(c, s_unnamed(), 1)->0[0]);
        if e.used { Step::Stop(Out::AfterNamed) } else { match first(l, uhits(e.k)) { Some(j) => run_uarm(l[j], e, b), None => Step::Stop(Out::Stuck) } }
    } else if node_of(c, s_nounnamed(), 0) is Some { Step::Stop(Out::TooMany) }
    else { Step::Stop(Out::Stuck) }
}
pub open spec fn tab_of(names: Seq<Cd>, rest: Seq<Cd>) -> Tab { Tab { names: Seq::new(reps(names).len(), |i: int| str_of(reps(names)[i])->0), rest: bool_of(rest) } }
pub open spec fn tabs_in(m: Seq<Seq<Cd>>) -> Tabs { Tabs { f: tab_of(m[1], m[2]), v: tab_of(m[3], m[4]), a: tab_of(m[5], m[6]), no_unnamed: bool_of(m[7]) } }
pub open spec fn snake_in(c: Seq<Cd>) -> bool { node_of(c, s_snake(), 0) is Some }
pub open spec fn e_step(m: Seq<Seq<Cd>>) -> spec_fn(Est, Pb) -> Step<Est> { |e: Est, c: Pb|
    match name_at(tabs_in(m), flt(snake_in(m[8])), c.toks) {
        Named::Unnamed => run_unnamed(m[10], e, c),
        Named::Err => Step::Stop(Out::Name(c)),
        Named::Taken(w, x, sp, n) => match first(reps(m[9]), hits(w, x)) { Some(j) => run_arm(reps(m[9])[j], x, sp, Est { used: true, ..e }, c.adv(n as int)), None => Step::Stop(Out::Stuck) },
    }
}
/// the expression of a field of the result: its value, or the message when it is missing
pub ghost enum Cv { Ok(Lv), Missing(Seq<char>), Stuck }
pub open spec fn cev(c: Seq<Cd>, v: Env) -> Cv {
    if id_of(c) is Some { Cv::Ok(v[id_of(c)->0]) }
    else if node_of(c, s_flag(), 1) is Some { match v[id_of(node_of(c, s_flag(), 1)->0[0])->0] { Lv::O(o) => Cv::Ok(Lv::G(o)), _ => Cv::Stuck } }
    else if node_of(c, s_issome(), 1) is Some { match v[id_of(node_of(c, s_issome(), 1)->0[0])->0] { Lv::O(o) => Cv::Ok(Lv::B(o is Some)), _ => Cv::Stuck } }
    else if node_of(c, s_need(), 2) is Some { let a = node_of(c, s_need(), 2)->0; match v[id_of(a[0])->0] { Lv::O(Some(x)) => Cv::Ok(Lv::V(x)), Lv::O(None) => Cv::Missing(str_of(a[1])->0), _ => Cv::Stuck } }
    else { Cv::Stuck }
}
/// the fields of the result one after the other; `names`: the fields they are for
pub open spec fn inits(l: Seq<Seq<Cd>>, v: Env) -> Res
    decreases l.len()
{
    if l.len() == 0 { Res::Done(Seq::empty(), arbitrary()) } else {
        match inits(l.drop_last(), v) { Res::Done(s, b) => match cev(l.last(), v) { Cv::Ok(x) => Res::Done(s.push(x), b), Cv::Missing(m) => Res::Missing(m), Cv::Stuck => Res::Stop(Out::Stuck) }, r => r }
    }
}
/// `{ name: value, .. }`, `( value, .. )` or nothing, against the fields
pub open spec fn ctor_of(c: Seq<Cd>, fs: Fields) -> Option<Seq<Seq<Cd>>> {
    match fs {
        Fields::Named(_) => match node_of(c, s_rec(), 1) {
            Some(a) => { let l = reps(a[0]); if l.len() == fs@.len() && forall|i: int| 0 <= i < l.len() ==> node_of(#[trigger] l[i], s_init(), 2) is Some && id_of(node_of(l[i], s_init(), 2)->0[0]) == Some(fs@[i].ident->0.text()) { Some(Seq::new(l.len(), |i: int| node_of(l[i], s_init(), 2)->0[1])) } else { None } },
            None => None,
        },
        Fields::Unnamed(_) => match node_of(c, s_tup(), 1) { Some(a) => Some(reps(a[0])), None => None },
        Fields::Unit => if c.len() == 0 { Some(Seq::empty()) } else { None },
    }
}
/// the body of the generated function
pub open spec fn run(code: Seq<Cd>, fs: Fields, b: Pb) -> Res {
    if code.len() == 0 || node_of(seq![code.last()], s_main(), 12) is None { Res::Stop(Out::Stuck) } else {
        let m = node_of(seq![code.last()], s_main(), 12)->0;
        match pre(code.drop_last(), b) {
            Pre::Stop(o) => Res::Stop(o),
            Pre::Go(v, c) => match looped(e_step(m), Est { v, k: 0, used: false }, bool_of(m[0]), c) {
                Out::End(e, d) => match ctor_of(m[11], fs) { Some(l) => match inits(l, e.v) { Res::Done(s, _) => Res::Done(s, d), r => r }, None => Res::Stop(Out::Stuck) },
                o => Res::Stop(o),
            },
        }
    }
}
/// what the function returns is what the definition asks for
pub open spec fn meets(fs: Seq<Field>, o: Out<Sst>, r: Res) -> bool {
    match (o, r) {
        (Out::End(s, b), Res::Done(v, d)) => b == d && v.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> want(#[trigger] fs[i], s.v[i]) == Some(v[i]),
        (Out::End(s, _), Res::Missing(m)) => exists|i: int| 0 <= i < fs.len() && want(#[trigger] fs[i], s.v[i]) is None && says_missing(m, form_of(fs[i])),
        (_, Res::Stop(q)) => !(o is End) && alike(|s: Sst, e: Est| true, o, q),
        _ => false,
    }
}

// ---- what each part of the generator has to deliver ----------------------------------------------
pub open spec fn c01_c16_value(c: Seq<Cd>, s: Sty, w: Style) -> bool { okv(c) && forall|sp: int, b: Pb| #[trigger] ev(c, sp, b) == value(s, w, sp, b) }
pub open spec fn c04_value(c: Seq<Cd>, t: Type) -> bool { okv(c) && forall|sp: int, b: Pb| #[trigger] ev(c, sp, b) == (match p_value(tyid(t), b) { Some((v, d)) => Some((Fv::V(v), d)), None => None }) }
/// the arm for the field a name belongs to, or for the rest map
pub open spec fn for_field(a: Seq<Cd>, x: Seq<Cd>, f: Field, i: int, w: Style) -> bool { id_of(a) == Some(tmp(i)) && c01_c16_value(x, sty_of(f), w) }
pub open spec fn c01_c02_c16_arm(c: Seq<Cd>, fs: Seq<Field>, t: Tabs) -> bool {
    match node_of(c, s_arm(), 5) {
        Some(a) => way_of(a[0]) is Some && num_of(a[1]) is Some && 0 <= num_of(a[1])->0 < t.of(way_of(a[0])->0).names.len()
            && exists|i: int| 0 <= i < fs.len() && named_as(#[trigger] fs[i], t.of(way_of(a[0])->0).names[num_of(a[1])->0]) && for_field(a[2], a[4], fs[i], i, way_of(a[0])->0),
        None => match node_of(c, s_restarm(), 3) {
            Some(a) => way_of(a[0]) is Some && exists|i: int| 0 <= i < fs.len() && is_rest(#[trigger] fs[i]) && for_field(a[1], a[2], fs[i], i, way_of(a[0])->0),
            None => false,
        },
    }
}
pub open spec fn c01_c02_c16_arms(l: Seq<Seq<Cd>>, fs: Seq<Field>, t: Tabs) -> bool { forall|j: int| 0 <= j < l.len() ==> c01_c02_c16_arm(#[trigger] l[j], fs, t) }
pub open spec fn hit(l: Seq<Seq<Cd>>, w: Style, x: Idx) -> bool { exists|j: int| 0 <= j < l.len() && hits(w, x)(#[trigger] l[j]) }
/// the first k entries of a style's table have an arm
pub open spec fn c01_covered(l: Seq<Seq<Cd>>, w: Style, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] hit_at(l, w, i) }
pub open spec fn hit_at(l: Seq<Seq<Cd>>, w: Style, i: int) -> bool { hit(l, w, Idx::At(i)) }
pub open spec fn hit_rest(l: Seq<Seq<Cd>>, w: Style, n: Seq<char>) -> bool { hit(l, w, Idx::Rest(n)) }
pub open spec fn c01_rest_covered(l: Seq<Seq<Cd>>, w: Style) -> bool { forall|n: Seq<char>| #[trigger] hit_rest(l, w, n) }
pub open spec fn c04_idxarm(c: Seq<Cd>, f: Field, i: int, j: int) -> bool { match node_of(c, s_idxarm(), 3) { Some(a) => num_of(a[0]) == Some(j) && id_of(a[1]) == Some(tmp(i)) && c04_value(a[2], type_of(f)), None => false } }
pub open spec fn c04_lastarm(c: Seq<Cd>, fs: Seq<Field>) -> bool {
    if any_variadic(fs) { let i = field_variadic(fs); match node_of(c, s_pusharm(), 2) { Some(a) => node_of(c, s_idxarm(), 3) is None && id_of(a[0]) == Some(tmp(i)) && c04_value(a[1], type_of(fs[i])), None => false } } else { node_of(c, s_manyarm(), 0) is Some }
}
#[verifier::opaque] pub open spec fn c04_uarms(l: Seq<Seq<Cd>>, fs: Seq<Field>, k: int) -> bool { l.len() == k && forall|j: int| 0 <= j < k ==> c04_idxarm(#[trigger] l[j], fs[opt_ix(fs)[j]], opt_ix(fs)[j], j) }
pub open spec fn c04_unnamed_code(c: Seq<Cd>, fs: Seq<Field>) -> bool {
    if !any_optional(fs) && !any_variadic(fs) { true } else {
        match node_of(c, s_unnamed(), 1) { Some(a) => { let l = reps(a[0]); l.len() > 0 && c04_uarms(l.drop_last(), fs, opt_ix(fs).len() as int) && c04_lastarm(l.last(), fs) }, None => false }
    }
}
pub open spec fn style_of(k: ArgKind) -> Style { match k { ArgKind::Flag => Style::Flag, ArgKind::NameValue => Style::NameValue, ArgKind::NameArgs => Style::NameArgs } }
pub open spec fn c01_way(c: Seq<Cd>, k: ArgKind) -> bool { way_of(c) == Some(style_of(k)) }
/// `input.parse::<T>()?` and the parenthesized ones
pub open spec fn c01_c04_parse(c: Seq<Cd>, t: Type) -> bool { ok0(c) && forall|b: Pb| #[trigger] ev0(c, b) == (match p_value(tyid(t), b) { Some((v, d)) => Some((Inner::V(v), d)), None => None }) }
pub open spec fn c01_args(c: Seq<Cd>, t: Type, vec: bool) -> bool {
    ok0(c) && forall|b: Pb| #[trigger] ev0(c, b) == (if vec { match p_list(tyid(t), b) { Some((v, d)) => Some((Inner::L(v), d)), None => None } } else { match p_args(tyid(t), b) { Some((v, d)) => Some((Inner::V(v), d)), None => None } })
}
pub open spec fn c01_c02_c16_named_arm(c: Seq<Cd>, n: Seq<char>, s: Sty, i: usize, w: Style) -> bool { match node_of(c, s_arm(), 5) { Some(a) => way_of(a[0]) == Some(w) && num_of(a[1]) == Some(i as int) && id_of(a[2]) == Some(n) && c01_c16_value(a[4], s, w), None => false } }
pub open spec fn c01_c02_c16_rest_arm(c: Seq<Cd>, n: Seq<char>, s: Sty, w: Style) -> bool { match node_of(c, s_restarm(), 3) { Some(a) => way_of(a[0]) == Some(w) && id_of(a[1]) == Some(n) && c01_c16_value(a[2], s, w), None => false } }
pub open spec fn c04_value_arm(c: Seq<Cd>, n: Seq<char>, t: Type, j: usize) -> bool { match node_of(c, s_idxarm(), 3) { Some(a) => num_of(a[0]) == Some(j as int) && id_of(a[1]) == Some(n) && c04_value(a[2], t), None => false } }
pub open spec fn c04_item_arm(c: Seq<Cd>, n: Seq<char>, t: Type) -> bool { match node_of(c, s_pusharm(), 2) { Some(a) => id_of(a[0]) == Some(n) && c04_value(a[1], t), None => false } }
pub open spec fn c04_let_parse(c: Seq<Cd>, n: Seq<char>, t: Type) -> bool { match node_of(c, s_letreq(), 2) { Some(a) => id_of(a[0]) == Some(n) && ty_of(a[1]) == Some(t), None => false } }
/// the first k required fields are read, those of `decl` start empty
#[verifier::opaque] pub open spec fn c03_c04_pre(code: Seq<Cd>, fs: Seq<Field>, k: int, decl: Set<int>) -> bool {
    &&& 0 <= k <= req_ix(fs).len()
    &&& forall|i: int| #[trigger] decl.contains(i) ==> 0 <= i < fs.len() && !is_required(fs[i])
    &&& forall|b: Pb| match (#[trigger] pre(code, b), pre_fields(fs, req_ix(fs).take(k), b)) {
        (Pre::Go(e, c), Pre::Go(v, d)) => c == d && (forall|j: int| 0 <= j < k ==> e[tmp(#[trigger] req_ix(fs)[j])] == v[req_ix(fs)[j]]) && (forall|i: int| #[trigger] decl.contains(i) ==> e[tmp(i)] == empty_of(fs[i])),
        (Pre::Stop(o), Pre::Stop(q)) => o == q,
        _ => false,
    }
}
pub open spec fn c03_lets(c: Seq<Cd>, n: Seq<char>, v: Lv) -> bool { c.len() == 1 && forall|e: Env, b: Pb| #[trigger] stmt(c[0], e, b) == Pre::Go(e.insert(n, v), b) }
pub open spec fn c03_let(c: Seq<Cd>, f: Field, i: int) -> bool { c03_lets(c, tmp(i), empty_of(f)) }
pub open spec fn c04_letreq(c: Seq<Cd>, f: Field, i: int) -> bool { match node_of(c, s_letreq(), 2) { Some(a) => id_of(a[0]) == Some(tmp(i)) && ty_of(a[1]) == Some(type_of(f)), None => false } }
pub open spec fn c03_c04_all(fs: Seq<Field>, k: int, decl: Set<int>) -> bool { k == req_ix(fs).len() && forall|i: int| 0 <= i < fs.len() && !is_required(#[trigger] fs[i]) ==> decl.contains(i) }
/// the expression of a field (without `name:`)
pub open spec fn c01_c03_gives(c: Seq<Cd>, f: Field, i: int) -> bool {
    forall|e: Env| (param_of(f) is Named ==> e[tmp(i)] is O) ==> match want(f, e[tmp(i)]) { Some(x) => #[trigger] cev(c, e) == Cv::Ok(x), None => match cev(c, e) { Cv::Missing(m) => says_missing(m, form_of(f)), _ => false } }
}
/// the expression of a field, with `name:` for a named one
pub open spec fn c01_c03_init(c: Seq<Cd>, f: Field, i: int) -> bool {
    match f.ident { Some(n) => match node_of(c, s_init(), 2) { Some(a) => id_of(a[0]) == Some(n.text()) && c01_c03_gives(a[1], f, i), None => false }, None => c01_c03_gives(c, f, i) }
}
pub open spec fn c01_c03_ctor(c: Seq<Cd>, fs: Fields) -> bool { match ctor_of(c, fs) { Some(l) => l.len() == fs@.len() && forall|i: int| 0 <= i < l.len() ==> c01_c03_gives(#[trigger] l[i], fs@[i], i), None => false } }
/// one field's expression has been put in its place
pub open spec fn put(a: Seq<TokenStream>, b: Seq<TokenStream>, k: int) -> bool { b.len() == a.len() && forall|j: int| 0 <= j < a.len() && j != k ==> #[trigger] b[j] == a[j] }
pub open spec fn c01_named(c: Seq<Cd>, f: Field, v: Seq<Cd>) -> bool { match f.ident { Some(n) => match node_of(c, s_init(), 2) { Some(a) => id_of(a[0]) == Some(n.text()) && a[1] == v, None => false }, None => c == v } }
pub open spec fn c01_put(a: Seq<TokenStream>, b: Seq<TokenStream>, i: ParamInfo, v: Seq<Cd>) -> bool { put(a, b, i.index as int) && c01_named(b[i.index as int].code(), *i.field, v) }
pub open spec fn c01_c03_put(a: Seq<TokenStream>, b: Seq<TokenStream>, i: ParamInfo) -> bool { put(a, b, i.index as int) && c01_c03_init(b[i.index as int].code(), *i.field, i.index as int) }
/// the tables given to try_parse_name
pub open spec fn c06_table(t: Tab, fs: Seq<Field>, w: Style) -> bool {
    (forall|n: Seq<char>| #[trigger] t.names.contains(n) == (exists|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w))) && t.rest == def_tab(fs, w).rest
}
pub open spec fn c06_tables(t: Tabs, fs: Seq<Field>) -> bool { c06_table(t.f, fs, Style::Flag) && c06_table(t.v, fs, Style::NameValue) && c06_table(t.a, fs, Style::NameArgs) && t.no_unnamed == def_tabs(fs).no_unnamed }
pub open spec fn c06_filter_code(c: Seq<Cd>, snake: bool) -> bool { if snake { node_of(c, s_snake(), 0) is Some } else { node_of(c, s_all(), 0) is Some } }
pub open spec fn c01_arms_all(l: Seq<Seq<Cd>>, t: Tabs) -> bool { forall|w: Style| #[trigger] c01_covered(l, w, t.of(w).names.len() as int) && (t.of(w).rest ==> c01_rest_covered(l, w)) }
pub open spec fn c05_first(c: Seq<Cd>, fs: Seq<Field>) -> bool { c.len() == 1 && c[0] == Cd::Bool(req_ix(fs).len() > 0) }

// ---- lemmas ------------------------------------------------------------------------------------
pub broadcast proof fn value_len(s: Sty, w: Style, sp: int, b: Pb) ensures match #[trigger] value(s, w, sp, b) { Some((_, d)) => d.toks.len() <= b.toks.len(), None => true } { broadcast use leaf_len; }
pub broadcast proof fn p_value_len(t: int, b: Pb) ensures match #[trigger] p_value(t, b) { Some((_, d)) => d.toks.len() <= b.toks.len(), None => true } { broadcast use leaf_len; }
pub proof fn lemma_idxs(fs: Seq<Field>, p: spec_fn(Field) -> bool)
    ensures forall|j: int| 0 <= j < idxs(fs, p).len() ==> 0 <= #[trigger] idxs(fs, p)[j] < fs.len() && p(fs[idxs(fs, p)[j]]),
        forall|j: int, k: int| 0 <= j < k < idxs(fs, p).len() ==> #[trigger] idxs(fs, p)[j] < #[trigger] idxs(fs, p)[k],
        forall|i: int| 0 <= i < fs.len() && p(#[trigger] fs[i]) ==> idxs(fs, p).contains(i),
    decreases fs.len()
{
    if fs.len() > 0 {
        let r = idxs(fs.drop_last(), p); let q = idxs(fs, p);
        lemma_idxs(fs.drop_last(), p);
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] q[j] == r[j] by {}
        assert forall|i: int| 0 <= i < fs.len() && p(#[trigger] fs[i]) implies q.contains(i) by {
            if i < fs.len() - 1 { assert(p(fs.drop_last()[i])); let j = choose|j: int| 0 <= j < r.len() && r[j] == i; assert(q[j] == i); } else { assert(q[q.len() - 1] == i); }
        }
        assert forall|j: int| 0 <= j < q.len() implies 0 <= #[trigger] q[j] < fs.len() && p(fs[q[j]]) by { if j < r.len() { assert(q[j] == r[j]); assert(p(fs.drop_last()[r[j]])); } }
    }
}
pub proof fn lemma_names_in(fs: Seq<Field>, w: Style, n: Seq<char>)
    ensures names_in(fs, w).contains(n) == (exists|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w))
    decreases fs.len()
{
    if fs.len() > 0 {
        let r = names_in(fs.drop_last(), w); let q = names_in(fs, w);
        lemma_names_in(fs.drop_last(), w, n);
        if r.contains(n) {
            let i = choose|i: int| 0 <= i < fs.len() - 1 && named_in(#[trigger] fs.drop_last()[i], n, w); assert(named_in(fs[i], n, w));
            let j = choose|j: int| 0 <= j < r.len() && r[j] == n; assert(q[j] == n);
        }
        if named_in(fs.last(), n, w) { assert(q == r.push(n)); assert(q[q.len() - 1] == n); assert(named_in(fs[fs.len() - 1], n, w)); }
        if exists|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w) { let i = choose|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w); if i < fs.len() - 1 { assert(named_in(fs.drop_last()[i], n, w)); } }
        if q.contains(n) && !r.contains(n) { let j = choose|j: int| 0 <= j < q.len() && q[j] == n; if j < r.len() { assert(r[j] == n); } assert(named_in(fs[fs.len() - 1], n, w)); }
    }
}
pub proof fn lemma_same_len(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires forall|n: Seq<char>| a.contains(n) == b.contains(n) ensures (a.len() > 0) == (b.len() > 0)
{ if a.len() > 0 { assert(a.contains(a[0])); } if b.len() > 0 { assert(b.contains(b[0])); } }
/// right tables classify as those of the definition
pub proof fn lemma_name_same(t: Tabs, fs: Seq<Field>, p: spec_fn(Seq<char>) -> bool, c: Seq<Tt>)
    requires c06_tables(t, fs)
    ensures match (name_at(t, p, c), name_at(def_tabs(fs), p, c)) {
        (Named::Taken(w, x, sp, n), Named::Taken(v, y, sq, m)) => w == v && sp == sq && n == m && n <= c.len() && match (x, y) {
            (Idx::At(i), Idx::At(j)) => 0 <= i < t.of(w).names.len() && 0 <= j < def_tabs(fs).of(w).names.len() && t.of(w).names[i] == def_tabs(fs).of(w).names[j],
            (Idx::Rest(a), Idx::Rest(b)) => a == b && t.of(w).rest,
            _ => false },
        (Named::Unnamed, Named::Unnamed) => !t.no_unnamed, (Named::Err, Named::Err) => true, _ => false },
{
    reveal(name_at);
    let d = def_tabs(fs);
    assert forall|w: Style| c06_table(#[trigger] t.of(w), fs, w) by {}
    assert forall|w: Style, n: Seq<char>| #[trigger] t.of(w).names.contains(n) == d.of(w).names.contains(n) by { lemma_names_in(fs, w, n); assert(c06_table(t.of(w), fs, w)); }
    assert forall|w: Style| #[trigger] t.of(w).declared() == d.of(w).declared() by { lemma_same_len(t.of(w).names, d.of(w).names); assert(c06_table(t.of(w), fs, w)); }
    if c.len() > 0 { match ident_head(c) { Some((n, sp)) => match written(c.skip(1)) { Some(w) => {
        assert(c06_table(t.of(w), fs, w)); assert(t.of(w).names.contains(n) == d.of(w).names.contains(n)); assert(t.of(w).declared() == d.of(w).declared());
        if t.of(w).names.contains(n) { t.of(w).names.index_of_first_ensures(n); d.of(w).names.index_of_first_ensures(n); }
    }, None => {} }, None => {} } }
}
pub open spec fn related(fs: Seq<Field>) -> spec_fn(Sst, Est) -> bool { |s: Sst, e: Est| s.k == e.k && s.k >= 0 && s.used == e.used && forall|i: int| 0 <= i < fs.len() ==> typed(#[trigger] fs[i], s.v[i]) && e.v[tmp(i)] == s.v[i] }
pub open spec fn typed(f: Field, v: Lv) -> bool { match param_of(f) { Par::Named(_, _, _) => v is O, Par::Rest(_) => v is M, Par::Unnamed(_, _, vec) => if vec { v is L } else { is_optional(f) ==> v is O }, Par::Bad => true } }
pub proof fn lemma_set(fs: Seq<Field>, s: Sst, e: Est, i: int, v: Lv, k: int, used: bool)
    requires fs.len() <= usize::MAX, related(fs)(s, e), 0 <= i < fs.len(), typed(fs[i], v), k >= 0
    ensures related(fs)(Sst { v: s.v.insert(i, v), k, used }, Est { v: e.v.insert(tmp(i), v), k, used })
{
    let (s2, e2) = (Sst { v: s.v.insert(i, v), k, used }, Est { v: e.v.insert(tmp(i), v), k, used });
    assert forall|j: int| 0 <= j < fs.len() implies typed(#[trigger] fs[j], s2.v[j]) && e2.v[tmp(j)] == s2.v[j] by { if j != i { if tmp(j) == tmp(i) { lemma_tmp(i, j); } assert(typed(fs[j], s.v[j])); } }
}
pub proof fn lemma_unique_name(fs: Seq<Field>, i: int, j: int, n: Seq<char>)
    requires c09_well_formed(fs), 0 <= i < fs.len(), 0 <= j < fs.len(), named_as(fs[i], n), named_as(fs[j], n) ensures i == j
{ if i < j { assert(!clash(fs[i], fs[j])); } else if j < i { assert(!clash(fs[j], fs[i])); } }
pub proof fn lemma_unique_rest(fs: Seq<Field>, i: int, j: int)
    requires c09_well_formed(fs), 0 <= i < fs.len(), 0 <= j < fs.len(), is_rest(fs[i]), is_rest(fs[j]) ensures i == j
{ if i < j { assert(!clash(fs[i], fs[j])); } else if j < i { assert(!clash(fs[j], fs[i])); } }
pub proof fn lemma_unique_variadic(fs: Seq<Field>, i: int, j: int)
    requires c09_well_formed(fs), 0 <= i < fs.len(), 0 <= j < fs.len(), is_variadic(fs[i]), is_variadic(fs[j]) ensures i == j
{ reveal(c04_uarms); if i < j { assert(!clash(fs[i], fs[j])); } else if j < i { assert(!clash(fs[j], fs[i])); } }
pub open spec fn main_ok(m: Seq<Seq<Cd>>, fs: Seq<Field>, snake: bool) -> bool {
    &&& c06_tables(tabs_in(m), fs) && c06_filter_code(m[8], snake)
    &&& c01_c02_c16_arms(reps(m[9]), fs, tabs_in(m)) && c01_arms_all(reps(m[9]), tabs_in(m))
    &&& c04_unnamed_code(m[10], fs)
}
pub proof fn lemma_step(m: Seq<Seq<Cd>>, fs: Seq<Field>, snake: bool, s: Sst, e: Est, c: Pb)
    requires main_ok(m, fs, snake), c09_well_formed(fs), fs.len() <= usize::MAX, related(fs)(s, e)
    ensures step_alike(related(fs), c, c_step(fs, snake)(s, c), e_step(m)(e, c))
{
    broadcast use value_len, p_value_len;
    let t = tabs_in(m); let d = def_tabs(fs); let p = flt(snake); let l = reps(m[9]);
    assert(snake_in(m[8]) == snake);
    lemma_name_same(t, fs, p, c.toks);
    match (name_at(t, p, c.toks), name_at(d, p, c.toks)) {
        (Named::Taken(w, x, sp, n), Named::Taken(_, y, _, _)) => {
            assert(c01_covered(l, w, t.of(w).names.len() as int));
            assert(hit(l, w, x)) by { match x { Idx::At(i) => { assert(hit_at(l, w, i)); } Idx::Rest(q) => { assert(c01_rest_covered(l, w)); assert(hit_rest(l, w, q)); } } }
            let j0 = choose|j: int| 0 <= j < l.len() && hits(w, x)(#[trigger] l[j]);
            lemma_first_arm(l, hits(w, x), j0);
            let j = first(l, hits(w, x))->0;
            assert(c01_c02_c16_arm(l[j], fs, t));
            assert(hits(w, x)(l[j]));
            lemma_arm(l[j], m, fs, w, x, y, sp, Sst { used: true, ..s }, Est { used: true, ..e }, c.adv(n as int));
        }
        (Named::Unnamed, Named::Unnamed) => { lemma_unnamed(m, fs, s, e, c); }
        _ => {}
    }
}
pub proof fn lemma_arm(a: Seq<Cd>, m: Seq<Seq<Cd>>, fs: Seq<Field>, w: Style, x: Idx, y: Idx, sp: int, s: Sst, e: Est, d: Pb)
    requires c01_c02_c16_arm(a, fs, tabs_in(m)), hits(w, x)(a), c09_well_formed(fs), fs.len() <= usize::MAX, related(fs)(s, e),
        match (x, y) { (Idx::At(i), Idx::At(j)) => 0 <= i < tabs_in(m).of(w).names.len() && tabs_in(m).of(w).names[i] == def_tabs(fs).of(w).names[j], (Idx::Rest(p), Idx::Rest(q)) => p == q, _ => false },
    ensures step_alike(related(fs), d, match y { Idx::At(j) => named_arg(fs, field_named(fs, def_tabs(fs).of(w).names[j]), w, sp, s, d), Idx::Rest(n) => rest_arg(fs, n, w, sp, s, d) }, run_arm(a, x, sp, e, d))
{
    broadcast use value_len;
    match (x, y) {
        (Idx::At(i), Idx::At(j)) => {
            let q = node_of(a, s_arm(), 5)->0; let n = tabs_in(m).of(w).names[i];
            let f = choose|f: int| 0 <= f < fs.len() && named_as(#[trigger] fs[f], n) && for_field(q[2], q[4], fs[f], f, w);
            assert(named_as(fs[f], n));
            let g = field_named(fs, n);
            assert(0 <= g < fs.len() && named_as(fs[g], n));
            lemma_unique_name(fs, f, g, n);
            assert(ev(q[4], sp, d) == value(sty_of(fs[f]), w, sp, d));
            assert(typed(fs[f], s.v[f]) && e.v[tmp(f)] == s.v[f]);
            match value(sty_of(fs[f]), w, sp, d) { Some((v, h)) => { lemma_set(fs, s, e, f, Lv::O(Some(v)), s.k, s.used); }, None => {} }
        }
        (Idx::Rest(n), Idx::Rest(_)) => {
            let q = node_of(a, s_restarm(), 3)->0;
            let f = choose|f: int| 0 <= f < fs.len() && is_rest(#[trigger] fs[f]) && for_field(q[1], q[2], fs[f], f, w);
            assert(is_rest(fs[f]));
            let g = field_rest(fs);
            assert(0 <= g < fs.len() && is_rest(fs[g]));
            lemma_unique_rest(fs, f, g);
            assert(ev(q[2], sp, d) == value(sty_of(fs[f]), w, sp, d));
            assert(typed(fs[f], s.v[f]) && e.v[tmp(f)] == s.v[f]);
            match (value(sty_of(fs[f]), w, sp, d), s.v[f]) { (Some((v, h)), Lv::M(mm)) => { lemma_set(fs, s, e, f, Lv::M(mm.insert(n, v)), s.k, s.used); }, _ => {} }
        }
        _ => {}
    }
}
pub proof fn lemma_unnamed(m: Seq<Seq<Cd>>, fs: Seq<Field>, s: Sst, e: Est, c: Pb)
    requires c04_unnamed_code(m[10], fs), any_optional(fs) || any_variadic(fs), c09_well_formed(fs), fs.len() <= usize::MAX, related(fs)(s, e)
    ensures step_alike(related(fs), c, unnamed_arg(fs, s, c), run_unnamed(m[10], e, c))
{ reveal(c04_uarms);
    broadcast use p_value_len;
    let l = reps(node_of(m[10], s_unnamed(), 1)->0[0]); let o = opt_ix(fs); let k = s.k; let p = uhits(k);
    lemma_idxs(fs, |f: Field| is_optional(f));
    assert(l.len() == o.len() + 1);
    assert forall|j: int| 0 <= j < o.len() implies c04_idxarm(#[trigger] l[j], fs[o[j]], o[j], j) by { assert(l.drop_last()[j] == l[j]); }
    let last = o.len() as int;
    if k < last { assert(p(l[k])); lemma_first_arm(l, p, k); } else { assert(p(l[last])); lemma_first_arm(l, p, last); }
    let j = first(l, p)->0;
    if j < last { assert(c04_idxarm(l[j], fs[o[j]], o[j], j)); assert(p(l[j])); assert(j == k); } else { assert(j == last && k >= last); }
    if k < last {
        let i = o[k]; assert(is_optional(fs[i])); assert(typed(fs[i], s.v[i]) && e.v[tmp(i)] == s.v[i]);
        let a = node_of(l[k], s_idxarm(), 3)->0; assert(ev(a[2], 0, c) == ev(a[2], 0, c));
        match p_value(tyid(type_of(fs[i])), c) { Some((v, d)) => { lemma_set(fs, s, e, i, Lv::O(Some(Fv::V(v))), k + 1, s.used); }, None => {} }
    } else if any_variadic(fs) {
        let i = field_variadic(fs); assert(0 <= i < fs.len() && is_variadic(fs[i])); assert(typed(fs[i], s.v[i]) && e.v[tmp(i)] == s.v[i]);
        let a = node_of(l.last(), s_pusharm(), 2)->0; assert(ev(a[1], 0, c) == ev(a[1], 0, c));
        match (p_value(tyid(type_of(fs[i])), c), s.v[i]) { (Some((v, d)), Lv::L(q)) => { lemma_set(fs, s, e, i, Lv::L(q.push(v)), k + 1, s.used); }, _ => {} }
    }
}

// ---- the statements in front of the loop ---------------------------------------------------------
pub proof fn lemma_pre_add(code: Seq<Cd>, c: Seq<Cd>, b: Pb)
    requires c.len() == 1
    ensures pre(code + c, b) == (match pre(code, b) { Pre::Go(v, d) => stmt(c[0], v, d), s => s })
{ assert((code + c).drop_last() =~= code); assert((code + c).last() == c[0]); }
pub proof fn c03_declare(code: Seq<Cd>, c: Seq<Cd>, fs: Seq<Field>, k: int, decl: Set<int>, i: int)
    requires c03_c04_pre(code, fs, k, decl), c03_let(c, fs[i], i), 0 <= i < fs.len() <= usize::MAX, !is_required(fs[i])
    ensures c03_c04_pre(code + c, fs, k, decl.insert(i))
{ reveal(c03_c04_pre);
    let rq = req_ix(fs); let d2 = decl.insert(i);
    lemma_idxs(fs, |f: Field| is_required(f));
    assert forall|b: Pb| match (#[trigger] pre(code + c, b), pre_fields(fs, rq.take(k), b)) {
        (Pre::Go(e, c), Pre::Go(v, d)) => c == d && (forall|j: int| 0 <= j < k ==> e[tmp(#[trigger] rq[j])] == v[rq[j]]) && (forall|i: int| #[trigger] d2.contains(i) ==> e[tmp(i)] == empty_of(fs[i])),
        (Pre::Stop(o), Pre::Stop(q)) => o == q, _ => false } by {
        lemma_pre_add(code, c, b);
        match (pre(code, b), pre_fields(fs, rq.take(k), b)) {
            (Pre::Go(e, d), Pre::Go(v, _)) => {
                assert(stmt(c[0], e, d) == Pre::Go(e.insert(tmp(i), empty_of(fs[i])), d));
                let e2 = e.insert(tmp(i), empty_of(fs[i]));
                assert forall|j: int| 0 <= j < k implies e2[tmp(#[trigger] rq[j])] == v[rq[j]] by { assert(is_required(fs[rq[j]])); if tmp(rq[j]) == tmp(i) { lemma_tmp(rq[j], i); } }
                assert forall|h: int| #[trigger] d2.contains(h) implies e2[tmp(h)] == empty_of(fs[h]) by { if h != i { assert(decl.contains(h)); if tmp(h) == tmp(i) { lemma_tmp(h, i); } } }
            }
            _ => {}
        }
    }
}
pub proof fn c04_required(code: Seq<Cd>, comma: Seq<Cd>, c: Seq<Cd>, fs: Seq<Field>, k: int, decl: Set<int>)
    requires c03_c04_pre(code, fs, k, decl), k < req_ix(fs).len(), c04_letreq(c, fs[req_ix(fs)[k]], req_ix(fs)[k]), fs.len() <= usize::MAX,
        k > 0 ==> node_of(comma, s_comma(), 1) is Some, k == 0 ==> comma.len() == 0
    ensures c03_c04_pre(code + comma + c, fs, k + 1, decl)
{ reveal(c03_c04_pre);
    let rq = req_ix(fs); let i = rq[k];
    lemma_idxs(fs, |f: Field| is_required(f));
    assert(rq.take(k + 1).drop_last() =~= rq.take(k)); assert(rq.take(k + 1).last() == i);
    if k == 0 { assert(code + comma =~= code); }
    assert forall|b: Pb| match (#[trigger] pre(code + comma + c, b), pre_fields(fs, rq.take(k + 1), b)) {
        (Pre::Go(e, c), Pre::Go(v, d)) => c == d && (forall|j: int| 0 <= j < k + 1 ==> e[tmp(#[trigger] rq[j])] == v[rq[j]]) && (forall|i: int| #[trigger] decl.contains(i) ==> e[tmp(i)] == empty_of(fs[i])),
        (Pre::Stop(o), Pre::Stop(q)) => o == q, _ => false } by {
        lemma_pre_add(code + comma, c, b);
        if k > 0 { lemma_pre_add(code, comma, b); }
        assert(seq![c[0]] =~= c);
        if k > 0 { assert(seq![comma[0]] =~= comma); }
        match (pre(code, b), pre_fields(fs, rq.take(k), b)) {
            (Pre::Go(e, d), Pre::Go(v, _)) => {
                let d2 = if k > 0 { d.adv(1) } else { d };
                if !(k > 0 && (d.toks.len() == 0 || !punct1(d.toks, ','))) {
                    match p_value(tyid(type_of(fs[i])), d2) { Some((x, h)) => {
                        let e2 = e.insert(tmp(i), Lv::V(Fv::V(x))); let v2 = v.insert(i, Lv::V(Fv::V(x)));
                        assert(pre(code + comma + c, b) == Pre::Go(e2, h));
                        assert(pre_fields(fs, rq.take(k + 1), b) == Pre::Go(v2, h));
                        assert forall|j: int| 0 <= j < k + 1 implies e2[tmp(#[trigger] rq[j])] == v2[rq[j]] by { if j < k { assert(rq[j] < rq[k]); if tmp(rq[j]) == tmp(i) { lemma_tmp(rq[j], i); } } }
                        assert forall|h: int| #[trigger] decl.contains(h) implies e2[tmp(h)] == empty_of(fs[h]) by { if tmp(h) == tmp(i) { lemma_tmp(h, i); } }
                    } None => {} }
                }
            }
            _ => {}
        }
    }
}
pub proof fn lemma_pre_stops(fs: Seq<Field>, rq: Seq<int>, b: Pb)
    ensures match pre_fields(fs, rq, b) { Pre::Stop(o) => o is TooFew || o is Sep || o is Leaf, _ => true }
    decreases rq.len()
{ if rq.len() > 0 { lemma_pre_stops(fs, rq.drop_last(), b); } }

// ---- the fields of the result --------------------------------------------------------------------
pub proof fn lemma_inits(l: Seq<Seq<Cd>>, fs: Seq<Field>, s: Map<int, Lv>, e: Env)
    requires l.len() <= fs.len(), forall|i: int| 0 <= i < l.len() ==> c01_c03_gives(#[trigger] l[i], fs[i], i),
        forall|i: int| 0 <= i < fs.len() ==> typed(#[trigger] fs[i], s[i]) && e[tmp(i)] == s[i]
    ensures match inits(l, e) {
        Res::Done(v, _) => v.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> want(#[trigger] fs[i], s[i]) == Some(v[i]),
        Res::Missing(m) => exists|i: int| 0 <= i < fs.len() && want(#[trigger] fs[i], s[i]) is None && says_missing(m, form_of(fs[i])),
        Res::Stop(_) => false }
    decreases l.len()
{
    if l.len() > 0 {
        let i = l.len() - 1;
        lemma_inits(l.drop_last(), fs, s, e);
        assert(c01_c03_gives(l[i], fs[i], i)); assert(typed(fs[i], s[i]) && e[tmp(i)] == s[i]);
        assert(cev(l[i], e) == cev(l[i], e));
        match inits(l.drop_last(), e) { Res::Done(v, b) => { match want(fs[i], s[i]) { Some(x) => { assert(inits(l, e) == Res::Done(v.push(x), b)); assert forall|j: int| 0 <= j < l.len() implies want(#[trigger] fs[j], s[j]) == Some(v.push(x)[j]) by {} } None => {} } } _ => {} }
    }
}
pub proof fn c01_c03_construct(l: Seq<Seq<Cd>>, c: Seq<Cd>, fs: Fields)
    requires syn_fields(fs), l.len() == fs@.len(), forall|i: int| 0 <= i < l.len() ==> c01_c03_init(#[trigger] l[i], fs@[i], i),
        match fs { Fields::Named(_) => c == seq![Cd::N(s_rec(), seq![seq![Cd::R(l)]])], Fields::Unnamed(_) => c == seq![Cd::N(s_tup(), seq![seq![Cd::R(l)]])], Fields::Unit => c.len() == 0 }
    ensures c01_c03_ctor(c, fs)
{
    match fs {
        Fields::Named(_) => {
            assert(node_of(c, s_rec(), 1) == Some(seq![seq![Cd::R(l)]]));
            assert(reps(seq![seq![Cd::R(l)]][0]) == l);
            assert forall|i: int| 0 <= i < l.len() implies node_of(#[trigger] l[i], s_init(), 2) is Some && id_of(node_of(l[i], s_init(), 2)->0[0]) == Some(fs@[i].ident->0.text()) && c01_c03_gives(node_of(l[i], s_init(), 2)->0[1], fs@[i], i) by { assert(c01_c03_init(l[i], fs@[i], i)); assert(fs@[i].ident is Some); }
        }
        Fields::Unnamed(_) => {
            assert(node_of(c, s_tup(), 1) == Some(seq![seq![Cd::R(l)]]));
            assert(reps(seq![seq![Cd::R(l)]][0]) == l);
            assert forall|i: int| 0 <= i < l.len() implies c01_c03_gives(#[trigger] l[i], fs@[i], i) by { assert(c01_c03_init(l[i], fs@[i], i)); assert(fs@[i].ident is None); }
        }
        Fields::Unit => {}
    }
}
// ---- the whole function --------------------------------------------------------------------------
pub open spec fn main_of(code: Seq<Cd>) -> Seq<Seq<Cd>> { node_of(seq![code.last()], s_main(), 12)->0 }
pub open spec fn is_main(code: Seq<Cd>) -> bool { code.len() > 0 && node_of(seq![code.last()], s_main(), 12) is Some }
/// what derive(StructMeta) guarantees of the function it generates, for every input
pub open spec fn c01_c02_c03_c04_c05_meets(fs: Fields, snake: bool, code: Seq<Cd>) -> bool { forall|b: Pb| meets(fs@, sem(fs@, snake, b), #[trigger] run(code, fs, b)) }
pub proof fn lemma_meets(code: Seq<Cd>, fs: Fields, snake: bool, decl: Set<int>)
    requires is_main(code), main_ok(main_of(code), fs@, snake), c05_first(main_of(code)[0], fs@),
        c03_c04_pre(code.drop_last(), fs@, req_ix(fs@).len() as int, decl), c03_c04_all(fs@, req_ix(fs@).len() as int, decl),
        c01_c03_ctor(main_of(code)[11], fs), c09_well_formed(fs@), fs@.len() <= usize::MAX
    ensures c01_c02_c03_c04_c05_meets(fs, snake, code)
{ reveal(c03_c04_pre);
    let m = main_of(code); let rq = req_ix(fs@);
    lemma_idxs(fs@, |f: Field| is_required(f));
    assert forall|s: Sst, e: Est, c: Pb| related(fs@)(s, e) && c.toks.len() > 0 implies step_alike(related(fs@), c, #[trigger] c_step(fs@, snake)(s, c), #[trigger] e_step(m)(e, c)) by { lemma_step(m, fs@, snake, s, e, c); }
    assert forall|b: Pb| meets(fs@, sem(fs@, snake, b), #[trigger] run(code, fs, b)) by {
        assert(rq.take(rq.len() as int) =~= rq);
        lemma_pre_stops(fs@, rq, b);
        match (pre(code.drop_last(), b), pre_fields(fs@, rq, b)) {
            (Pre::Go(e, c), Pre::Go(v, _)) => {
                let (s0, e0) = (Sst { v: with_empty(fs@, v), k: 0, used: false }, Est { v: e, k: 0, used: false });
                assert forall|i: int| 0 <= i < fs@.len() implies typed(#[trigger] fs@[i], s0.v[i]) && e0.v[tmp(i)] == s0.v[i] by {
                    if is_required(fs@[i]) { assert(rq.contains(i)); let j = choose|j: int| 0 <= j < rq.len() && rq[j] == i; assert(e[tmp(rq[j])] == v[rq[j]]); } else { assert(decl.contains(i)); }
                }
                assert(related(fs@)(s0, e0));
                lemma_looped(related(fs@), c_step(fs@, snake), e_step(m), s0, e0, rq.len() > 0, c);
                match (looped(c_step(fs@, snake), s0, rq.len() > 0, c), looped(e_step(m), e0, rq.len() > 0, c)) {
                    (Out::End(s, d), Out::End(x, _)) => { lemma_inits(ctor_of(m[11], fs)->0, fs@, s.v, x.v); }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
/// the two messages
pub proof fn c03_messages(n: Seq<char>)
    ensures says_missing("missing argument `"@ + n + " = ...`"@, n + " = ..."@), says_missing("missing argument `"@ + n + "(...)`"@, n + "(...)"@)
{ reveal(c01_c03_exprs);
    reveal_strlit("missing argument `"); reveal_strlit(" = ...`"); reveal_strlit("(...)`"); reveal_strlit(" = ..."); reveal_strlit("(...)"); reveal_strlit("missing");
    let a = "missing argument `"@; let (c, d) = (" = ...`"@, "(...)`"@);
    assert(a.len() == 18 && c.len() == 7 && d.len() == 6 && "missing"@.len() == 7 && " = ..."@.len() == 6 && "(...)"@.len() == 5);
    assert forall|j: int| 0 <= j < 7 implies a[j] == #[trigger] "missing"@[j] by { assert(a.take(7) =~= "missing"@); assert(a.take(7)[j] == a[j]); }
    assert(c.take(6) =~= " = ..."@); assert(d.take(5) =~= "(...)"@);
    let (f, g) = (n + " = ..."@, n + "(...)"@);
    assert forall|j: int| 0 <= j < f.len() implies (a + n + c)[18 + j] == #[trigger] f[j] by { if j >= n.len() { assert(c.take(6)[j - n.len()] == c[j - n.len()]); } }
    assert forall|j: int| 0 <= j < g.len() implies (a + n + d)[18 + j] == #[trigger] g[j] by { if j >= n.len() { assert(d.take(5)[j - n.len()] == d[j - n.len()]); } }
    lemma_mentions(a + n + c, "missing"@, 0); lemma_mentions(a + n + d, "missing"@, 0);
    lemma_mentions(a + n + c, f, 18); lemma_mentions(a + n + d, g, 18);
}
// ---- Params::build, statement by statement -------------------------------------------------------
/// these fields have their expression
#[verifier::opaque] pub open spec fn c01_c03_exprs(v: Seq<TokenStream>, fs: Seq<Field>, got: Set<int>) -> bool { v.len() == fs.len() && forall|i: int| #[trigger] got.contains(i) ==> 0 <= i < fs.len() && c01_c03_init(v[i].code(), fs[i], i) }
pub proof fn c01_c03_expr(a: Seq<TokenStream>, b: Seq<TokenStream>, fs: Seq<Field>, got: Set<int>, info: ParamInfo)
    requires c01_c03_exprs(a, fs, got), c01_c03_put(a, b, info), info_ok(info, fs)
    ensures c01_c03_exprs(b, fs, got.insert(info.index as int))
{ reveal(c01_c03_exprs);
    assert forall|i: int| #[trigger] got.insert(info.index as int).contains(i) implies 0 <= i < fs.len() && c01_c03_init(b[i].code(), fs[i], i) by { if i != info.index { assert(got.contains(i)); } }
}
pub proof fn lemma_required_type(f: Field) requires is_required(f) ensures type_of(f) == f.ty {}
/// one more required field: [the comma] and its `let`
pub proof fn c04_required_next(a: Seq<Cd>, b: Seq<Cd>, fs: Seq<Field>, k: int, decl: Set<int>, p: UnnamedParam)
    requires c03_c04_pre(a, fs, k, decl), 0 <= k < req_ix(fs).len(), p.info.index == req_ix(fs)[k], unnamed_ok(p, fs), fs.len() <= usize::MAX,
        b.len() == a.len() + (if k > 0 { 2int } else { 1 }), b.take(a.len() as int) =~= a, k > 0 ==> node_of(seq![b[a.len() as int]], s_comma(), 1) is Some,
        c04_let_parse(seq![b.last()], p.info.temp_ident.text(), p.info.field.ty)
    ensures c03_c04_pre(b, fs, k + 1, decl)
{ reveal(c03_c04_pre);
    lemma_idxs(fs, |f: Field| is_required(f)); lemma_required_type(fs[req_ix(fs)[k]]);
    let comma = if k > 0 { seq![b[a.len() as int]] } else { Seq::empty() };
    c04_required(a, comma, seq![b.last()], fs, k, decl);
    assert(a + comma + seq![b.last()] =~= b) by { assert(forall|i: int| 0 <= i < a.len() ==> #[trigger] b.take(a.len() as int)[i] == b[i]); }
}
/// one more field that starts empty
pub proof fn c03_declare_next(a: Seq<Cd>, b: Seq<Cd>, fs: Seq<Field>, k: int, decl: Set<int>, info: ParamInfo)
    requires c03_c04_pre(a, fs, k, decl), info_ok(info, fs), c01_c04_temp(info), !is_required(fs[info.index as int]), fs.len() <= usize::MAX,
        b.len() == a.len() + 1, b.drop_last() =~= a, c03_lets(seq![b.last()], info.temp_ident.text(), empty_of(fs[info.index as int]))
    ensures c03_c04_pre(b, fs, k, decl.insert(info.index as int))
{ reveal(c03_c04_pre); c03_declare(a, seq![b.last()], fs, k, decl, info.index as int); assert(a + seq![b.last()] =~= b); }
pub open spec fn c03_one_more(a: Seq<Cd>, c: Seq<Cd>) -> bool { c.len() == a.len() + 1 && c.drop_last() =~= a }
pub open spec fn c04_one_more(a: Seq<Cd>, c: Seq<Cd>, first: bool) -> bool { c.len() == a.len() + (if first { 1int } else { 2 }) && c.take(a.len() as int) =~= a && (!first ==> node_of(seq![c[a.len() as int]], s_comma(), 1) is Some) }
pub open spec fn c01_one_more(a: Seq<TokenStream>, b: Seq<TokenStream>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a }
pub open spec fn c04_opt_more(a: Seq<TokenStream>, b: Seq<TokenStream>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a }
pub open spec fn c01_c06_at(t: Tab, i: int, n: Seq<char>) -> bool { 0 <= i < t.names.len() && t.names[i] == n }
pub open spec fn c04_counted(k: int, n: int) -> bool { k == n }
/// how far Params::build has got: which fields are declared, which have their expression; required, optional, variadic, named, rest parameters done
pub ghost struct Bs { pub decl: Set<int>, pub got: Set<int>, pub req: int, pub opt: int, pub var: bool, pub named: int, pub rest: bool }
#[verifier::opaque] pub open spec fn c01_c03_c04_sofar<'a>(p: Params<'a>, code: Seq<Cd>, args: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs) -> bool {
    let fs = p.fields@;
    &&& c03_c04_pre(code, fs, b.req, b.decl) && c01_c03_exprs(args, fs, b.got)
    &&& forall|j: int| 0 <= j < b.req ==> b.got.contains(#[trigger] req_ix(fs)[j])
    &&& forall|j: int| 0 <= j < b.opt ==> b.decl.contains(#[trigger] opt_ix(fs)[j]) && b.got.contains(opt_ix(fs)[j])
    &&& b.var && p.unnamed_variadic is Some ==> b.decl.contains(p.unnamed_variadic->0.info.index as int) && b.got.contains(p.unnamed_variadic->0.info.index as int)
    &&& 0 <= b.named <= s.len() && forall|j: int| 0 <= j < b.named ==> b.decl.contains((#[trigger] s[j]).info.index as int) && b.got.contains(s[j].info.index as int)
    &&& b.rest && p.rest is Some ==> b.decl.contains(p.rest->0.info.index as int) && b.got.contains(p.rest->0.info.index as int)
}
pub open spec fn bs0() -> Bs { Bs { decl: Set::empty(), got: Set::empty(), req: 0, opt: 0, var: false, named: 0, rest: false } }
pub proof fn lemma_start<'a>(p: Params<'a>, code: Seq<Cd>, args: Seq<TokenStream>)
    requires params_full(p), code.len() == 0, args.len() == p.fields@.len() ensures c01_c03_c04_sofar(p, code, args, Seq::empty(), bs0())
{ reveal(c01_c03_c04_sofar); reveal(c03_c04_pre); reveal(c01_c03_exprs); assert(req_ix(p.fields@).take(0) =~= Seq::<int>::empty()); }
pub proof fn c04_step_required<'a>(p: Params<'a>, a: Seq<Cd>, c: Seq<Cd>, u: Seq<TokenStream>, v: Seq<TokenStream>, b: Bs) -> (r: Bs)
    requires params_full(p), c01_c03_c04_sofar(p, a, u, Seq::empty(), b), 0 <= b.req < p.unnamed_required@.len(), p.fields@.len() <= usize::MAX,
        c04_one_more(a, c, b.req == 0),
        c04_let_parse(seq![c.last()], p.unnamed_required@[b.req].info.temp_ident.text(), p.unnamed_required@[b.req].info.field.ty),
        c01_c03_put(u, v, p.unnamed_required@[b.req].info)
    ensures r.req == b.req + 1, r.opt == b.opt, r.var == b.var, r.named == b.named, r.rest == b.rest, c01_c03_c04_sofar(p, c, v, Seq::empty(), r)
{
    reveal(c01_c03_c04_sofar); let fs = p.fields@; let q = p.unnamed_required@[b.req];
    lemma_full_required(p, b.req);
    c04_required_next(a, c, fs, b.req, b.decl, q); c01_c03_expr(u, v, fs, b.got, q.info);
    let r = Bs { got: b.got.insert(q.info.index as int), req: b.req + 1, ..b };
    assert forall|j: int| 0 <= j < r.req implies r.got.contains(#[trigger] req_ix(fs)[j]) by { if j < b.req { assert(b.got.contains(req_ix(fs)[j])); } }
    r
}
pub proof fn lemma_declared<'a>(p: Params<'a>, a: Seq<Cd>, c: Seq<Cd>, u: Seq<TokenStream>, v: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs, i: ParamInfo) -> (r: Bs)
    requires c01_c03_c04_sofar(p, a, u, s, b), c01_c03_put(u, v, i), info_ok(i, p.fields@), c01_c04_temp(i), !is_required(p.fields@[i.index as int]), p.fields@.len() <= usize::MAX,
        c03_one_more(a, c), c03_lets(seq![c.last()], i.temp_ident.text(), empty_of(p.fields@[i.index as int])), b.req == req_ix(p.fields@).len()
    ensures r == (Bs { decl: b.decl.insert(i.index as int), got: b.got.insert(i.index as int), ..b }), c01_c03_c04_sofar(p, c, v, s, r)
{
    reveal(c01_c03_c04_sofar); let fs = p.fields@;
    c03_declare_next(a, c, fs, b.req, b.decl, i); c01_c03_expr(u, v, fs, b.got, i);
    let r = Bs { decl: b.decl.insert(i.index as int), got: b.got.insert(i.index as int), ..b };
    assert forall|j: int| 0 <= j < r.named implies r.decl.contains((#[trigger] s[j]).info.index as int) && r.got.contains(s[j].info.index as int) by { assert(b.decl.contains(s[j].info.index as int)); }
    r
}
pub proof fn c03_step_optional<'a>(p: Params<'a>, a: Seq<Cd>, c: Seq<Cd>, u: Seq<TokenStream>, v: Seq<TokenStream>, b: Bs) -> (r: Bs)
    requires params_full(p), c01_c03_c04_sofar(p, a, u, Seq::empty(), b), 0 <= b.opt < p.unnamed_optional@.len(), b.req == p.unnamed_required@.len(), p.fields@.len() <= usize::MAX,
        c03_one_more(a, c), c03_lets(seq![c.last()], p.unnamed_optional@[b.opt].info.temp_ident.text(), Lv::O(None)), c01_c03_put(u, v, p.unnamed_optional@[b.opt].info)
    ensures r.req == b.req, r.opt == b.opt + 1, r.var == b.var, r.named == b.named, r.rest == b.rest, c01_c03_c04_sofar(p, c, v, Seq::empty(), r)
{
    let fs = p.fields@; let q = p.unnamed_optional@[b.opt];
    lemma_full(p); lemma_full_optional(p, b.opt);
    let r = lemma_declared(p, a, c, u, v, Seq::empty(), b, q.info);
    reveal(c01_c03_c04_sofar);
    let r = Bs { opt: b.opt + 1, ..r };
    assert forall|j: int| 0 <= j < r.opt implies r.decl.contains(#[trigger] opt_ix(fs)[j]) && r.got.contains(opt_ix(fs)[j]) by { if j < b.opt { assert(b.decl.contains(opt_ix(fs)[j])); } }
    r
}
pub proof fn c03_step_named<'a>(p: Params<'a>, a: Seq<Cd>, c: Seq<Cd>, u: Seq<TokenStream>, v: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs) -> (r: Bs)
    requires params_full(p), c01_c03_c04_sofar(p, a, u, s, b), all_values(s, p.named@), 0 <= b.named < s.len(), b.req == p.unnamed_required@.len(), p.fields@.len() <= usize::MAX,
        c03_one_more(a, c), c03_lets(seq![c.last()], s[b.named].info.temp_ident.text(), Lv::O(None)), c01_c03_put(u, v, s[b.named].info)
    ensures r.req == b.req, r.opt == b.opt, r.var == b.var, r.named == b.named + 1, r.rest == b.rest, c01_c03_c04_sofar(p, c, v, s, r)
{
    lemma_full(p); lemma_full_named(p, s, b.named);
    let r = lemma_declared(p, a, c, u, v, s, b, s[b.named].info);
    reveal(c01_c03_c04_sofar);
    let r = Bs { named: b.named + 1, ..r };
    assert forall|j: int| 0 <= j < r.named implies r.decl.contains((#[trigger] s[j]).info.index as int) && r.got.contains(s[j].info.index as int) by { if j < b.named { assert(b.decl.contains(s[j].info.index as int)); } }
    r
}
/// the variadic parameter, if there is one, is next; then the named ones
pub open spec fn var_next(p: Params, b: Bs) -> Bs { match p.unnamed_variadic { Some(q) => Bs { decl: b.decl.insert(q.info.index as int), got: b.got.insert(q.info.index as int), var: true, ..b }, None => Bs { var: true, ..b } } }
pub broadcast proof fn c03_step_variadic<'a>(p: Params<'a>, a: Seq<Cd>, c: TokenStream, u: Seq<TokenStream>, v: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs)
    requires params_full(p), c01_c03_c04_sofar(p, a, u, Seq::empty(), b), p.unnamed_variadic is Some, b.req == p.unnamed_required@.len(), p.fields@.len() <= usize::MAX, b.named == 0,
        c03_lets(c.code(), p.unnamed_variadic->0.info.temp_ident.text(), Lv::L(Seq::empty())), c01_c03_put(u, v, p.unnamed_variadic->0.info)
    ensures #![trigger c01_c03_c04_sofar(p, a, u, Seq::empty(), b), c01_c03_c04_sofar(p, a + c.code(), v, s, var_next(p, b))] c01_c03_c04_sofar(p, a + c.code(), v, s, var_next(p, b))
{
    lemma_full(p); let d = a + c.code();
    assert(d.drop_last() =~= a); assert(d.last() == c.code()[0]);
    let r = lemma_declared(p, a, d, u, v, Seq::empty(), b, p.unnamed_variadic->0.info);
    reveal(c01_c03_c04_sofar);
}
pub broadcast proof fn lemma_step_none<'a>(p: Params<'a>, a: Seq<Cd>, u: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs)
    requires c01_c03_c04_sofar(p, a, u, Seq::empty(), b), p.unnamed_variadic is None, b.named == 0
    ensures #![trigger c01_c03_c04_sofar(p, a, u, Seq::empty(), b), c01_c03_c04_sofar(p, a, u, s, var_next(p, b))] c01_c03_c04_sofar(p, a, u, s, var_next(p, b))
{ reveal(c01_c03_c04_sofar); }
pub open spec fn rest_next(p: Params, b: Bs) -> Bs { match p.rest { Some(q) => Bs { decl: b.decl.insert(q.info.index as int), got: b.got.insert(q.info.index as int), rest: true, ..b }, None => Bs { rest: true, ..b } } }
pub proof fn c03_step_rest<'a>(p: Params<'a>, a: Seq<Cd>, c: Seq<Cd>, u: Seq<TokenStream>, v: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs)
    requires params_full(p), c01_c03_c04_sofar(p, a, u, s, b), p.rest is Some, b.req == p.unnamed_required@.len(), p.fields@.len() <= usize::MAX,
        c03_one_more(a, c), c03_lets(seq![c.last()], p.rest->0.info.temp_ident.text(), Lv::M(Map::empty())), c01_c03_put(u, v, p.rest->0.info)
    ensures c01_c03_c04_sofar(p, c, v, s, rest_next(p, b))
{ lemma_full(p); let r = lemma_declared(p, a, c, u, v, s, b, p.rest->0.info); reveal(c01_c03_c04_sofar); }
/// everything is there
#[verifier::opaque] pub open spec fn c01_c03_c04_ready(p: Params, code: Seq<Cd>, l: Seq<Seq<Cd>>) -> bool {
    let fs = p.fields@;
    &&& exists|decl: Set<int>| #[trigger] c03_c04_pre(code, fs, req_ix(fs).len() as int, decl) && c03_c04_all(fs, req_ix(fs).len() as int, decl)
    &&& l.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> c01_c03_init(#[trigger] l[i], fs[i], i)
}
pub proof fn lemma_ready<'a>(p: Params<'a>, code: Seq<Cd>, args: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs)
    requires params_full(p), c01_c03_c04_sofar(p, code, args, s, b), all_values(s, p.named@), b.req == p.unnamed_required@.len(), b.opt == p.unnamed_optional@.len(), b.var, b.named == s.len(), b.rest
    ensures c01_c03_c04_ready(p, code, cds(args))
{
    reveal(c01_c03_c04_sofar); reveal(c01_c03_c04_ready); reveal(c01_c03_exprs);
    lemma_full(p); let fs = p.fields@; let l = cds(args);
    assert forall|i: int| 0 <= i < fs.len() && !is_required(#[trigger] fs[i]) implies b.decl.contains(i) by { lemma_seen(p, s, b, i); }
    assert(c03_c04_pre(code, fs, req_ix(fs).len() as int, b.decl) && c03_c04_all(fs, req_ix(fs).len() as int, b.decl));
    assert forall|i: int| 0 <= i < fs.len() implies c01_c03_init(#[trigger] l[i], fs[i], i) by { lemma_seen(p, s, b, i); assert(b.got.contains(i)); }
}
pub proof fn lemma_seen<'a>(p: Params<'a>, s: Seq<&NamedParam<'a>>, b: Bs, i: int)
    requires params_full(p), all_values(s, p.named@), 0 <= i < p.fields@.len(), b.req == p.unnamed_required@.len(), b.opt == p.unnamed_optional@.len(), b.var, b.named == s.len(), b.rest,
        exists|code: Seq<Cd>, args: Seq<TokenStream>| #[trigger] c01_c03_c04_sofar(p, code, args, s, b)
    ensures b.got.contains(i), !is_required(p.fields@[i]) ==> b.decl.contains(i)
{
    let fs = p.fields@; let f = fs[i];
    lemma_full(p); reveal(params_full); reveal(c01_c03_c04_sofar);
    lemma_idxs(fs, |f: Field| is_required(f)); lemma_idxs(fs, |f: Field| is_optional(f));
    assert(!(param_of(f) is Bad));
    if is_required(f) { assert(req_ix(fs).contains(i)); let j = choose|j: int| 0 <= j < req_ix(fs).len() && req_ix(fs)[j] == i; assert(b.got.contains(req_ix(fs)[j])); }
    else if is_optional(f) { assert(opt_ix(fs).contains(i)); let j = choose|j: int| 0 <= j < opt_ix(fs).len() && opt_ix(fs)[j] == i; assert(b.decl.contains(opt_ix(fs)[j])); }
    else if is_variadic(f) { }
    else if is_rest(f) { assert(any_rest(fs)); lemma_unique_rest(fs, i, p.rest->0.info.index as int); }
    else {
        let n = param_of(f)->Named_0; assert(named_as(f, n)); assert(any_named(fs, n)); assert(p.named@.dom().contains(n));
        lemma_unique_name(fs, i, p.named@[n].info.index as int, n);
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]) == p.named@[n]; assert(b.decl.contains(s[j].info.index as int));
    }
}
pub broadcast proof fn c01_c03_rec(v: Vec<TokenStream>, p: Params, code: Seq<Cd>)
    requires c01_c03_c04_ready(p, code, cds(v@)), syn_fields(*p.fields), *p.fields is Named
    ensures #![trigger c01_c03_c04_ready(p, code, cds(v@)), c01_c03_ctor(seq![Cd::N(s_rec(), seq![v.cd()])], *p.fields)] c01_c03_ctor(seq![Cd::N(s_rec(), seq![v.cd()])], *p.fields)
{ reveal(c01_c03_c04_ready); c01_c03_construct(cds(v@), seq![Cd::N(s_rec(), seq![v.cd()])], *p.fields); }
pub broadcast proof fn c01_c03_tup(v: Vec<TokenStream>, p: Params, code: Seq<Cd>)
    requires c01_c03_c04_ready(p, code, cds(v@)), syn_fields(*p.fields), *p.fields is Unnamed
    ensures #![trigger c01_c03_c04_ready(p, code, cds(v@)), c01_c03_ctor(seq![Cd::N(s_tup(), seq![v.cd()])], *p.fields)] c01_c03_ctor(seq![Cd::N(s_tup(), seq![v.cd()])], *p.fields)
{ reveal(c01_c03_c04_ready); c01_c03_construct(cds(v@), seq![Cd::N(s_tup(), seq![v.cd()])], *p.fields); }
pub proof fn lemma_meets_ready(code: Seq<Cd>, p: Params, snake: bool, l: Seq<Seq<Cd>>)
    requires params_full(p), is_main(code), main_ok(main_of(code), p.fields@, snake), c05_first(main_of(code)[0], p.fields@), c01_c03_c04_ready(p, code.drop_last(), l),
        c01_c03_ctor(main_of(code)[11], *p.fields), p.fields@.len() <= usize::MAX
    ensures c01_c02_c03_c04_c05_meets(*p.fields, snake, code)
{
    reveal(c01_c03_c04_ready); lemma_full(p); let fs = p.fields@;
    let decl = choose|decl: Set<int>| #[trigger] c03_c04_pre(code.drop_last(), fs, req_ix(fs).len() as int, decl) && c03_c04_all(fs, req_ix(fs).len() as int, decl);
    lemma_meets(code, *p.fields, snake, decl);
}
/// the tables made from the named parameters
pub open spec fn names_of<'a>(ps: Seq<&NamedParam<'a>>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| ps[i].name@) }
pub open spec fn tab_ps<'a>(ps: Seq<&NamedParam<'a>>, rest: bool) -> Tab { Tab { names: names_of(ps), rest } }
/// the parameters offered for a style
#[verifier::opaque] pub open spec fn c06_offers<'a>(p: Params<'a>, ps: Seq<&NamedParam<'a>>, rest: bool, w: Style) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> offered(p, *(#[trigger] ps[i])) && takes(sty(ps[i].ty), w)
    &&& forall|k: Seq<char>| #[trigger] p.named@.dom().contains(k) && takes(sty(p.named@[k].ty), w) ==> exists|i: int| 0 <= i < ps.len() && *(#[trigger] ps[i]) == p.named@[k]
    &&& rest == (p.rest is Some && takes(sty(p.rest->0.ty), w))
}
pub proof fn lemma_table(p: Params, ps: Seq<&NamedParam>, rest: bool, w: Style)
    requires params_full(p), c06_offers(p, ps, rest, w)
    ensures c06_table(tab_ps(ps, rest), p.fields@, w)
{ reveal(c06_offers); reveal(params_full);
    let fs = p.fields@; let t = tab_ps(ps, rest);
    assert forall|n: Seq<char>| #[trigger] t.names.contains(n) == (exists|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w)) by {
        if t.names.contains(n) {
            let j = choose|j: int| 0 <= j < ps.len() && t.names[j] == n; assert(offered(p, *ps[j]));
            let k = choose|k: Seq<char>| #[trigger] p.named@.dom().contains(k) && *ps[j] == p.named@[k];
            assert(named_in(fs[ps[j].info.index as int], n, w));
        }
        if exists|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w) {
            let i = choose|i: int| 0 <= i < fs.len() && named_in(#[trigger] fs[i], n, w);
            assert(named_as(fs[i], n)); assert(any_named(fs, n)); assert(p.named@.dom().contains(n)); lemma_unique_name(fs, i, p.named@[n].info.index as int, n);
            let j = choose|j: int| 0 <= j < ps.len() && *(#[trigger] ps[j]) == p.named@[n]; assert(t.names[j] == n);
        }
    }
    if p.rest is Some { let r = p.rest->0; if rest { assert(rest_in(fs[r.info.index as int], w)); } assert forall|i: int| 0 <= i < fs.len() && rest_in(#[trigger] fs[i], w) implies rest by { lemma_unique_rest(fs, i, r.info.index as int); } }
    else { assert forall|i: int| 0 <= i < fs.len() implies !rest_in(#[trigger] fs[i], w) by { assert(is_rest(fs[i]) ==> any_rest(fs)); } }
}
/// the arms so far
#[verifier::opaque] pub open spec fn c01_c02_c16_named<'a>(l: Seq<TokenStream>, p: Params<'a>, t: Tabs, kf: int, kv: int, ka: int) -> bool {
    c01_c02_c16_arms(cds(l), p.fields@, t) && c01_covered(cds(l), Style::Flag, kf) && c01_covered(cds(l), Style::NameValue, kv) && c01_covered(cds(l), Style::NameArgs, ka)
}
pub proof fn lemma_hit_push(a: Seq<Seq<Cd>>, b: Seq<Seq<Cd>>, w: Style, x: Idx)
    requires b.len() == a.len() + 1, b.drop_last() =~= a
    ensures hit(a, w, x) ==> hit(b, w, x), hits(w, x)(b.last()) ==> hit(b, w, x)
{ if hit(a, w, x) { let j = choose|j: int| 0 <= j < a.len() && hits(w, x)(#[trigger] a[j]); assert(b.drop_last()[j] == b[j]); assert(hits(w, x)(b[j])); } if hits(w, x)(b.last()) { assert(hits(w, x)(b[b.len() - 1])); } }
pub proof fn lemma_arms_push(a: Seq<Seq<Cd>>, b: Seq<Seq<Cd>>, fs: Seq<Field>, t: Tabs)
    requires b.len() == a.len() + 1, b.drop_last() =~= a
    ensures c01_c02_c16_arms(a, fs, t) && c01_c02_c16_arm(b.last(), fs, t) ==> c01_c02_c16_arms(b, fs, t),
        forall|w: Style, k: int| c01_covered(a, w, k) ==> #[trigger] c01_covered(b, w, k),
        forall|w: Style| c01_rest_covered(a, w) ==> #[trigger] c01_rest_covered(b, w),
{
    assert forall|j: int| 0 <= j < a.len() implies b[j] == a[j] by { assert(b.drop_last()[j] == b[j]); }
    assert forall|w: Style, k: int| c01_covered(a, w, k) implies #[trigger] c01_covered(b, w, k) by { assert forall|i: int| 0 <= i < k implies #[trigger] hit_at(b, w, i) by { assert(hit_at(a, w, i)); lemma_hit_push(a, b, w, Idx::At(i)); } }
    assert forall|w: Style| c01_rest_covered(a, w) implies #[trigger] c01_rest_covered(b, w) by { assert forall|n: Seq<char>| #[trigger] hit_rest(b, w, n) by { assert(hit_rest(a, w, n)); lemma_hit_push(a, b, w, Idx::Rest(n)); } }
}
pub proof fn c01_c02_c16_named_next<'a>(a: Seq<TokenStream>, b: Seq<TokenStream>, p: Params<'a>, t: Tabs, kf: int, kv: int, ka: int, q: NamedParam<'a>, i: int, w: Style)
    requires c01_c02_c16_named(a, p, t, kf, kv, ka), params_full(p), offered(p, q), c01_c06_at(t.of(w), i, q.name@),
        c01_one_more(a, b), c01_c02_c16_named_arm(b.last().code(), q.info.temp_ident.text(), sty(q.ty), i as usize, w), i <= usize::MAX
    ensures c01_c02_c16_named(b, p, t, if w is Flag && i == kf { kf + 1 } else { kf }, if w is NameValue && i == kv { kv + 1 } else { kv }, if w is NameArgs && i == ka { ka + 1 } else { ka })
{ reveal(c01_c02_c16_named); reveal(params_full);
    let (x, y) = (cds(a), cds(b)); let fs = p.fields@; let c = b.last().code();
    assert(y.drop_last() =~= x) by { assert forall|j: int| 0 <= j < a.len() implies y[j] == x[j] by { assert(b.drop_last()[j] == b[j]); } }
    assert(y.last() == c);
    let k = choose|k: Seq<char>| #[trigger] p.named@.dom().contains(k) && q == p.named@[k];
    let f = q.info.index as int;
    assert(named_as(fs[f], q.name@));
    assert(c01_c02_c16_arm(c, fs, t)) by { assert(named_as(fs[f], t.of(w).names[i]) && for_field(node_of(c, s_arm(), 5)->0[2], node_of(c, s_arm(), 5)->0[4], fs[f], f, w)); }
    lemma_arms_push(x, y, fs, t);
    lemma_hit_push(x, y, w, Idx::At(i)); assert(hits(w, Idx::At(i))(c));
    assert(hit_at(y, w, i));
    assert(c01_covered(x, Style::Flag, kf)); assert(c01_covered(x, Style::NameValue, kv)); assert(c01_covered(x, Style::NameArgs, ka));
    assert(c01_covered(y, Style::Flag, kf)); assert(c01_covered(y, Style::NameValue, kv)); assert(c01_covered(y, Style::NameArgs, ka));
}
/// with the arms of the rest map: for the styles it takes
#[verifier::opaque] pub open spec fn c01_c02_c16_all<'a>(l: Seq<TokenStream>, p: Params<'a>, t: Tabs, kf: int, kv: int, ka: int, rf: bool, rv: bool, ra: bool) -> bool {
    c01_c02_c16_named(l, p, t, kf, kv, ka) && (rf ==> c01_rest_covered(cds(l), Style::Flag)) && (rv ==> c01_rest_covered(cds(l), Style::NameValue)) && (ra ==> c01_rest_covered(cds(l), Style::NameArgs))
}
pub proof fn lemma_rest_push<'a>(l: Seq<TokenStream>, x: TokenStream, p: Params<'a>, t: Tabs, kf: int, kv: int, ka: int, rf: bool, rv: bool, ra: bool, w: Style)
    requires params_full(p), p.rest is Some, c01_c02_c16_all(l, p, t, kf, kv, ka, rf && !(w is Flag), rv && !(w is NameValue), ra && !(w is NameArgs)), c01_c02_c16_rest_arm(x.code(), p.rest->0.info.temp_ident.text(), sty(p.rest->0.ty), w)
    ensures c01_c02_c16_all(l.push(x), p, t, kf, kv, ka, rf, rv, ra)
{
    reveal(c01_c02_c16_all); reveal(c01_c02_c16_named); lemma_full(p);
    let b = l.push(x); let (u, v) = (cds(l), cds(b)); let fs = p.fields@; let c = x.code(); let q = p.rest->0; let f = q.info.index as int;
    assert(v.drop_last() =~= u); assert(v.last() == c);
    assert(is_rest(fs[f]));
    assert(c01_c02_c16_arm(c, fs, t)) by { assert(is_rest(fs[f]) && for_field(node_of(c, s_restarm(), 3)->0[1], node_of(c, s_restarm(), 3)->0[2], fs[f], f, w)); }
    lemma_arms_push(u, v, fs, t);
    assert(c01_covered(u, Style::Flag, kf)); assert(c01_covered(u, Style::NameValue, kv)); assert(c01_covered(u, Style::NameArgs, ka));
    assert(c01_covered(v, Style::Flag, kf)); assert(c01_covered(v, Style::NameValue, kv)); assert(c01_covered(v, Style::NameArgs, ka));
    assert(c01_rest_covered(v, w)) by { assert forall|s: Seq<char>| #[trigger] hit_rest(v, w, s) by { assert(hits(w, Idx::Rest(s))(v[v.len() - 1])); } }
}
pub broadcast proof fn c01_c02_c16_rest_push<'a>(l: Seq<TokenStream>, x: TokenStream, p: Params<'a>, t: Tabs, kf: int, kv: int, ka: int, rf: bool, rv: bool, ra: bool, w: Style)
    requires params_full(p), p.rest is Some, c01_c02_c16_all(l, p, t, kf, kv, ka, rf, rv, ra), c01_c02_c16_rest_arm(x.code(), p.rest->0.info.temp_ident.text(), sty(p.rest->0.ty), w)
    ensures #![trigger c01_c02_c16_all(l, p, t, kf, kv, ka, rf, rv, ra), c01_c02_c16_rest_arm(x.code(), p.rest->0.info.temp_ident.text(), sty(p.rest->0.ty), w), l.push(x)]
        c01_c02_c16_all(l.push(x), p, t, kf, kv, ka, rf || w is Flag, rv || w is NameValue, ra || w is NameArgs)
{ lemma_rest_less(l, p, t, kf, kv, ka, rf, rv, ra, w); lemma_rest_push(l, x, p, t, kf, kv, ka, rf || w is Flag, rv || w is NameValue, ra || w is NameArgs, w); }
pub proof fn lemma_rest_less<'a>(l: Seq<TokenStream>, p: Params<'a>, t: Tabs, kf: int, kv: int, ka: int, rf: bool, rv: bool, ra: bool, w: Style)
    requires c01_c02_c16_all(l, p, t, kf, kv, ka, rf, rv, ra) ensures c01_c02_c16_all(l, p, t, kf, kv, ka, rf && !(w is Flag), rv && !(w is NameValue), ra && !(w is NameArgs))
{ reveal(c01_c02_c16_all); }
pub proof fn lemma_all_arms<'a>(l: Seq<TokenStream>, p: Params<'a>, t: Tabs)
    requires c01_c02_c16_all(l, p, t, t.f.names.len() as int, t.v.names.len() as int, t.a.names.len() as int, t.f.rest, t.v.rest, t.a.rest)
    ensures c01_c02_c16_arms(cds(l), p.fields@, t), c01_arms_all(cds(l), t)
{ reveal(c01_c02_c16_all); reveal(c01_c02_c16_named); }
/// the arms of the unnamed arguments
pub proof fn c04_uarm_next(a: Seq<TokenStream>, b: Seq<TokenStream>, fs: Seq<Field>, k: int, p: UnnamedParam)
    requires c04_uarms(cds(a), fs, k), 0 <= k < opt_ix(fs).len(), p.info.index == opt_ix(fs)[k], unnamed_ok(p, fs), c04_opt_more(a, b), k <= usize::MAX, c04_value_arm(b.last().code(), p.info.temp_ident.text(), *p.ty, k as usize)
    ensures c04_uarms(cds(b), fs, k + 1)
{ reveal(c04_uarms);
    let y = cds(b); let o = opt_ix(fs);
    assert forall|j: int| 0 <= j < k + 1 implies c04_idxarm(#[trigger] y[j], fs[o[j]], o[j], j) by { if j < k { assert(b.drop_last()[j] == b[j]); assert(cds(a)[j] == y[j]); } }
}
pub proof fn lemma_no_unnamed(p: Params)
    requires params_full(p) ensures (p.unnamed_optional@.len() == 0 && p.unnamed_variadic is None) == def_tabs(p.fields@).no_unnamed
{ reveal(params_full);
    let fs = p.fields@; lemma_idxs(fs, |f: Field| is_optional(f)); assert(fs.take(fs.len() as int) =~= fs);
    assert(ixs(p.unnamed_optional@).len() == opt_ix(fs).len());
    if opt_ix(fs).len() > 0 { assert(is_optional(fs[opt_ix(fs)[0]])); }
    if any_optional(fs) { let i = choose|i: int| 0 <= i < fs.len() && is_optional(#[trigger] fs[i]); assert(opt_ix(fs).contains(i)); }
}
/// the tables in the code
pub proof fn c06_tables_in(m: Seq<Seq<Cd>>, t: Tabs, p: Params, f: Seq<&NamedParam>, v: Seq<&NamedParam>, a: Seq<&NamedParam>, fr: bool, vr: bool, ar: bool)
    requires params_full(p), c06_offers(p, f, fr, Style::Flag), c06_offers(p, v, vr, Style::NameValue), c06_offers(p, a, ar, Style::NameArgs),
        tabs_in(m).f == tab_ps(f, fr), tabs_in(m).v == tab_ps(v, vr), tabs_in(m).a == tab_ps(a, ar), tabs_in(m).no_unnamed == (p.unnamed_optional@.len() == 0 && p.unnamed_variadic is None),
        t.f == tab_ps(f, fr), t.v == tab_ps(v, vr), t.a == tab_ps(a, ar), t.no_unnamed == def_tabs(p.fields@).no_unnamed
    ensures tabs_in(m) == t, c06_tables(t, p.fields@)
{ reveal(c06_offers); reveal(params_full); lemma_no_unnamed(p); lemma_table(p, f, fr, Style::Flag); lemma_table(p, v, vr, Style::NameValue); lemma_table(p, a, ar, Style::NameArgs); }
pub open spec fn c06_tab_code(names: Seq<Cd>, rest: Seq<Cd>, ps: Seq<&NamedParam>, r: bool) -> bool { reps(names).len() == ps.len() && (forall|i: int| 0 <= i < ps.len() ==> str_of(#[trigger] reps(names)[i]) == Some(ps[i].name@)) && bool_of(rest) == r }
pub proof fn c06_tab_is(names: Seq<Cd>, rest: Seq<Cd>, ps: Seq<&NamedParam>, r: bool) requires c06_tab_code(names, rest, ps, r) ensures tab_of(names, rest) == tab_ps(ps, r) { assert(tab_of(names, rest).names =~= names_of(ps)); }
pub proof fn lemma_main_is(code: Seq<Cd>, m: Seq<Seq<Cd>>)
    requires code.len() > 0, code.last() == Cd::N(s_main(), m), m.len() == 12
    ensures is_main(code), main_of(code) == m
{}
// what Params::build takes from its parameters
pub proof fn lemma_full(p: Params)
    requires params_full(p)
    ensures params_ok(p), c09_well_formed(p.fields@), c01_rest_all(p.fields@, p.rest), c04_variadic_all(p.fields@, p.unnamed_variadic),
        p.unnamed_required@.len() == req_ix(p.fields@).len(), p.unnamed_optional@.len() == opt_ix(p.fields@).len()
{ reveal(params_full); assert(p.fields@.take(p.fields@.len() as int) =~= p.fields@); assert(ixs(p.unnamed_required@).len() == p.unnamed_required@.len()); assert(ixs(p.unnamed_optional@).len() == p.unnamed_optional@.len()); }
pub proof fn lemma_full_required(p: Params, i: int)
    requires params_full(p), 0 <= i < p.unnamed_required@.len()
    ensures i < req_ix(p.fields@).len(), unnamed_ok(p.unnamed_required@[i], p.fields@), !p.unnamed_required@[i].is_option, !p.unnamed_required@[i].is_vec, p.unnamed_required@[i].info.index == req_ix(p.fields@)[i]
{ reveal(params_full); assert(p.fields@.take(p.fields@.len() as int) =~= p.fields@); assert(ixs(p.unnamed_required@)[i] == p.unnamed_required@[i].info.index); }
pub proof fn lemma_full_optional(p: Params, i: int)
    requires params_full(p), 0 <= i < p.unnamed_optional@.len()
    ensures i < opt_ix(p.fields@).len(), unnamed_ok(p.unnamed_optional@[i], p.fields@), p.unnamed_optional@[i].is_option, !p.unnamed_optional@[i].is_vec, p.unnamed_optional@[i].info.index == opt_ix(p.fields@)[i]
{ reveal(params_full); assert(p.fields@.take(p.fields@.len() as int) =~= p.fields@); assert(ixs(p.unnamed_optional@)[i] == p.unnamed_optional@[i].info.index); }
pub proof fn lemma_full_named<'a>(p: Params<'a>, s: Seq<&NamedParam<'a>>, i: int)
    requires params_full(p), all_values(s, p.named@), 0 <= i < s.len()
    ensures named_ok(*s[i], p.fields@)
{ reveal(params_full); let k = choose|k: Seq<char>| p.named@.dom().contains(k) && *(#[trigger] s[i]) == p.named@[k]; assert(named_ok(p.named@[k], p.fields@)); }
pub proof fn lemma_offered<'a>(p: Params<'a>, ps: Seq<&NamedParam<'a>>, rest: bool, w: Style, i: int)
    requires c06_offers(p, ps, rest, w), 0 <= i < ps.len() ensures offered(p, *ps[i]), takes(sty(ps[i].ty), w)
{ reveal(c06_offers); }
pub proof fn lemma_offers_rest<'a>(p: Params<'a>, ps: Seq<&NamedParam<'a>>, rest: bool, w: Style)
    requires c06_offers(p, ps, rest, w) ensures rest == (p.rest is Some && takes(sty(p.rest->0.ty), w))
{ reveal(c06_offers); }
pub proof fn lemma_offers<'a>(p: Params<'a>, ps: Seq<&NamedParam<'a>>, rest: bool, w: Style)
    requires forall|i: int| 0 <= i < ps.len() ==> offered(p, *(#[trigger] ps[i])) && takes(sty(ps[i].ty), w),
        forall|k: Seq<char>| #[trigger] p.named@.dom().contains(k) && takes(sty(p.named@[k].ty), w) ==> exists|i: int| 0 <= i < ps.len() && *(#[trigger] ps[i]) == p.named@[k],
        rest == (p.rest is Some && takes(sty(p.rest->0.ty), w))
    ensures c06_offers(p, ps, rest, w)
{ reveal(c06_offers); }
pub proof fn c04_unnamed_is(c: Seq<Cd>, p: Params, arms: Vec<TokenStream>, a: Seq<TokenStream>)
    requires params_full(p), c04_uarms(cds(a), p.fields@, p.unnamed_optional@.len() as int), arms@.len() == a.len() + 1, arms@.drop_last() =~= a,
        p.unnamed_variadic is Some ==> c04_item_arm(arms@.last().code(), p.unnamed_variadic->0.info.temp_ident.text(), *p.unnamed_variadic->0.ty),
        p.unnamed_variadic is None ==> node_of(arms@.last().code(), s_manyarm(), 0) is Some,
        p.unnamed_optional@.len() > 0 || p.unnamed_variadic is Some ==> c == seq![Cd::N(s_unnamed(), seq![arms.cd()])]
    ensures c04_unnamed_code(c, p.fields@)
{
    lemma_full(p); lemma_no_unnamed(p); let fs = p.fields@; let l = cds(arms@);
    if any_optional(fs) || any_variadic(fs) {
        assert(l.drop_last() =~= cds(a)) by { assert forall|j: int| 0 <= j < a.len() implies l[j] == cds(a)[j] by { assert(arms@.drop_last()[j] == arms@[j]); } }
        assert(node_of(c, s_unnamed(), 1) == Some(seq![arms.cd()])); assert(reps(arms.cd()) == l);
        if any_variadic(fs) { let i = field_variadic(fs); lemma_unique_variadic(fs, i, p.unnamed_variadic->0.info.index as int); }
    }
}
pub broadcast group build_lemmas { c01_c03_c04_then, c03_step_variadic, lemma_step_none, c01_c03_rec, c01_c03_tup, c01_c02_c16_rest_push }
pub proof fn lemma_starts(p: Params)
    requires params_full(p)
    ensures forall|c: TokenStream, v: Vec<TokenStream>| c.code().len() == 0 && v@.len() == p.fields@.len() ==> #[trigger] c01_c03_c04_sofar(p, c.code(), v@, Seq::empty(), bs0())
{ assert forall|c: TokenStream, v: Vec<TokenStream>| c.code().len() == 0 && v@.len() == p.fields@.len() implies #[trigger] c01_c03_c04_sofar(p, c.code(), v@, Seq::empty(), bs0()) by { lemma_start(p, c.code(), v@); } }
pub proof fn lemma_no_arms<'a>(p: Params<'a>)
    ensures forall|v: Seq<TokenStream>, t: Tabs| v.len() == 0 ==> #[trigger] c01_c02_c16_named(v, p, t, 0, 0, 0), forall|l: Seq<TokenStream>| l.len() == 0 ==> #[trigger] c04_uarms(cds(l), p.fields@, 0)
{ reveal(c01_c02_c16_named); reveal(c04_uarms); }
pub proof fn lemma_sofar_rest<'a>(p: Params<'a>, a: Seq<Cd>, u: Seq<TokenStream>, s: Seq<&NamedParam<'a>>, b: Bs)
    requires c01_c03_c04_sofar(p, a, u, s, b), p.rest is None ensures c01_c03_c04_sofar(p, a, u, s, rest_next(p, b))
{ reveal(c01_c03_c04_sofar); }
pub proof fn lemma_named_all<'a>(l: Seq<TokenStream>, p: Params<'a>, t: Tabs)
    requires c01_c02_c16_named(l, p, t, t.f.names.len() as int, t.v.names.len() as int, t.a.names.len() as int)
    ensures c01_c02_c16_all(l, p, t, t.f.names.len() as int, t.v.names.len() as int, t.a.names.len() as int, false, false, false)
{ reveal(c01_c02_c16_all); }
pub open spec fn c01_c03_c04_done(p: Params, code: Seq<Cd>) -> bool { exists|l: Seq<Seq<Cd>>| #[trigger] c01_c03_c04_ready(p, code, l) }
pub broadcast proof fn c01_c03_c04_then(p: Params, a: Seq<Cd>, l: Seq<Seq<Cd>>, x: Seq<Cd>)
    requires c01_c03_c04_ready(p, a, l), x.len() == 1
    ensures #![trigger c01_c03_c04_ready(p, a, l), a + x] c01_c03_c04_done(p, (a + x).drop_last()) && (a + x).len() > 0 && (a + x).last() == x[0]
{ assert((a + x).drop_last() =~= a); }
pub proof fn lemma_meets_done(code: Seq<Cd>, p: Params, snake: bool)
    requires params_full(p), is_main(code), main_ok(main_of(code), p.fields@, snake), c05_first(main_of(code)[0], p.fields@), c01_c03_c04_done(p, code.drop_last()),
        c01_c03_ctor(main_of(code)[11], *p.fields), p.fields@.len() <= usize::MAX
    ensures c01_c02_c03_c04_c05_meets(*p.fields, snake, code)
{ let l = choose|l: Seq<Seq<Cd>>| #[trigger] c01_c03_c04_ready(p, code.drop_last(), l); lemma_meets_ready(code, p, snake, l); }
}
use smr::*;
