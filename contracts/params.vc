@include prelude.vc
@include synty.vc
@include defs.vc
@include types_spec.vc
@assume types_fns.vc
@text
// ---- helper attributes ---------------------------------------------------------------------------
pub mod kw {
use super::*;
pub struct dump { pub span: Span } pub struct name_filter { pub span: Span } pub struct name { pub span: Span } pub struct unnamed { pub span: Span }
pub open spec fn word(t: Seq<Tt>, s: Seq<char>) -> bool { t.len() > 0 && t[0] is Ident && t[0]->Ident_0 == s }
impl Peek for dump { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "dump"@) } }
impl Peek for name_filter { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "name_filter"@) } }
impl Peek for name { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "name"@) } }
impl Peek for unnamed { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "unnamed"@) } }
impl Parse for dump { open spec fn ty() -> int { 11 } uninterp spec fn val(&self) -> Val; }
impl Parse for name_filter { open spec fn ty() -> int { 12 } uninterp spec fn val(&self) -> Val; }
impl Parse for name { open spec fn ty() -> int { 13 } uninterp spec fn val(&self) -> Val; }
impl Parse for unnamed { open spec fn ty() -> int { 14 } uninterp spec fn val(&self) -> Val; }
pub broadcast axiom fn leaf_dump(t: Seq<Tt>) ensures #[trigger] leaf(11, t) == (if word(t, "dump"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_name_filter(t: Seq<Tt>) ensures #[trigger] leaf(12, t) == (if word(t, "name_filter"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_name(t: Seq<Tt>) ensures #[trigger] leaf(13, t) == (if word(t, "name"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_unnamed(t: Seq<Tt>) ensures #[trigger] leaf(14, t) == (if word(t, "unnamed"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
}
use kw::*;
@file structmeta-derive/src/struct_meta.rs
@item NameFilter
@attrs #[derive(Clone, Copy)]
@item ArgForStruct
@item ArgsForStruct
@attrs #[derive(Clone, Copy)]
@item ArgForField
@item ArgsForField
@item ArgKind
@attrs #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@item ParamInfo
@item RestParam
@item NamedParam
@item UnnamedParam
@item Param
@item Params
@text
impl ArgsForStruct { #[verifier::external_body] pub fn default() -> (r: Self) ensures !r.dump, r.name_filter is None { unimplemented!() } }
/// `name = "..."` and `unnamed` on a field
pub open spec fn f_name(v: Val) -> Val { Val::Leaf(21, seq![]) }
pub mod attrs {
use super::*;
pub uninterp spec fn name_arg(v: Val) -> Val;
pub open spec fn unnamed_arg() -> Val { Val::Leaf(22, seq![]) }
pub open spec fn dump_arg() -> Val { Val::Leaf(31, seq![]) }
pub open spec fn filter_arg() -> Val { Val::Leaf(32, seq![]) }
pub uninterp spec fn name_arg_of(v: Val) -> Option<Val>;
pub broadcast axiom fn name_arg_inv(v: Val) ensures name_arg_of(#[trigger] name_arg(v)) == Some(v);
pub broadcast axiom fn name_arg_not(a: int, t: Seq<Tt>) ensures (#[trigger] name_arg_of(Val::Leaf(a, t))) is None;
pub open spec fn field_arg(t: Seq<Tt>) -> Option<(Val, nat)> {
    if word(t, "name"@) && t.len() > 1 && punct1(t.skip(1), '=') { match leaf(2, t.skip(2)) { Some((v, n)) => Some((name_arg(v), n + 2)), None => None } }
    else if word(t, "unnamed"@) { Some((unnamed_arg(), 1)) }
    else { None }
}
pub open spec fn struct_arg(t: Seq<Tt>) -> Option<(Val, nat)> {
    if word(t, "dump"@) { Some((dump_arg(), 1)) }
    else if word(t, "name_filter"@) && t.len() > 1 && punct1(t.skip(1), '=') {
        match leaf(2, t.skip(2)) { Some((v, n)) => if lit_str(v) == "snake_case"@ { Some((filter_arg(), n + 2)) } else { None }, None => None }
    } else { None }
}
pub open spec fn oval(n: Option<LitStr>) -> Option<Val> { match n { Some(n) => Some(n.val()), None => None } }
/// the arguments of one field attribute: the name (the last one given), and whether `unnamed` is there
pub open spec fn f_args(l: Seq<Val>) -> (Option<Val>, bool)
    decreases l.len()
{ if l.len() == 0 { (None, false) } else { let (n, u) = f_args(l.drop_last()); match name_arg_of(l.last()) { Some(v) => (Some(v), u), None => (n, true) } } }
pub uninterp spec fn f_args_val(a: (Option<Val>, bool)) -> Val;
pub uninterp spec fn f_args_of(v: Val) -> (Option<Val>, bool);
pub broadcast axiom fn f_args_inv(a: (Option<Val>, bool)) ensures f_args_of(#[trigger] f_args_val(a)) == a;
impl Parse for ArgForField { open spec fn ty() -> int { 41 } open spec fn val(&self) -> Val { match self { ArgForField::Name { value, .. } => name_arg(value.val()), ArgForField::Unnamed { .. } => unnamed_arg() } } }
impl Parse for ArgsForField { open spec fn ty() -> int { 42 } open spec fn val(&self) -> Val { f_args_val((oval(self.name), self.unnamed)) } }
impl Parse for ArgForStruct { open spec fn ty() -> int { 43 } open spec fn val(&self) -> Val { match self { ArgForStruct::Dump(_) => dump_arg(), ArgForStruct::NameFilter { value, .. } => if value is SnakeCase { filter_arg() } else { Val::Leaf(33, seq![]) } } } }
/// the parser of a helper argument is the `Parse::parse` proved below
pub broadcast axiom fn leaf_field_arg(t: Seq<Tt>) ensures #[trigger] leaf(41, t) == field_arg(t);
pub broadcast axiom fn leaf_field_args(t: Seq<Tt>) ensures #[trigger] leaf(42, t) == (match plist(41, t) { Some(l) => Some((f_args_val(f_args(l)), t.len())), None => None });
pub broadcast axiom fn leaf_struct_arg(t: Seq<Tt>) ensures #[trigger] leaf(43, t) == struct_arg(t);
pub broadcast proof fn skip_skip<T>(t: Seq<T>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= t.len() ensures #[trigger] t.skip(a).skip(b) == t.skip(a + b) { assert(t.skip(a).skip(b) =~= t.skip(a + b)); }
pub broadcast group attr_axioms { skip_skip, name_arg_inv, name_arg_not, f_args_inv, leaf_field_arg, leaf_field_args, leaf_struct_arg, leaf_dump, leaf_name_filter, leaf_name, leaf_unnamed }
pub open spec fn parse_post<T: Parse>(b: Pb, after: Pb, r: Result<T>) -> bool {
    match leaf(T::ty(), b.toks) { Some((v, n)) => r is Ok && r->Ok_0.val() == v && after == b.adv(n as int), None => r is Err }
}
}
use attrs::*;

@fn Parse.ArgForField::parse
@ret r
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use attrs::attr_axioms;
@fn Parse.ArgForStruct::parse
@ret r
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use attrs::attr_axioms;
@fn Parse.ArgsForField::parse
@ret r
@locals input name unnamed p value
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use attrs::attr_axioms;
@loop 0
  invariant __i0 <= __s0@.len(), ArgForField::ty() == 41, plist(41, old(input)@.toks) == Some(vals::<ArgForField>(__s0@)), input@ == (Pb { toks: Seq::empty(), ..old(input)@ }), f_args(vals::<ArgForField>(__s0@.take(__i0 as int))) == (oval(name), unnamed)
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use attrs::attr_axioms;
  proof { let w = vals::<ArgForField>(__s0@.take(__i0 as int)); assert(w.drop_last() =~= vals::<ArgForField>(__s0@.take(__i0 - 1))); assert(w.last() == vals::<ArgForField>(seq![p])[0]); }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); assert(old(input)@.adv(old(input)@.toks.len() as int).toks =~= Seq::<Tt>::empty()); }
@text
// ---- definitions: what C09 calls a fault ------------------------------------------------------------
pub mod wf {
use super::*;
pub open spec fn ours(a: Attribute) -> bool { path_is(a.p(), "struct_meta"@) }
/// `name_filter` given in the arguments so far; None: given twice
pub open spec fn filters(l: Seq<Val>, f: bool) -> Option<bool>
    decreases l.len()
{ if l.len() == 0 { Some(f) } else { match filters(l.drop_last(), f) { None => None, Some(g) => if l.last() == dump_arg() { Some(g) } else if g { None } else { Some(true) } } } }
/// all struct_meta attributes of the item up to the k-th
pub open spec fn item_attrs(a: Seq<Attribute>) -> Option<bool>
    decreases a.len()
{
    if a.len() == 0 { Some(false) } else {
        match item_attrs(a.drop_last()) { None => None, Some(f) => if ours(a.last()) { attr_filter(a.last(), f) } else { Some(f) } }
    }
}
pub open spec fn attr_filter(a: Attribute, f: bool) -> Option<bool> {
    match a.args() { Some(t) => match plist(43, t) { Some(l) => filters(l, f), None => None }, None => None }
}
pub open spec fn attr_dumps(a: Attribute) -> bool { match a.args() { Some(t) => match plist(43, t) { Some(l) => l.contains(dump_arg()), None => false }, None => false } }
/// a `dump` argument is given
pub open spec fn asked_dump(d: DeriveInput) -> bool { dumps(d.attrs@) }
pub open spec fn dumps(a: Seq<Attribute>) -> bool { exists|i: int| 0 <= i < a.len() && ours(#[trigger] a[i]) && attr_dumps(a[i]) }
/// the only filter there is
pub open spec fn c06_snake(a: ArgsForStruct) -> bool { a.name_filter is Some ==> a.name_filter->0 is SnakeCase }
pub proof fn lemma_struct_args(t: Seq<Tt>)
    ensures match plist(43, t) { Some(l) => forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == dump_arg() || l[i] == filter_arg(), None => true }
    decreases t.len()
{ broadcast use attr_axioms; if t.len() > 0 { match leaf(43, t) { Some((v, n)) => { let u = t.skip(n as int); if n <= t.len() && u.len() > 0 && punct1(u, ',') { lemma_struct_args(u.skip(1)); } } None => {} } } }
pub proof fn lemma_contains_last(w: Seq<Val>, v: Val) requires w.len() > 0 ensures w.contains(v) == (w.drop_last().contains(v) || w.last() == v)
{ if w.drop_last().contains(v) { let i = choose|i: int| 0 <= i < w.len() - 1 && w.drop_last()[i] == v; assert(w[i] == v); } if w.last() == v { assert(w[w.len() - 1] == v); }
  if w.contains(v) { let i = choose|i: int| 0 <= i < w.len() && w[i] == v; if i < w.len() - 1 { assert(w.drop_last()[i] == v); } } }
/// `name = "..."` and `unnamed` of a field
pub open spec fn one_attr(a: Attribute) -> Option<(Option<Val>, bool)> { match a.args() { Some(t) => match plist(41, t) { Some(l) => Some(f_args(l)), None => None }, None => None } }
pub open spec fn field_attrs(a: Seq<Attribute>) -> Option<(Option<Val>, bool)>
    decreases a.len()
{
    if a.len() == 0 { Some((None, false)) } else {
        match field_attrs(a.drop_last()) {
            None => None,
            Some((n, u)) => if ours(a.last()) { match one_attr(a.last()) { Some((m, v)) => Some((if m is Some { m } else { n }, u || v)), None => None } } else { Some((n, u)) },
        }
    }
}
pub proof fn filters_none(l: Seq<Val>, k: int, f: bool)
    requires 0 <= k <= l.len(), filters(l.take(k), f) is None ensures filters(l, f) is None decreases l.len() - k
{ if k == l.len() { assert(l.take(k) =~= l); } else { assert(l.take(k + 1).drop_last() =~= l.take(k)); filters_none(l, k + 1, f); } }
pub proof fn field_attrs_none(l: Seq<Attribute>, k: int)
    requires 0 <= k <= l.len(), field_attrs(l.take(k)) is None ensures field_attrs(l) is None decreases l.len() - k
{ if k == l.len() { assert(l.take(k) =~= l); } else { assert(l.take(k + 1).drop_last() =~= l.take(k)); field_attrs_none(l, k + 1); } }
pub proof fn item_attrs_none(l: Seq<Attribute>, k: int)
    requires 0 <= k <= l.len(), item_attrs(l.take(k)) is None ensures item_attrs(l) is None decreases l.len() - k
{ if k == l.len() { assert(l.take(k) =~= l); } else { assert(l.take(k + 1).drop_last() =~= l.take(k)); item_attrs_none(l, k + 1); } }
/// the parameter a field declares
pub ghost enum Par { Bad, Unnamed(Type, bool, bool), Named(Seq<char>, Sty, bool), Rest(Sty) }
pub open spec fn param_name(f: Field, n: Option<Val>, unnamed: bool) -> Option<Seq<char>> {
    if unnamed { None } else if n is Some { Some(lit_str(n->0)) } else { match f.ident { Some(i) => Some(unrawed(i.text())), None => None } }
}
pub open spec fn param_of(f: Field) -> Par {
    match field_attrs(f.attrs@) {
        None => Par::Bad,
        Some((n, unnamed)) => {
            let rest = if n is Some { None } else { rest_of(f.ty) };
            let opt = if rest is Some { None } else { option_of(f.ty) };
            let s = c08_style(or_self(rest, or_self(opt, f.ty)), rest is None && opt is None);
            if rest is Some { Par::Rest(s) }
            else { match param_name(f, n, unnamed) {
                Some(m) => Par::Named(m, s, opt is Some),
                None => match s { Sty::Value(t, v) => if opt is Some && v { Par::Bad } else { Par::Unnamed(t, opt is Some, v) }, _ => Par::Bad },
            } }
        }
    }
}
pub open spec fn c09_bad(f: Field) -> bool { param_of(f) is Bad }
pub open spec fn c08_styled<'a>(p: Param<'a>, f: Field) -> bool {
    match (p, param_of(f)) {
        (Param::Unnamed(p), Par::Unnamed(t, o, v)) => *p.ty == t && p.is_option == o && p.is_vec == v,
        (Param::Named(p), Par::Named(_, s, o)) => sty(p.ty) == s && p.is_option == o,
        (Param::Rest(p), Par::Rest(s)) => sty(p.ty) == s,
        _ => true,
    }
}
pub open spec fn c01_c04_declared<'a>(p: Param<'a>, index: usize, f: Field) -> bool {
    match (p, param_of(f)) {
        (Param::Unnamed(p), Par::Unnamed(_, _, _)) => p.info.index == index && *p.info.field == f && c01_c04_temp(p.info),
        (Param::Named(p), Par::Named(n, _, _)) => p.name@ == n && p.info.index == index && *p.info.field == f && c01_c04_temp(p.info),
        (Param::Rest(p), Par::Rest(_)) => p.info.index == index && *p.info.field == f && c01_c04_temp(p.info),
        (_, b) => b is Bad,
    }
}
pub open spec fn is_variadic(f: Field) -> bool { match param_of(f) { Par::Unnamed(_, _, v) => v, _ => false } }
pub open spec fn is_optional(f: Field) -> bool { match param_of(f) { Par::Unnamed(_, o, v) => o && !v, _ => false } }
pub open spec fn is_unnamed(f: Field) -> bool { param_of(f) is Unnamed }
pub open spec fn is_required(f: Field) -> bool { match param_of(f) { Par::Unnamed(_, o, v) => !o && !v, _ => false } }
pub open spec fn is_rest(f: Field) -> bool { param_of(f) is Rest }
pub open spec fn named_as(f: Field, n: Seq<char>) -> bool { match param_of(f) { Par::Named(m, _, _) => m == n, _ => false } }
pub open spec fn given_name(name: Option<(String, Span)>, n: Option<Val>) -> bool { n is Some == name is Some && (n is Some ==> (name->0).0@ == lit_str(n->0)) }
/// indices of the fields of a kind, in order
pub open spec fn idxs(fs: Seq<Field>, p: spec_fn(Field) -> bool) -> Seq<int>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { let r = idxs(fs.drop_last(), p); if p(fs.last()) { r.push(fs.len() - 1) } else { r } } }
pub open spec fn req_ix(fs: Seq<Field>) -> Seq<int> { idxs(fs, |f: Field| is_required(f)) }
pub open spec fn opt_ix(fs: Seq<Field>) -> Seq<int> { idxs(fs, |f: Field| is_optional(f)) }
/// no two of the fields clash
pub open spec fn clash(a: Field, b: Field) -> bool {
    ||| is_variadic(a) && is_unnamed(b)
    ||| is_optional(a) && is_required(b)
    ||| is_rest(a) && is_rest(b)
    ||| param_of(a) is Named && named_as(b, param_of(a)->Named_0)
}
pub open spec fn c09_well_formed(fs: Seq<Field>) -> bool {
    &&& forall|i: int| 0 <= i < fs.len() ==> !(param_of(#[trigger] fs[i]) is Bad)
    &&& forall|i: int, j: int| 0 <= i < j < fs.len() ==> !clash(#[trigger] fs[i], #[trigger] fs[j])
}
pub open spec fn c09_accepted(d: DeriveInput) -> bool {
    match d.data { Data::Struct(s) => item_attrs(d.attrs@) is Some && c09_well_formed(s.fields@), _ => false }
}
/// the variable of a field
pub open spec fn tmp(i: int) -> Seq<char> { "_value_"@ + (i as usize).disp() }
pub open spec fn c01_c04_temp(i: ParamInfo) -> bool { i.temp_ident.text() == tmp(i.index as int) }
/// a parameter stands for its field
pub open spec fn info_ok(i: ParamInfo, fs: Seq<Field>) -> bool { i.index < fs.len() && *i.field == fs[i.index as int] }
pub open spec fn unnamed_is(p: UnnamedParam) -> bool { c01_c04_temp(p.info) && param_of(*p.info.field) == Par::Unnamed(*p.ty, p.is_option, p.is_vec) }
pub open spec fn named_is(p: NamedParam) -> bool { c01_c04_temp(p.info) && param_of(*p.info.field) == Par::Named(p.name@, sty(p.ty), p.is_option) }
pub open spec fn rest_is(p: RestParam) -> bool { c01_c04_temp(p.info) && param_of(*p.info.field) == Par::Rest(sty(p.ty)) }
pub open spec fn unnamed_ok(p: UnnamedParam, fs: Seq<Field>) -> bool { info_ok(p.info, fs) && unnamed_is(p) }
pub open spec fn named_ok(p: NamedParam, fs: Seq<Field>) -> bool { info_ok(p.info, fs) && named_is(p) }
pub open spec fn rest_ok(p: RestParam, fs: Seq<Field>) -> bool { info_ok(p.info, fs) && rest_is(p) }
pub open spec fn params_ok(p: Params) -> bool {
    let fs = p.fields@;
    &&& forall|i: int| 0 <= i < p.unnamed_required@.len() ==> unnamed_ok(#[trigger] p.unnamed_required@[i], fs) && !p.unnamed_required@[i].is_option && !p.unnamed_required@[i].is_vec
    &&& forall|i: int| 0 <= i < p.unnamed_optional@.len() ==> unnamed_ok(#[trigger] p.unnamed_optional@[i], fs) && p.unnamed_optional@[i].is_option && !p.unnamed_optional@[i].is_vec
    &&& p.unnamed_variadic is Some ==> unnamed_ok(p.unnamed_variadic->0, fs) && !p.unnamed_variadic->0.is_option && p.unnamed_variadic->0.is_vec
    &&& forall|k: Seq<char>| #[trigger] p.named@.dom().contains(k) ==> named_ok(p.named@[k], fs) && p.named@[k].name@ == k
    &&& p.rest is Some ==> rest_ok(p.rest->0, fs)
}
pub open spec fn any_variadic(s: Seq<Field>) -> bool { exists|i: int| 0 <= i < s.len() && is_variadic(#[trigger] s[i]) }
pub open spec fn any_optional(s: Seq<Field>) -> bool { exists|i: int| 0 <= i < s.len() && is_optional(#[trigger] s[i]) }
pub open spec fn any_rest(s: Seq<Field>) -> bool { exists|i: int| 0 <= i < s.len() && is_rest(#[trigger] s[i]) }
pub open spec fn any_named(s: Seq<Field>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && named_as(#[trigger] s[i], k) }
pub proof fn lemma_any_push(s: Seq<Field>, f: Field)
    ensures any_variadic(s.push(f)) == (any_variadic(s) || is_variadic(f)),
        any_optional(s.push(f)) == (any_optional(s) || is_optional(f)),
        any_rest(s.push(f)) == (any_rest(s) || is_rest(f)),
        forall|k: Seq<char>| #[trigger] any_named(s.push(f), k) == (any_named(s, k) || named_as(f, k)),
{
    let t = s.push(f);
    assert(t[s.len() as int] == f);
    assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by {}
    if any_variadic(s) { let i = choose|i: int| 0 <= i < s.len() && is_variadic(s[i]); assert(is_variadic(t[i])); }
    if any_optional(s) { let i = choose|i: int| 0 <= i < s.len() && is_optional(s[i]); assert(is_optional(t[i])); }
    if any_rest(s) { let i = choose|i: int| 0 <= i < s.len() && is_rest(s[i]); assert(is_rest(t[i])); }
    assert forall|k: Seq<char>| #[trigger] any_named(t, k) == (any_named(s, k) || named_as(f, k)) by {
        if any_named(s, k) { let i = choose|i: int| 0 <= i < s.len() && named_as(s[i], k); assert(named_as(t[i], k)); }
    }
}
pub open spec fn c06_filter(a: ArgsForStruct) -> NameFilter { match a.name_filter { Some(f) => f, None => NameFilter::None } }
/// one of the named parameters
pub open spec fn offered<'a>(p: Params<'a>, n: NamedParam<'a>) -> bool { exists|k: Seq<char>| #[trigger] p.named@.dom().contains(k) && n == p.named@[k] }
/// the unnamed parameters are those of the first n fields, in the order of the fields
pub open spec fn ixs<'a>(s: Seq<UnnamedParam<'a>>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].info.index as int) }
pub open spec fn c04_in_order<'a>(fs: Seq<Field>, n: int, req: Seq<UnnamedParam<'a>>, opt: Seq<UnnamedParam<'a>>, var: Option<UnnamedParam<'a>>) -> bool {
    &&& ixs(req) == req_ix(fs.take(n))
    &&& ixs(opt) == opt_ix(fs.take(n))
    &&& forall|k: int| 0 <= k < n && is_variadic(#[trigger] fs[k]) ==> var is Some && var->0.info.index == k
}
pub broadcast proof fn lemma_ixs_push<'a>(s: Seq<UnnamedParam<'a>>, p: UnnamedParam<'a>)
    ensures #[trigger] ixs(s.push(p)) == ixs(s).push(p.info.index as int)
{ assert(ixs(s.push(p)) =~= ixs(s).push(p.info.index as int)); }
pub proof fn lemma_ix_step(fs: Seq<Field>, k: int)
    requires 0 < k <= fs.len()
    ensures req_ix(fs.take(k)) == (if is_required(fs[k - 1]) { req_ix(fs.take(k - 1)).push(k - 1) } else { req_ix(fs.take(k - 1)) }),
        opt_ix(fs.take(k)) == (if is_optional(fs[k - 1]) { opt_ix(fs.take(k - 1)).push(k - 1) } else { opt_ix(fs.take(k - 1)) }),
{ assert(fs.take(k).drop_last() =~= fs.take(k - 1)); assert(fs.take(k).last() == fs[k - 1]); }
/// all parameters are collected
pub open spec fn c01_named_all<'a>(fs: Seq<Field>, named: Map<Seq<char>, NamedParam<'a>>) -> bool { forall|k: Seq<char>| #[trigger] named.dom().contains(k) == any_named(fs, k) }
pub open spec fn c01_rest_all<'a>(fs: Seq<Field>, rest: Option<RestParam<'a>>) -> bool { rest is Some == any_rest(fs) }
pub open spec fn c04_variadic_all<'a>(fs: Seq<Field>, var: Option<UnnamedParam<'a>>) -> bool { var is Some == any_variadic(fs) }
#[verifier::opaque] pub open spec fn params_full(p: Params) -> bool {
    let fs = p.fields@;
    &&& params_ok(p) && c09_well_formed(fs)
    &&& c04_in_order(fs, fs.len() as int, p.unnamed_required@, p.unnamed_optional@, p.unnamed_variadic) && c04_variadic_all(fs, p.unnamed_variadic)
    &&& c01_named_all(fs, p.named@) && c01_rest_all(fs, p.rest)
}
/// what the loop over the fields has collected
pub open spec fn from_state<'a>(fs: Seq<Field>, done: Seq<Field>, req: Seq<UnnamedParam<'a>>, opt: Seq<UnnamedParam<'a>>, var: Option<UnnamedParam<'a>>, named: Map<Seq<char>, NamedParam<'a>>, rest: Option<RestParam<'a>>) -> bool {
    &&& forall|i: int| 0 <= i < req.len() ==> unnamed_ok(#[trigger] req[i], fs) && !req[i].is_option && !req[i].is_vec
    &&& forall|i: int| 0 <= i < opt.len() ==> unnamed_ok(#[trigger] opt[i], fs) && opt[i].is_option && !opt[i].is_vec
    &&& var is Some ==> unnamed_ok(var->0, fs) && !var->0.is_option && var->0.is_vec
    &&& forall|k: Seq<char>| #[trigger] named.dom().contains(k) ==> named_ok(named[k], fs) && named[k].name@ == k
    &&& rest is Some ==> rest_ok(rest->0, fs)
    &&& var is Some == any_variadic(done)
    &&& (opt.len() > 0) == any_optional(done)
    &&& rest is Some == any_rest(done)
    &&& forall|k: Seq<char>| #[trigger] named.dom().contains(k) == any_named(done, k)
}
/// one more field: well-formed unless it is bad or clashes
pub proof fn lemma_wf_step(fs: Seq<Field>, k: int)
    requires 0 < k <= fs.len(), c09_well_formed(fs.take(k - 1))
    ensures c09_well_formed(fs.take(k)) == (!(param_of(fs[k - 1]) is Bad) && forall|i: int| 0 <= i < k - 1 ==> !clash(#[trigger] fs.take(k - 1)[i], fs[k - 1]))
{
    let a = fs.take(k - 1); let b = fs.take(k);
    assert forall|i: int| 0 <= i < k - 1 implies a[i] == b[i] by {}
    assert(b[k - 1] == fs[k - 1]);
    if c09_well_formed(b) { assert forall|i: int| 0 <= i < k - 1 implies !clash(#[trigger] a[i], fs[k - 1]) by { assert(!clash(b[i], b[k - 1])); } }
    if !(param_of(fs[k - 1]) is Bad) && forall|i: int| 0 <= i < k - 1 ==> !clash(#[trigger] a[i], fs[k - 1]) {
        assert forall|i: int| 0 <= i < b.len() implies !(param_of(#[trigger] b[i]) is Bad) by { if i < k - 1 { assert(!(param_of(a[i]) is Bad)); } }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies !clash(#[trigger] b[i], #[trigger] b[j]) by { if j < k - 1 { assert(!clash(a[i], a[j])); } else { assert(!clash(a[i], fs[k - 1])); } }
    }
}
/// a fault among the first fields is a fault of the definition
pub proof fn lemma_wf_none(fs: Seq<Field>, k: int)
    requires 0 <= k <= fs.len() ensures !c09_well_formed(fs.take(k)) ==> !c09_well_formed(fs)
{
    if c09_well_formed(fs) {
        let a = fs.take(k);
        assert forall|i: int| 0 <= i < a.len() implies !(param_of(#[trigger] a[i]) is Bad) by { assert(!(param_of(fs[i]) is Bad)); }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies !clash(#[trigger] a[i], #[trigger] a[j]) by { assert(!clash(fs[i], fs[j])); }
    }
}
}
use wf::*;
@include names.vc
@include smread.vc
@file structmeta-derive/src/struct_meta.rs

@fn ArgsForStruct::parse_from_attr
@ret r
@locals self attr args arg span value
@spec
  ensures r is Ok == attr_filter(*attr, old(self).name_filter is Some) is Some,
    r is Ok ==> attr_filter(*attr, old(self).name_filter is Some) == Some(final(self).name_filter is Some),
    r is Ok ==> final(self).dump == (old(self).dump || attr_dumps(*attr)),
    c06_snake(*old(self)) ==> c06_snake(*final(self))
@entry
  broadcast use attrs::attr_axioms;
  proof { if attr.args() is Some { lemma_struct_args(attr.args()->0); } }
@loop 0
  invariant __i0 <= __s0@.len(), attr.args() is Some, plist(43, attr.args()->0) == Some(vals::<ArgForStruct>(__s0@)),
    filters(vals::<ArgForStruct>(__s0@.take(__i0 as int)), old(self).name_filter is Some) == Some(self.name_filter is Some),
    self.dump == (old(self).dump || vals::<ArgForStruct>(__s0@.take(__i0 as int)).contains(dump_arg())),
    forall|i: int| 0 <= i < __s0@.len() ==> #[trigger] vals::<ArgForStruct>(__s0@)[i] == dump_arg() || vals::<ArgForStruct>(__s0@)[i] == filter_arg(),
    c06_snake(*old(self)) ==> c06_snake(*self)
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use attrs::attr_axioms;
  proof { let v = vals::<ArgForStruct>(__s0@); let w = v.take(__i0 as int);
    assert(vals::<ArgForStruct>(__s0@.take(__i0 as int)) =~= w); assert(vals::<ArgForStruct>(__s0@.take(__i0 - 1)) =~= w.drop_last()); assert(w.last() == vals::<ArgForStruct>(seq![arg])[0]); lemma_contains_last(w, dump_arg());
    assert(v[__i0 - 1] == w.last());
    if filters(w, old(self).name_filter is Some) is None { filters_none(v, __i0 as int, old(self).name_filter is Some); } }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
@fn ArgsForStruct::name_filter
@ret r
@spec
  ensures r == c06_filter(*self)
@fn NameFilter::to_code
@ret r
@spec
  ensures c06_filter_code(r.code(), self is SnakeCase)

@fn ParamInfo::new
@ret r
@spec
  ensures r.index == index, r.field == field, r.ty == ty, c01_c04_temp(r)
@fn ParamInfo::span
@spec
  ensures true

@fn Param::from_field
@ret r
@locals index field name name_specified unnamed attr a a_name ident is_map is_option ty ty ty info ty this name name_span ty is_vec
@spec
  ensures (r is Err) == c09_bad(*field),
    r is Ok ==> c08_styled(r->Ok_0, *field),
    r is Ok ==> c01_c04_declared(r->Ok_0, index, *field)
@entry
  broadcast use attrs::attr_axioms;
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == field.attrs@,
    match field_attrs(__s0@.take(__i0 as int)) { None => false, Some((n, u)) => u == unnamed && name_specified == (n is Some) && given_name(name, n) }
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use attrs::attr_axioms;
  proof { let w = __s0@.take(__i0 as int); assert(w.drop_last() =~= __s0@.take(__i0 - 1)); assert(w.last() == *attr);
    if field_attrs(w) is None { field_attrs_none(__s0@, __i0 as int); } }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); }

@fn Params::from_fields
@ret r
@locals fields args unnamed_required unnamed_optional unnamed_variadic named rest index field span p p p
@spec
  ensures match r { Ok(p) => c09_well_formed(fields@) && p.fields == fields && params_ok(p), Err(_) => !c09_well_formed(fields@) },
    r is Ok ==> r->Ok_0.name_filter == c06_filter(*args),
    r is Ok ==> c04_in_order(fields@, fields@.len() as int, r->Ok_0.unnamed_required@, r->Ok_0.unnamed_optional@, r->Ok_0.unnamed_variadic),
    r is Ok ==> c04_variadic_all(fields@, r->Ok_0.unnamed_variadic), r is Ok ==> c01_named_all(fields@, r->Ok_0.named@), r is Ok ==> c01_rest_all(fields@, r->Ok_0.rest)
@entry
  let ghost mut done: Seq<Field> = Seq::empty();
  proof { assert(ixs(Seq::<UnnamedParam<'a>>::empty()) =~= Seq::<int>::empty()); assert(fields@.take(0) =~= Seq::<Field>::empty()); }
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == fields@, done == fields@.take(__i0 as int), c09_well_formed(done),
    from_state(fields@, done, unnamed_required@, unnamed_optional@, unnamed_variadic, named@, rest),
    c04_in_order(fields@, __i0 as int, unnamed_required@, unnamed_optional@, unnamed_variadic),
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use lemma_ixs_push;
  proof { lemma_ix_step(fields@, __i0 as int); lemma_any_push(done, *field); lemma_wf_step(fields@, __i0 as int); lemma_wf_none(fields@, __i0 as int); done = done.push(*field); assert(done =~= fields@.take(__i0 as int)); }
@loopexit 0
  proof { assert(done =~= fields@); assert(fields@.take(__i0 as int) =~= fields@); }

// ---- code generation: no panic on accepted definitions; which names are offered for which style (C06) ----
@fn Params::named_ps
@ret r
@locals self f p p
@closure 0
|p: &&NamedParam<'a>| -> (b: bool) requires call_requires(f, (&p.ty,)) ensures call_ensures(f, (&p.ty,), b)
@spec
  requires forall|t: &NamedParamType<'a>| call_requires(f, (t,))
  ensures forall|w: Style| (forall|t: &NamedParamType<'a>, b: bool| call_ensures(f, (t,), b) ==> b == takes(sty(*t), w)) ==> #[trigger] c06_offers(*self, r.0@, r.1, w)
@entry
  reveal(c06_offers);
@fn ParamInfo::build_let_none
@ret r
@spec
  ensures c03_lets(r.code(), self.temp_ident.text(), Lv::O(None))
@fn ParamInfo::build_let_vec_new
@ret r
@spec
  ensures c03_lets(r.code(), self.temp_ident.text(), Lv::L(Seq::empty()))
@fn ParamInfo::build_let_parse
@ret r
@spec
  ensures c04_let_parse(r.code(), self.temp_ident.text(), self.field.ty)
@fn ArgKind::to_helper_name_index_variant
@ret r
@spec
  ensures c01_way(r.code(), self)
@fn build_parse_expr
@ret r
@spec
  ensures c01_c04_parse(r.code(), *ty)
@fn build_parse_expr_name_args
@ret r
@spec
  ensures c01_args(r.code(), *ty, is_vec)
@fn NamedParamType::build_parse_expr
@ret r
@spec
  requires takes(sty(*self), style_of(kind))
  ensures c01_c16_value(r.code(), sty(*self), style_of(kind))
@fn NamedParam::build_let
@ret r
@spec
  ensures c03_lets(r.code(), self.info.temp_ident.text(), Lv::O(None))
@fn NamedParam::build_arm_parse
@ret r
@spec
  requires takes(sty(self.ty), style_of(kind))
  ensures c01_c02_c16_named_arm(r.code(), self.info.temp_ident.text(), sty(self.ty), index, style_of(kind))
@fn NamedParam::names
@ret r
@closure 0
|x: &&'b NamedParam| -> (s: &'b str) ensures s@ == x.name@
@spec
  ensures r@.len() == ps@.len(), forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] r@[i])@ == ps@[i].name@
@fn build_ctor_arg
@spec
  requires info.index < old(ctor_args)@.len()
  ensures c01_put(old(ctor_args)@, final(ctor_args)@, *info, value.code())
@fn NamedParam::build_ctor_arg
@spec
  requires self.info.index < old(ctor_args)@.len(), named_is(*self)
  ensures c01_c03_put(old(ctor_args)@, final(ctor_args)@, self.info)
@entry
  proof { c03_messages(self.name@); }
@fn RestParam::build_let
@ret r
@spec
  ensures c03_lets(r.code(), self.info.temp_ident.text(), Lv::M(Map::empty()))
@fn RestParam::build_arm_parse
@ret r
@spec
  requires takes(sty(self.ty), style_of(kind))
  ensures c01_c02_c16_rest_arm(r.code(), self.info.temp_ident.text(), sty(self.ty), style_of(kind))
@fn RestParam::build_ctor_arg
@spec
  requires self.info.index < old(ctor_args)@.len(), rest_is(*self)
  ensures c01_c03_put(old(ctor_args)@, final(ctor_args)@, self.info)
@fn UnnamedParam::build_arm_parse_value
@ret r
@spec
  ensures c04_value_arm(r.code(), self.info.temp_ident.text(), *self.ty, index)
@fn UnnamedParam::build_arm_parse_vec_item
@ret r
@spec
  ensures c04_item_arm(r.code(), self.info.temp_ident.text(), *self.ty)
@fn UnnamedParam::build_ctor_arg
@spec
  requires self.info.index < old(ctor_args)@.len(), self.is_option ==> var_is_option, unnamed_is(*self), var_is_option ==> self.is_option
  ensures c01_c03_put(old(ctor_args)@, final(ctor_args)@, self.info)
@text
pub open spec fn c06_named<'a>(ps: Seq<&NamedParam<'a>>, ns: Seq<&str>) -> bool { ns.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ns[i])@ == ps[i].name@ }
pub open spec fn c01_c02_c03_c04_c05_loop(code: Seq<Cd>, m: Seq<Seq<Cd>>) -> bool { code.len() > 0 && code.last() == Cd::N(s_main(), m) }
pub open spec fn c06_takes(b: bool, p: NamedParamType, w: Style) -> bool { b == takes(sty(p), w) }
pub open spec fn c05_first_done(b: bool, i: int) -> bool { b == (i > 0) }
pub open spec fn c06_no_unnamed(b: bool, p: Params) -> bool { b == (p.unnamed_optional@.len() == 0 && p.unnamed_variadic is None) }
pub open spec fn c05_is_next(b: bool, p: Params) -> bool { b == (p.unnamed_required@.len() > 0) }
pub open spec fn c04_last_arm(p: Params, b: Seq<TokenStream>, a: Seq<TokenStream>) -> bool {
    b.len() == a.len() + 1 && b.drop_last() =~= a
    && (p.unnamed_variadic is Some ==> c04_item_arm(b.last().code(), p.unnamed_variadic->0.info.temp_ident.text(), *p.unnamed_variadic->0.ty))
    && (p.unnamed_variadic is None ==> node_of(b.last().code(), s_manyarm(), 0) is Some)
}
pub open spec fn c04_unnamed_quoted(none: bool, c: Seq<Cd>, arms: Seq<Cd>) -> bool { !none ==> c == seq![Cd::N(s_unnamed(), seq![arms])] }
/// the code, from its parts
pub proof fn lemma_built<'a>(p: Params<'a>, fp: Seq<&NamedParam<'a>>, fr: bool, vp: Seq<&NamedParam<'a>>, vr: bool, ap: Seq<&NamedParam<'a>>, ar: bool, code: Seq<Cd>,
    is_next: bool, fnames: Vec<&str>, vnames: Vec<&str>, anames: Vec<&str>, no_unnamed: bool, filter: TokenStream, arms_named: Vec<TokenStream>, parse_unnamed: TokenStream, ctor: TokenStream, arms_unnamed: Vec<TokenStream>, arms0: Seq<TokenStream>)
    requires params_full(p), p.fields@.len() <= usize::MAX, c06_offers(p, fp, fr, Style::Flag), c06_offers(p, vp, vr, Style::NameValue), c06_offers(p, ap, ar, Style::NameArgs),
        c01_c02_c03_c04_c05_loop(code, seq![is_next.cd(), fnames.cd(), fr.cd(), vnames.cd(), vr.cd(), anames.cd(), ar.cd(), no_unnamed.cd(), filter.cd(), arms_named.cd(), parse_unnamed.cd(), ctor.cd()]),
        c06_named(fp, fnames@), c06_named(vp, vnames@), c06_named(ap, anames@), c06_no_unnamed(no_unnamed, p),
        c06_filter_code(filter.cd(), p.name_filter is SnakeCase), c05_is_next(is_next, p),
        c01_c02_c16_all(arms_named@, p, Tabs { f: tab_ps(fp, fr), v: tab_ps(vp, vr), a: tab_ps(ap, ar), no_unnamed: def_tabs(p.fields@).no_unnamed }, fp.len() as int, vp.len() as int, ap.len() as int, fr, vr, ar),
        c04_uarms(cds(arms0), p.fields@, p.unnamed_optional@.len() as int), c04_last_arm(p, arms_unnamed@, arms0),
        c04_unnamed_quoted(no_unnamed, parse_unnamed.code(), arms_unnamed.cd()),
        syn_fields(*p.fields) ==> c01_c03_ctor(ctor.code(), *p.fields), c01_c03_c04_done(p, code.drop_last())
    ensures syn_fields(*p.fields) ==> c01_c02_c03_c04_c05_meets(*p.fields, p.name_filter is SnakeCase, code)
{
    let fs = p.fields@;
    let t = Tabs { f: tab_ps(fp, fr), v: tab_ps(vp, vr), a: tab_ps(ap, ar), no_unnamed: def_tabs(p.fields@).no_unnamed };
    let m = seq![is_next.cd(), fnames.cd(), fr.cd(), vnames.cd(), vr.cd(), anames.cd(), ar.cd(), no_unnamed.cd(), filter.cd(), arms_named.cd(), parse_unnamed.cd(), ctor.cd()];
    lemma_full(p);
    lemma_main_is(code, m);
    c06_tab_is(m[1], m[2], fp, fr); c06_tab_is(m[3], m[4], vp, vr); c06_tab_is(m[5], m[6], ap, ar);
    c06_tables_in(m, t, p, fp, vp, ap, fr, vr, ar);
    assert(c05_first(m[0], fs));
    lemma_all_arms(arms_named@, p, t);
    c04_unnamed_is(m[10], p, arms_unnamed, arms0);
    if syn_fields(*p.fields) { lemma_meets_done(code, p, p.name_filter is SnakeCase); }
}
@fn Params::build
@ret r
@attrs #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@locals self is_next ts ctor_args index p msg arms_unnamed index p p p flag_ps flag_rest p name_value_ps name_value_rest p name_args_ps name_args_rest p arms_named index p index p index p p flag_names name_value_names name_args_names no_unnamed ctor_args ts_parse_unnamed name_filter
@closure 0 is_flag
|p: &NamedParamType<'a>| -> (b: bool) ensures c06_takes(b, *p, Style::Flag)
@closure 1 is_name_value
|p: &NamedParamType<'a>| -> (b: bool) ensures c06_takes(b, *p, Style::NameValue)
@closure 2 is_name_args
|p: &NamedParamType<'a>| -> (b: bool) ensures c06_takes(b, *p, Style::NameArgs)
@spec
  requires params_full(*self)
  ensures syn_fields(*self.fields) ==> c01_c02_c03_c04_c05_meets(*self.fields, self.name_filter is SnakeCase, r.code())
@entry
  broadcast use smr::build_lemmas;
  let ghost fs = self.fields@;
  let ghost mut b: Bs = bs0();
  let ghost mut arms0: Seq<TokenStream> = Seq::empty();
  let ghost mut sn: Seq<&NamedParam<'a>> = Seq::empty();
  let ghost mut code5: Seq<Cd> = Seq::empty();
  proof { lemma_full(*self); lemma_starts(*self); lemma_no_arms(*self); }
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == self.unnamed_required@, params_full(*self), fs == self.fields@, fs.len() <= usize::MAX, ctor_args@.len() == fs.len(), c05_first_done(is_next, __i0 as int),
    c01_c03_c04_sofar(*self, ts.code(), ctor_args@, Seq::empty(), b), b.req == __i0, b.opt == 0, b.named == 0
  decreases __s0@.len() - __i0
@loopentry 0
  let ghost (code0, args0) = (ts.code(), ctor_args@);
  proof { lemma_full_required(*self, __i0 - 1); }
@loopend 0
  proof { b = c04_step_required(*self, code0, ts.code(), args0, ctor_args@, b); }
@loop 1
  invariant __i1 <= __s1@.len(), __s1@ == self.unnamed_optional@, params_full(*self), fs == self.fields@, fs.len() <= usize::MAX, ctor_args@.len() == fs.len(),
    c01_c03_c04_sofar(*self, ts.code(), ctor_args@, Seq::empty(), b), b.req == self.unnamed_required@.len(), b.opt == __i1, b.named == 0, c04_uarms(cds(arms_unnamed@), fs, __i1 as int)
  decreases __s1@.len() - __i1
@loopentry 1
  let ghost (code0, args0, arms1) = (ts.code(), ctor_args@, arms_unnamed@);
  proof { lemma_full_optional(*self, __i1 - 1); }
@loopend 1
  proof { b = c03_step_optional(*self, code0, ts.code(), args0, ctor_args@, b); c04_uarm_next(arms1, arms_unnamed@, fs, __i1 - 1, *p); }
@loopexit 1
  proof { arms0 = arms_unnamed@; b = var_next(*self, b); }
@loop 2
  invariant __i2 <= __s2.v@.len(), all_values(__s2.v@, self.named@), params_full(*self), fs == self.fields@, fs.len() <= usize::MAX, ctor_args@.len() == fs.len(),
    c01_c03_c04_sofar(*self, ts.code(), ctor_args@, __s2.v@, b), b.req == self.unnamed_required@.len(), b.opt == self.unnamed_optional@.len(), b.var, b.named == __i2
  decreases __s2.v@.len() - __i2
@loopentry 2
  let ghost (code0, args0) = (ts.code(), ctor_args@);
  proof { lemma_full_named(*self, __s2.v@, __i2 - 1); }
@loopend 2
  proof { b = c03_step_named(*self, code0, ts.code(), args0, ctor_args@, __s2.v@, b); }
@loopexit 2
  proof {
    code5 = ts.code(); sn = __s2.v@;
    if self.rest is Some {
      assert forall|v: Vec<TokenStream>, c: TokenStream| #[trigger] c01_c03_put(ctor_args@, v@, self.rest->0.info) && #[trigger] c03_lets(c.code(), self.rest->0.info.temp_ident.text(), Lv::M(Map::empty())) implies c01_c03_c04_ready(*self, ts.code() + c.code(), cds(v@)) by {
        let d = ts.code() + c.code(); assert(d.drop_last() =~= ts.code()); assert(d.last() == c.code()[0]);
        c03_step_rest(*self, ts.code(), d, ctor_args@, v@, sn, b); lemma_ready(*self, d, v@, sn, rest_next(*self, b)); }
    } else { lemma_sofar_rest(*self, ts.code(), ctor_args@, sn, b); lemma_ready(*self, ts.code(), ctor_args@, sn, rest_next(*self, b)); }
  }
@loop 3
  invariant __i3 <= __s3@.len(), __s3@ == flag_ps@, params_full(*self), c06_offers(*self, flag_ps@, flag_rest, Style::Flag), c01_c02_c16_named(arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }, __i3 as int, 0, 0)
  decreases __s3@.len() - __i3
@loopentry 3
  let ghost arms1 = arms_named@;
  proof { lemma_offered(*self, flag_ps@, flag_rest, Style::Flag, __i3 - 1); }
@loopend 3
  proof { c01_c02_c16_named_next(arms1, arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }, __i3 - 1, 0, 0, **p, __i3 - 1, Style::Flag); }
@loop 4
  invariant __i4 <= __s4@.len(), __s4@ == name_value_ps@, params_full(*self), c06_offers(*self, name_value_ps@, name_value_rest, Style::NameValue), c01_c02_c16_named(arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }, flag_ps@.len() as int, __i4 as int, 0)
  decreases __s4@.len() - __i4
@loopentry 4
  let ghost arms1 = arms_named@;
  proof { lemma_offered(*self, name_value_ps@, name_value_rest, Style::NameValue, __i4 - 1); }
@loopend 4
  proof { c01_c02_c16_named_next(arms1, arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }, flag_ps@.len() as int, __i4 - 1, 0, **p, __i4 - 1, Style::NameValue); }
@loop 5
  invariant __i5 <= __s5@.len(), __s5@ == name_args_ps@, params_full(*self), c06_offers(*self, name_args_ps@, name_args_rest, Style::NameArgs), c01_c02_c16_named(arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }, flag_ps@.len() as int, name_value_ps@.len() as int, __i5 as int)
  decreases __s5@.len() - __i5
@loopentry 5
  let ghost arms1 = arms_named@;
  proof { lemma_offered(*self, name_args_ps@, name_args_rest, Style::NameArgs, __i5 - 1); }
@loopend 5
  proof { c01_c02_c16_named_next(arms1, arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }, flag_ps@.len() as int, name_value_ps@.len() as int, __i5 - 1, **p, __i5 - 1, Style::NameArgs); }
@loopexit 5
  proof { lemma_offers_rest(*self, flag_ps@, flag_rest, Style::Flag); lemma_offers_rest(*self, name_value_ps@, name_value_rest, Style::NameValue); lemma_offers_rest(*self, name_args_ps@, name_args_rest, Style::NameArgs);
    lemma_named_all(arms_named@, *self, Tabs { f: tab_ps(flag_ps@, flag_rest), v: tab_ps(name_value_ps@, name_value_rest), a: tab_ps(name_args_ps@, name_args_rest), no_unnamed: def_tabs(self.fields@).no_unnamed }); }
@tail
  proof { lemma_built(*self, flag_ps@, flag_rest, name_value_ps@, name_value_rest, name_args_ps@, name_args_rest, ts.code(), is_next, flag_names, name_value_names, name_args_names, no_unnamed, name_filter, arms_named, ts_parse_unnamed, ctor_args, arms_unnamed, arms0); }

@include impltr.vc
@assume impltr_fns.vc
@file structmeta-derive/src/struct_meta.rs
@quote s_tr ::structmeta::helpers::exports::syn::parse::Parse
@quote s_fn fn parse(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<Self> { #0 }
@text
/// the body of the generated function, and the impl around it
pub open spec fn sm_body(code: Seq<Cd>) -> Option<Seq<Cd>> {
    match node_of(code, q_impl(), 6) { Some(a) => match node_of(a[5], s_fn(), 1) { Some(f) => Some(f[0]), None => None }, None => None }
}
pub open spec fn c17_struct_meta(code: Seq<Cd>, d: DeriveInput) -> bool {
    match sm_body(code) { Some(b) => code == c17_impl(d, seq![Cd::N(s_tr(), seq![])], Seq::empty(), seq![Cd::N(s_fn(), seq![b])]), None => false }
}
/// the generated parser: its body parses what the property asks, for the fields and the name filter of the definition
pub open spec fn c01_c02_c03_c04_c05_c06_c16_parser(code: Seq<Cd>, d: DeriveInput) -> bool {
    match (d.data, sm_body(code)) { (Data::Struct(s), Some(b)) => syn_fields(s.fields) ==> c01_c02_c03_c04_c05_meets(s.fields, item_attrs(d.attrs@) == Some(true), b), _ => false }
}
pub broadcast proof fn lemma_is_full(p: Params)
    requires params_ok(p), c09_well_formed(p.fields@), c04_in_order(p.fields@, p.fields@.len() as int, p.unnamed_required@, p.unnamed_optional@, p.unnamed_variadic), c04_variadic_all(p.fields@, p.unnamed_variadic), c01_named_all(p.fields@, p.named@), c01_rest_all(p.fields@, p.rest)
    ensures #[trigger] params_full(p)
{ reveal(params_full); }
@fn derive_struct_meta
@ret r
@locals input data args attr ps body span
@spec
  ensures (r is Ok) == c09_accepted(input),
    r is Ok ==> c17_struct_meta(r->Ok_0.code(), input),
    r is Ok ==> c01_c02_c03_c04_c05_c06_c16_parser(r->Ok_0.code(), input)
@entry
  broadcast use lemma_is_full;
@loop 0
  invariant c06_snake(args), __i0 <= __s0@.len(), __s0@ == input.attrs@, item_attrs(__s0@.take(__i0 as int)) == Some(args.name_filter is Some), args.dump ==> asked_dump(input), input.data == Data::Struct(*data)
  decreases __s0@.len() - __i0
@loopentry 0
  proof { let w = __s0@.take(__i0 as int); assert(w.drop_last() =~= __s0@.take(__i0 - 1)); assert(w.last() == *attr);
    if item_attrs(w) is None { item_attrs_none(__s0@, __i0 as int); } }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
@complete
@include entry.vc
@text
pub open spec fn c09_answered(ok: bool, r: Seq<Cd>) -> bool { answers(ok, r) }
pub open spec fn c01_c02_c03_c04_c05_c06_c16_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c09_accepted(d) ==> c01_c02_c03_c04_c05_c06_c16_parser(r, d) }
pub open spec fn c17_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c09_accepted(d) ==> c17_struct_meta(r, d) }
@file structmeta-derive/src/lib.rs
@fn derive_struct_meta
@rename entry_point
@ret r
@spec
  ensures match item_of(input) { None => is_error(r.code()), Some(d) => c09_answered(c09_accepted(d), r.code()) && c01_c02_c03_c04_c05_c06_c16_answered(d, r.code()) && c17_answered(d, r.code()) }
