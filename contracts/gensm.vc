@// Common part of the units generated for derived StructMeta parsers (lib/generated.py)
@include prelude.vc
@include nameparse.vc
@include tryname.vc
@file structmeta/src/arg_types.rs
@item Flag
@item NameValue
@item NameArgs
@file structmeta/src/helpers.rs
@include tryname_fn.vc
@external
@fn is_snake_case
@ret r
@external
@spec
  ensures r == snake_name(s@)
@include plist.vc
@include values.vc
@text
pub mod gen {
use super::*;
/// the same value up to spans (C01) and the span (C16)
pub open spec fn nosp(f: Fv) -> Fv { match f { Fv::Sp(_) => Fv::Sp(0), Fv::N(_, i) => Fv::N(0, i), f => f } }
pub open spec fn spof(f: Fv) -> int { match f { Fv::Sp(s) => s, Fv::N(s, _) => s, _ => 0 } }
pub open spec fn opt_nosp(f: Option<Fv>) -> Option<Fv> { match f { Some(x) => Some(nosp(x)), None => None } }
pub open spec fn same_map(a: Map<Seq<char>, Fv>, b: Map<Seq<char>, Fv>) -> bool {
    forall|n: Seq<char>| #[trigger] a.dom().contains(n) == b.dom().contains(n) && (a.dom().contains(n) ==> nosp(a[n]) == nosp(b[n]))
}
pub trait Fval { spec fn fv(&self) -> Fv; }
pub trait Inn { spec fn inn(&self) -> Inner; }
pub open spec fn vals<T: Parse>(s: Seq<T>) -> Seq<Val> { s.map(|i: int, x: T| x.val()) }
pub broadcast proof fn vals_push<T: Parse>(s: Seq<T>, x: T) ensures #[trigger] vals(s.push(x)) == vals(s).push(x.val()) { assert(vals(s.push(x)) =~= vals(s).push(x.val())); }
pub broadcast proof fn vals_empty<T: Parse>() ensures #[trigger] vals::<T>(Seq::empty()) == Seq::<Val>::empty() { assert(vals::<T>(Seq::empty()) =~= Seq::<Val>::empty()); }
impl Fval for Span { open spec fn fv(&self) -> Fv { Fv::Sp(self@) } }
impl<T: Parse> Fval for T { open spec fn fv(&self) -> Fv { Fv::V(self.val()) } }
impl<T: Parse> Fval for Vec<T> { open spec fn fv(&self) -> Fv { Fv::L(vals(self@)) } }
impl<T: Inn> Fval for NameValue<T> { open spec fn fv(&self) -> Fv { Fv::N(self.name_span@, self.value.inn()) } }
impl<T: Inn> Fval for NameArgs<T> { open spec fn fv(&self) -> Fv { Fv::N(self.name_span@, self.args.inn()) } }
impl<T: Parse> Inn for T { open spec fn inn(&self) -> Inner { Inner::V(self.val()) } }
impl<T: Parse> Inn for Vec<T> { open spec fn inn(&self) -> Inner { Inner::L(vals(self@)) } }
impl<T: Parse> Inn for Option<T> { open spec fn inn(&self) -> Inner { match self { Some(x) => Inner::SomeV(x.val()), None => Inner::None } } }
impl<T: Parse> Inn for Option<Vec<T>> { open spec fn inn(&self) -> Inner { match self { Some(x) => Inner::SomeL(vals(x@)), None => Inner::None } } }
pub open spec fn fvo<T: Fval>(x: Option<T>) -> Option<Fv> { match x { Some(v) => Some(v.fv()), None => None } }
/// rest map (std::collections::HashMap<String, V>), by key text
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
impl<V: Fval> HashMap<String, V> {
    pub uninterp spec fn mv(&self) -> Map<Seq<char>, Fv>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.mv() == Map::<Seq<char>, Fv>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).mv() == old(self).mv().insert(k@, v.fv()), r is Some == old(self).mv().dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self.mv().dom().contains(k@) { unimplemented!() }
}
/// `Punctuated::<T, Token![,]>::parse_terminated`
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(P)] pub struct Punctuated<T, P> { _k: std::marker::PhantomData<(T, P)> }
impl<T: Parse> Punctuated<T, TkComma> {
    pub uninterp spec fn view(&self) -> Seq<Val>;
    #[verifier::external_body] pub fn parse_terminated(input: &mut ParseBuffer) -> (r: Result<Self>)
        ensures match plist(T::ty(), old(input)@.toks) {
            Some(l) => r is Ok && r->Ok_0.view() == l && final(input)@ == (Pb { toks: Seq::empty(), ..old(input)@ }),
            None => r is Err,
        } { unimplemented!() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body] pub fn collect(self) -> (r: Vec<T>) ensures vals(r@) == self.view() { unimplemented!() }
}
/// field parsers: any functions of the tokens
#[verifier::external_body] pub struct LitInt { _p: u8 }
#[verifier::external_body] pub struct LitStr { _p: u8 }
#[verifier::external_body] pub struct Expr { _p: u8 }
#[verifier::external_body] pub struct Type { _p: u8 }
#[verifier::external_body] pub struct Empty { _p: u8 }
impl Parse for LitInt { open spec fn ty() -> int { 1 } uninterp spec fn val(&self) -> Val; }
impl Parse for LitStr { open spec fn ty() -> int { 2 } uninterp spec fn val(&self) -> Val; }
impl Parse for Expr { open spec fn ty() -> int { 3 } uninterp spec fn val(&self) -> Val; }
impl Parse for Type { open spec fn ty() -> int { 4 } uninterp spec fn val(&self) -> Val; }
impl Parse for Empty { open spec fn ty() -> int { 5 } uninterp spec fn val(&self) -> Val; }
impl Parse for Ident { open spec fn ty() -> int { 6 } uninterp spec fn val(&self) -> Val; }
pub open spec fn reports_missing(e: Error, form: Seq<char>) -> bool { says_missing(e.msg(), form) }
pub proof fn lookup_bound(t: Tab, n: Seq<char>)
    ensures match lookup(t, n) { Some(Idx::At(i)) => 0 <= i < t.names.len(), Some(Idx::Rest(m)) => t.rest && m == n, None => true }
{ if t.names.contains(n) { t.names.index_of_first_ensures(n); } }
pub broadcast proof fn name_at_facts(s: Tabs, flt: spec_fn(Seq<char>) -> bool, t: Seq<Tt>)
    ensures match #[trigger] name_at(s, flt, t) {
        Named::Taken(w, i, _, n) => n <= t.len() && match i { Idx::At(j) => 0 <= j < s.of(w).names.len(), Idx::Rest(_) => s.of(w).rest },
        Named::Unnamed => !s.no_unnamed,
        Named::Err => true,
    }
{ reveal(name_at); if t.len() > 0 { let (n, sp) = ident_head(t)->0; match written(t.skip(1)) { Some(w) => { lookup_bound(s.of(w), n); } None => {} } } }
pub broadcast group gen_axioms { vals_push, vals_empty, buf_small, name_at_facts }
pub broadcast axiom fn buf_small(b: &ParseBuffer) ensures #[trigger] b@.toks.len() < 0x7000_0000;
}
use gen::*;
