@// Common part of the units generated for derived ToTokens and Parse (lib/generated.py)
@include prelude.vc
@include delim.vc
@file structmeta/src/helpers.rs
@fn parse_macro_delimiter
@ret r
@locals input content token
@external
@spec
  ensures md_parsed(old(input)@, final(input)@, r)
@text
pub mod gen {
use super::*;
/// the value of a field: what its parser made of the tokens, a list, or a delimiter
pub ghost enum Tv { V(Val), L(Seq<Val>), D(Dl, int) }
pub trait Tvw { spec fn tv(&self) -> Tv; }
pub trait ToTokens { spec fn toks(&self) -> Seq<Tt>;
    fn to_tokens(&self, tokens: &mut TokenStream) ensures final(tokens)@ == old(tokens)@ + self.toks(); }
/// `d.surround(tokens, f)` after `f` has run on an empty stream
pub trait Surround { spec fn dl(&self) -> Dl; spec fn dsp(&self) -> int;
    fn vx_surround(&self, tokens: &mut TokenStream, inner: TokenStream) ensures final(tokens)@ == old(tokens)@.push(Tt::Group(self.dl(), inner@, self.dsp())); }
impl TokenStream { #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Tt>::empty() { unimplemented!() } }
impl Surround for Paren { open spec fn dl(&self) -> Dl { Dl::Paren } open spec fn dsp(&self) -> int { self.span@ } #[verifier::external_body] fn vx_surround(&self, tokens: &mut TokenStream, inner: TokenStream) { unimplemented!() } }
impl Surround for Brace { open spec fn dl(&self) -> Dl { Dl::Brace } open spec fn dsp(&self) -> int { self.span@ } #[verifier::external_body] fn vx_surround(&self, tokens: &mut TokenStream, inner: TokenStream) { unimplemented!() } }
impl Surround for Bracket { open spec fn dl(&self) -> Dl { Dl::Bracket } open spec fn dsp(&self) -> int { self.span@ } #[verifier::external_body] fn vx_surround(&self, tokens: &mut TokenStream, inner: TokenStream) { unimplemented!() } }
/// proved in the helpers unit as surround_macro_delimiter
#[verifier::external_body] pub fn vx_surround_macro_delimiter(this: &MacroDelimiter, tokens: &mut TokenStream, inner: TokenStream)
    ensures final(tokens)@ == old(tokens)@.push(Tt::Group(md_delim(*this), inner@, md_span(*this))) { unimplemented!() }
impl Tvw for Paren { open spec fn tv(&self) -> Tv { Tv::D(Dl::Paren, self.span@) } }
impl Tvw for Brace { open spec fn tv(&self) -> Tv { Tv::D(Dl::Brace, self.span@) } }
impl Tvw for Bracket { open spec fn tv(&self) -> Tv { Tv::D(Dl::Bracket, self.span@) } }
impl Tvw for MacroDelimiter { open spec fn tv(&self) -> Tv { Tv::D(md_delim(*self), md_span(*self)) } }
impl<T: Parse> Tvw for T { open spec fn tv(&self) -> Tv { Tv::V(self.val()) } }
/// field types: parsers and printers are any functions
#[verifier::external_body] pub struct LitInt { _p: u8 }
#[verifier::external_body] pub struct LitStr { _p: u8 }
#[verifier::external_body] pub struct Expr { _p: u8 }
#[verifier::external_body] pub struct Type { _p: u8 }
pub struct TkFn {}
impl Parse for LitInt { open spec fn ty() -> int { 1 } uninterp spec fn val(&self) -> Val; }
impl Parse for LitStr { open spec fn ty() -> int { 2 } uninterp spec fn val(&self) -> Val; }
impl Parse for Expr { open spec fn ty() -> int { 3 } uninterp spec fn val(&self) -> Val; }
impl Parse for Type { open spec fn ty() -> int { 4 } uninterp spec fn val(&self) -> Val; }
impl Parse for Ident { open spec fn ty() -> int { 6 } uninterp spec fn val(&self) -> Val; }
impl Parse for TkFn { open spec fn ty() -> int { 7 } uninterp spec fn val(&self) -> Val; }
impl Parse for Option<TkComma> { open spec fn ty() -> int { 8 } uninterp spec fn val(&self) -> Val; }
/// keyword-accepting and separator-terminated parsers: functions of the tokens as well
pub uninterp spec fn leaf_any(ty: int, t: Seq<Tt>) -> Option<(Val, nat)>;
pub uninterp spec fn terms(ty: int, sep: int, t: Seq<Tt>) -> Option<Seq<Val>>;
pub uninterp spec fn terms_any(ty: int, sep: int, t: Seq<Tt>) -> Option<Seq<Val>>;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(P)] pub struct Punctuated<T, P> { _k: std::marker::PhantomData<(T, P)> }
pub struct AnyParser {}
impl<T, P> Punctuated<T, P> { pub uninterp spec fn vals(&self) -> Seq<Val>; }
impl<T, P> Tvw for Punctuated<T, P> { open spec fn tv(&self) -> Tv { Tv::L(self.vals()) } }
impl<T: Parse, P: Parse> Punctuated<T, P> {
    #[verifier::external_body] pub fn parse_terminated(input: &mut ParseBuffer) -> (r: Result<Self>)
        ensures match terms(T::ty(), P::ty(), old(input)@.toks) {
            Some(l) => r is Ok && r->Ok_0.vals() == l && final(input)@ == (Pb { toks: Seq::empty(), ..old(input)@ }),
            None => r is Err,
        } { unimplemented!() }
    #[verifier::external_body] pub fn parse_terminated_with(input: &mut ParseBuffer, f: AnyParser) -> (r: Result<Self>)
        ensures match terms_any(T::ty(), P::ty(), old(input)@.toks) {
            Some(l) => r is Ok && r->Ok_0.vals() == l && final(input)@ == (Pb { toks: Seq::empty(), ..old(input)@ }),
            None => r is Err,
        } { unimplemented!() }
}
pub broadcast axiom fn any_leaf(t: Seq<Tt>) ensures (#[trigger] leaf_any(6, t)) is Some == ident_head(t) is Some, leaf_any(6, t) is Some ==> (leaf_any(6, t)->0).1 == 1;
pub broadcast axiom fn any_value(i: Ident, t: Seq<Tt>) ensures ident_head(t) == Some((i.text(), i.sp())) ==> #[trigger] leaf_any(6, t) == Some((#[trigger] i.val(), 1nat));
/// peeking of field types: any function of the tokens
pub uninterp spec fn peek_of(ty: int, t: Seq<Tt>) -> bool;
impl Peek for LitInt { open spec fn peeks(t: Seq<Tt>) -> bool { peek_of(1, t) } }
impl Peek for LitStr { open spec fn peeks(t: Seq<Tt>) -> bool { peek_of(2, t) } }
impl Peek for Ident { open spec fn peeks(t: Seq<Tt>) -> bool { peek_of(6, t) } }
impl Peek for TkFn { open spec fn peeks(t: Seq<Tt>) -> bool { peek_of(7, t) } }
impl ParseBuffer {
    #[verifier::external_body] pub fn peek_any<T>(&self) -> (r: bool) ensures r == (ident_head(self@.toks) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn peek2_any<T>(&self) -> (r: bool) ensures r == (self@.toks.len() > 0 && ident_head(self@.toks.skip(1)) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn peek3_any<T>(&self) -> (r: bool) ensures r == (self@.toks.len() > 1 && ident_head(self@.toks.skip(2)) is Some) { unimplemented!() }
}
pub open spec fn at(t: Seq<Tt>, n: int) -> Option<Seq<Tt>> { if t.len() >= n { Some(t.skip(n)) } else { None } }
pub open spec fn peeks_at<T: Peek>(t: Seq<Tt>, n: int) -> bool { t.len() >= n && T::peeks(if n == 0 { t } else { t.skip(n) }) }
pub open spec fn peeks_any_at(t: Seq<Tt>, n: int) -> bool { t.len() >= n && ident_head(if n == 0 { t } else { t.skip(n) }) is Some }
macro_rules! printers { ($($t:ty)*) => { verus! { $(impl ToTokens for $t { uninterp spec fn toks(&self) -> Seq<Tt>; #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } })* } } }
printers! { LitInt LitStr Expr Type Ident TkFn TkComma TkEq TkFatArrow Option<TkComma> }
impl<T, P> ToTokens for Punctuated<T, P> { uninterp spec fn toks(&self) -> Seq<Tt>; #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
pub broadcast group gen_axioms { any_leaf, any_value }
/// what a successful parse leaves: `t` of the tokens; `l`: a nested group was not read to its end
pub open spec fn left(b: Pb, t: Seq<Tt>, l: bool) -> Pb { Pb { toks: t, unexp: b.unexp || l, ..b } }
}
use gen::*;
