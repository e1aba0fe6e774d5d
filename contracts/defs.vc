@//  Derive inputs and helper attributes (assumed: syn's DeriveInput, Field, Attribute), and what quoting leaves.
@include plist.vc
@text
pub mod defs {
use super::*;
use vstd::prelude::*;
/// What quoting produces: which template of the source was instantiated with which values, in order.
/// (Two streams with the same `code` have the same tokens, up to spans.)
pub ghost enum Cd {
    /// template (a tag per template text), values of its variables
    N(int, Seq<Seq<Cd>>),
    Id(Seq<char>), Num(int), Str(Seq<char>), Bool(bool), Ty(Type),
    /// generics as split_for_impl gives them for the impl and for the type; one where predicate
    ImplG(Generics), TyG(Generics), Pred(WherePredicate),
    /// #(#x)*
    R(Seq<Seq<Cd>>),
    /// another value
    O(int),
}
pub trait Interp { spec fn cd(&self) -> Seq<Cd>; }
impl<T: Interp + ?Sized> Interp for &T { open spec fn cd(&self) -> Seq<Cd> { (**self).cd() } }
impl Interp for Ident { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Id(self.text())] } }
impl Interp for Type { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Ty(*self)] } }
impl Interp for TokenStream { open spec fn cd(&self) -> Seq<Cd> { self.code() } }
impl Interp for usize { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Num(*self as int)] } }
impl Interp for bool { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Bool(*self)] } }
impl Interp for String { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Str(self@)] } }
impl Interp for str { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Str(self@)] } }
impl<T: Interp> Interp for Option<T> { open spec fn cd(&self) -> Seq<Cd> { match self { Some(x) => x.cd(), None => Seq::empty() } } }
pub open spec fn cds<T: Interp>(s: Seq<T>) -> Seq<Seq<Cd>> { Seq::new(s.len(), |i: int| s[i].cd()) }
impl<T: Interp> Interp for Vec<T> { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::R(cds(self@))] } }
#[verifier::external_body] pub struct TokenStream { _p: u8 }
impl TokenStream {
    pub uninterp spec fn code(&self) -> Seq<Cd>;
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r.code() == Seq::<Cd>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, t: TokenStream) ensures final(self).code() == old(self).code() + t.code() { unimplemented!() }
    pub fn default() -> (r: TokenStream) ensures r.code() == Seq::<Cd>::empty() { TokenStream::new() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures self.code().len() == 0 ==> r { unimplemented!() }
}
/// std::mem
pub trait VxDefault { spec fn is_default(&self) -> bool; }
impl VxDefault for TokenStream { open spec fn is_default(&self) -> bool { self.code() == Seq::<Cd>::empty() } }
impl<T> VxDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> VxDefault for Option<T> { open spec fn is_default(&self) -> bool { self is None } }
impl VxDefault for bool { open spec fn is_default(&self) -> bool { !*self } }
impl VxDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } }
impl VxDefault for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() } }
#[verifier::external_body] pub fn take<T: VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { unimplemented!() }
#[verifier::external_body] pub fn replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
#[verifier::external_body] pub fn swap<T>(x: &mut T, y: &mut T) ensures *final(x) == *old(y), *final(y) == *old(x) { unimplemented!() }
impl Clone for TokenStream { #[verifier::external_body] fn clone(&self) -> (r: TokenStream) ensures r.code() == self.code() { unimplemented!() } }
/// parse_quote!, format_ident!: do not panic on the templates in the source
pub trait Quoted: Interp {}
impl Quoted for Path {}
impl Interp for Path { uninterp spec fn cd(&self) -> Seq<Cd>; }
#[verifier::external_body] pub fn vx_pq_ident<T: Interp>(s: &str) -> (r: T) ensures r.cd() == seq![Cd::Id(s@)] { unimplemented!() }
#[verifier::external_body] pub fn vx_ident(s: String) -> (r: Ident) ensures r.text() == s@ { unimplemented!() }
/// how format_ident! prints a value
pub trait Frag { spec fn frag(&self) -> Seq<char>; fn frag_string(&self) -> (r: String) ensures r@ == self.frag(); }
impl<T: Frag> Frag for &T { open spec fn frag(&self) -> Seq<char> { (**self).frag() } fn frag_string(&self) -> (r: String) { (**self).frag_string() } }
impl Frag for Ident { open spec fn frag(&self) -> Seq<char> { unrawed(self.text()) } #[verifier::external_body] fn frag_string(&self) -> (r: String) { unimplemented!() } }
impl Frag for usize { open spec fn frag(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn frag_string(&self) -> (r: String) { unimplemented!() } }
impl Frag for String { open spec fn frag(&self) -> Seq<char> { self@ } #[verifier::external_body] fn frag_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body] pub fn vx_panic_when(Ghost(c): Ghost<bool>) -> ! requires c { unimplemented!() }
#[verifier::external_body] pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_own<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub trait IntoVec { type Item; spec fn seq(&self) -> Seq<Self::Item>; fn into_vec(self) -> (r: Vec<Self::Item>) where Self: Sized ensures r@ == self.seq(); }
impl<T> IntoVec for Vec<T> { type Item = T; open spec fn seq(&self) -> Seq<T> { self@ } fn into_vec(self) -> (r: Vec<T>) { self } }
impl<T, P> IntoVec for Punctuated<T, P> { type Item = T; open spec fn seq(&self) -> Seq<T> { self@ } fn into_vec(self) -> (r: Vec<T>) { self.v } }
pub fn vx_map<T, U, F: Fn(&T) -> U>(s: &[T], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] &s@[i],))
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), #[trigger] r@[i])
{
    let mut r: Vec<U> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), r@.len() == i, forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] &s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&s@[j],), #[trigger] r@[j])
        decreases s@.len() - i
    { r.push(f(&s[i])); i = i + 1; }
    r
}
impl Disp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl Disp for usize { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }

// ---- BTreeMap<String, V>: by key text; values in key order ------------------------------------
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
pub struct Vals<'a, V> { pub v: Vec<&'a V> }
pub open spec fn all_values<V>(s: Seq<&V>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> exists|k: Seq<char>| m.dom().contains(k) && *(#[trigger] s[i]) == m[k]
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == m[k]
}
impl<V> View for BTreeMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> BTreeMap<String, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r is Some == old(self)@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: Vals<'_, V>) ensures all_values(r.v@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
}
impl<'a, V> Vals<'a, V> {
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    /// the values the predicate accepts, in order
    pub fn filter<F: Fn(&&'a V) -> bool>(self, f: F) -> (r: Vals<'a, V>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (#[trigger] &self.v@[i],))
        ensures forall|i: int| 0 <= i < r.v@.len() ==> self.v@.contains(#[trigger] r.v@[i]) && call_ensures(f, (&r.v@[i],), true),
            forall|i: int| 0 <= i < self.v@.len() ==> r.v@.contains(#[trigger] self.v@[i]) || call_ensures(f, (&self.v@[i],), false)
    {
        let mut r: Vec<&'a V> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self.v@.len(), forall|i: int| 0 <= i < self.v@.len() ==> call_requires(f, (#[trigger] &self.v@[i],)),
                forall|j: int| 0 <= j < r@.len() ==> self.v@.contains(#[trigger] r@[j]) && call_ensures(f, (&r@[j],), true),
                forall|j: int| 0 <= j < i ==> r@.contains(#[trigger] self.v@[j]) || call_ensures(f, (&self.v@[j],), false)
            decreases self.v@.len() - i
        {
            let x = self.v[i];
            let ghost r0 = r@;
            if f(&x) {
                r.push(x);
                proof { assert(r@[r0.len() as int] == x); assert forall|j: int| 0 <= j < i implies r@.contains(#[trigger] self.v@[j]) || call_ensures(f, (&self.v@[j],), false) by { if r0.contains(self.v@[j]) { let k = choose|k: int| 0 <= k < r0.len() && r0[k] == self.v@[j]; assert(r@[k] == self.v@[j]); } } }
            }
            i = i + 1;
        }
        Vals { v: r }
    }
    pub fn collect(self) -> (r: Vec<&'a V>) ensures r@ == self.v@ { self.v }
}
impl<'a, V> vstd::std_specs::core::IndexSpecImpl<usize> for Vals<'a, V> { open spec fn index_req(&self, i: &usize) -> bool { *i < self.v@.len() } }
impl<'a, V> std::ops::Index<usize> for Vals<'a, V> { type Output = &'a V;
    fn index(&self, i: usize) -> (r: &&'a V) ensures *r == self.v@[i as int] { &self.v[i] } }

// ---- definitions ------------------------------------------------------------------------------
pub trait Spanned { fn span(&self) -> Span; }
impl Spanned for Field { #[verifier::external_body] fn span(&self) -> Span { unimplemented!() } }
impl Spanned for DeriveInput { #[verifier::external_body] fn span(&self) -> Span { unimplemented!() } }
impl Spanned for Fields { #[verifier::external_body] fn span(&self) -> Span { unimplemented!() } }
impl Spanned for Type { #[verifier::external_body] fn span(&self) -> Span { unimplemented!() } }
#[verifier::external_body] pub struct Generics { _p: u8 }
#[verifier::external_body] pub struct WherePredicate { _p: u8 }
pub struct WhereClause { pub predicates: Punctuated<WherePredicate, TkComma> }
pub struct ImplGenerics<'a> { pub g: &'a Generics }
pub struct TypeGenerics<'a> { pub g: &'a Generics }
impl<'a> Interp for ImplGenerics<'a> { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::ImplG(*self.g)] } }
impl<'a> Interp for TypeGenerics<'a> { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::TyG(*self.g)] } }
impl Interp for WherePredicate { open spec fn cd(&self) -> Seq<Cd> { seq![Cd::Pred(*self)] } }
impl Clone for WherePredicate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Generics {
    /// None: no where clause
    pub uninterp spec fn preds(&self) -> Option<Seq<WherePredicate>>;
    #[verifier::external_body] pub fn split_for_impl(&self) -> (r: (ImplGenerics<'_>, TypeGenerics<'_>, Option<&WhereClause>))
        ensures r.0.g == self, r.1.g == self, match r.2 { Some(w) => self.preds() == Some(w.predicates@), None => self.preds() is None } { unimplemented!() }
}
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(#[trigger] s@[i], r@[i]);
pub trait AsSeq { type Item; spec fn as_seq(&self) -> Seq<Self::Item>; }
impl<T> AsSeq for Vec<T> { type Item = T; open spec fn as_seq(&self) -> Seq<T> { self@ } }
impl<T, P> AsSeq for Punctuated<T, P> { type Item = T; open spec fn as_seq(&self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn vx_extend_cloned<S: AsSeq>(v: &mut Vec<S::Item>, s: &S) ensures final(v)@ == old(v)@ + s.as_seq() { unimplemented!() }
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub data: Data }
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
pub struct DataStruct { pub fields: Fields }
pub struct DataEnum { pub variants: Punctuated<Variant, TkComma> }
pub struct Variant { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields }
#[verifier::external_body] pub struct DataUnion { _p: u8 }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
pub struct FieldsNamed { pub named: Punctuated<Field, TkComma> }
pub struct FieldsUnnamed { pub unnamed: Punctuated<Field, TkComma> }
pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<Ident>, pub ty: Type }
impl View for Fields { type V = Seq<Field>; open spec fn view(&self) -> Seq<Field> { match self { Fields::Named(f) => f.named@, Fields::Unnamed(f) => f.unnamed@, Fields::Unit => Seq::empty() } } }
impl Fields {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { match self { Fields::Named(f) => f.named.len(), Fields::Unnamed(f) => f.unnamed.len(), Fields::Unit => 0 } }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
}
impl vstd::std_specs::core::IndexSpecImpl<usize> for Fields { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl std::ops::Index<usize> for Fields { type Output = Field;
    #[verifier::external_body] fn index(&self, i: usize) -> (r: &Field) ensures *r == self@[i as int] { unimplemented!() } }

// ---- attributes -------------------------------------------------------------------------------
/// `#[path(args)]`; `args` is None for `#[path]` and `#[path = value]`
#[verifier::external_body] pub struct Attribute { _p: u8 }
pub open spec fn path_is(p: Path, s: Seq<char>) -> bool { p.leading_colon is None && p.segments@.len() == 1 && p.segments@[0].arguments is None && p.segments@[0].ident.text() == s }
impl Path { pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == path_is(*self, s@) { self.leading_colon.is_none() && self.segments.len() == 1 && self.segments[0].arguments.is_none() && self.segments[0].ident == s } }
impl Attribute {
    pub uninterp spec fn p(&self) -> Path;
    pub uninterp spec fn args(&self) -> Option<Seq<Tt>>;
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures *r == self.p() { unimplemented!() }
    #[verifier::external_body] pub fn parse_args<T: Parse>(&self) -> (r: Result<T>)
        ensures match self.args() {
            Some(t) => match leaf(T::ty(), t) { Some((v, n)) => if n == t.len() { r is Ok && r->Ok_0.val() == v } else { r is Err }, None => r is Err },
            None => r is Err,
        } { unimplemented!() }
    #[verifier::external_body] pub fn parse_args_terminated<T: Parse, P>(&self) -> (r: Result<Punctuated<T, P>>)
        ensures match self.args() {
            Some(t) => match plist(T::ty(), t) { Some(l) => r is Ok && vals(r->Ok_0@) == l, None => r is Err },
            None => r is Err,
        } { unimplemented!() }
}
pub open spec fn vals<T: Parse>(s: Seq<T>) -> Seq<Val> { s.map_values(|x: T| x.val()) }
impl<T: Parse> Punctuated<T, TkComma> {
    #[verifier::external_body] pub fn parse_terminated(input: &mut ParseBuffer) -> (r: Result<Self>)
        ensures match plist(T::ty(), old(input)@.toks) {
            Some(l) => r is Ok && vals(r->Ok_0@) == l && final(input)@ == (Pb { toks: Seq::empty(), ..old(input)@ }),
            None => r is Err,
        } { unimplemented!() }
}
/// string literals
#[verifier::external_body] pub struct LitStr { _p: u8 }
pub uninterp spec fn lit_text(v: Val) -> Option<Seq<char>>;
impl Parse for LitStr { open spec fn ty() -> int { 2 } uninterp spec fn val(&self) -> Val; }
impl LitStr {
    #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit_str(self.val()) { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
pub uninterp spec fn lit_str(v: Val) -> Seq<char>;
/// identifiers: without `r#`
pub uninterp spec fn unrawed(s: Seq<char>) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: Ident) ensures r.text() == unrawed(self.text()), r.sp() == self.sp() { unimplemented!() } }
/// what syn's parser produces
pub open spec fn named_fields(f: Fields) -> bool { f is Named ==> forall|i: int| 0 <= i < f@.len() ==> (#[trigger] f@[i]).ident is Some }
}
use defs::*;
