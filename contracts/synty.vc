@//  The part of syn's syntax tree the derives inspect (assumed: same fields, same meaning).
@text
pub mod synty {
use super::*;
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
#[verifier::external_body] pub struct Lifetime { _p: u8 }
#[verifier::external_body] pub struct Expr { _p: u8 }
#[verifier::external_body] pub struct AssocType { _p: u8 }
#[verifier::external_body] pub struct AssocConst { _p: u8 }
#[verifier::external_body] pub struct Constraint { _p: u8 }
#[verifier::external_body] pub struct Opaque { _p: u8 }
/// syn::punctuated::Punctuated: the sequence of its values
#[verifier::reject_recursive_types(P)]
pub struct Punctuated<T, P> { pub v: Vec<T>, pub p: Ghost<Option<P>> }
impl<T, P> View for Punctuated<T, P> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T, P> Punctuated<T, P> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn first(&self) -> (r: Option<&T>) ensures r == (if self@.len() == 0 { None } else { Some(&self@[0]) }) { if self.v.len() == 0 { None } else { Some(&self.v[0]) } }
    pub fn last(&self) -> (r: Option<&T>) ensures r == (if self@.len() == 0 { None } else { Some(&self@.last()) }) { if self.v.len() == 0 { None } else { Some(&self.v[self.v.len() - 1]) } }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { if i < self.v.len() { Some(&self.v[i]) } else { None } }
}
impl<T, P> vstd::std_specs::core::IndexSpecImpl<usize> for Punctuated<T, P> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T, P> std::ops::Index<usize> for Punctuated<T, P> { type Output = T;
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { &self.v[i] } }

pub enum Type {
    Array(Opaque), FnPtr(Opaque), Group(TypeGroup), ImplTrait(Opaque), Infer(Opaque), Macro(Opaque), Never(Opaque), Paren(TypeParen),
    Path(TypePath), Ptr(Opaque), Reference(TypeReference), Slice(Opaque), TraitObject(Opaque), Tuple(TypeTuple), Verbatim(Opaque),
}
pub struct TypeGroup { pub elem: Box<Type> }
pub struct TypeParen { pub elem: Box<Type> }
pub struct TypeReference { pub lifetime: Option<Lifetime>, pub elem: Box<Type> }
pub struct TypeTuple { pub elems: Punctuated<Type, TkComma> }
pub struct TypePath { pub qself: Option<QSelf>, pub path: Path }
pub struct QSelf { pub ty: Box<Type>, pub position: usize }
pub struct Path { pub leading_colon: Option<TkPathSep>, pub segments: Punctuated<PathSegment, TkPathSep> }
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
pub enum PathArguments { None, AngleBracketed(AngleBracketedGenericArguments), Parenthesized(Opaque) }
pub struct AngleBracketedGenericArguments { pub colon2_token: Option<TkPathSep>, pub args: Punctuated<GenericArgument, TkComma> }
pub enum GenericArgument { Lifetime(Lifetime), Type(Type), Const(Expr), AssocType(AssocType), AssocConst(AssocConst), Constraint(Constraint) }
pub open spec fn no_args(a: PathArguments) -> bool { match a { PathArguments::None => true, PathArguments::AngleBracketed(b) => b.args@.len() == 0, PathArguments::Parenthesized(_) => false } }
impl PathArguments {
    pub fn is_empty(&self) -> (r: bool) ensures r == no_args(*self) { match self { PathArguments::None => true, PathArguments::AngleBracketed(b) => b.args.is_empty(), PathArguments::Parenthesized(_) => false } }
    pub fn is_none(&self) -> (r: bool) ensures r == (*self is None) { match self { PathArguments::None => true, _ => false } }
}
}
use synty::*;
