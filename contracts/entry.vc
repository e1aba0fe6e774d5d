@//  The entry points in lib.rs: what reaches the compiler.
@text
pub mod ent {
use super::*;
/// `compile_error!` with the message of an error
pub uninterp spec fn is_error(c: Seq<Cd>) -> bool;
impl Error { #[verifier::external_body] pub fn to_compile_error(&self) -> (r: TokenStream) ensures is_error(r.code()) { unimplemented!() }
             pub fn into_compile_error(self) -> (r: TokenStream) ensures is_error(r.code()) { self.to_compile_error() } }
impl TokenStream {
    pub fn into(self) -> (r: TokenStream) ensures r == self { self }
    pub fn from(t: TokenStream) -> (r: TokenStream) ensures r == t { t }
}
/// the item that syn reads from the tokens given to a derive
pub uninterp spec fn item_of(t: TokenStream) -> Option<DeriveInput>;
/// syn: fields in braces have names
#[verifier::external_body] pub fn vx_parse_input<T>(t: TokenStream) -> (r: Result<DeriveInput>)
  ensures match item_of(t) { Some(d) => r == Ok::<DeriveInput, Error>(d) && ent_wf(d), None => r is Err } { unimplemented!() }
pub open spec fn ent_wf(d: DeriveInput) -> bool { match d.data { Data::Struct(s) => named_fields(s.fields), Data::Enum(e) => forall|i: int| 0 <= i < e.variants@.len() ==> named_fields((#[trigger] e.variants@[i]).fields), Data::Union(_) => true } }
pub open spec fn c09_c13_out(x: Result<TokenStream>, r: Seq<Cd>) -> bool { match x { Ok(s) => r == s.code(), Err(_) => is_error(r) } }
/// an item that is not accepted is answered with a compile error
pub open spec fn answers(ok: bool, r: Seq<Cd>) -> bool { !ok ==> is_error(r) }
}
use ent::*;
@file structmeta-derive/src/syn_utils.rs
@fn into_macro_output
@ret r
@spec
  ensures c09_c13_out(input, r.code())
