@//  #[to_tokens(..)] and #[parse(..)] arguments, and what C13 says about delimiters and peeks.
@text
pub mod kws {
use super::*;
pub struct dump { pub span: Span } pub struct any { pub span: Span } pub struct peek { pub span: Span } pub struct terminated { pub span: Span }
impl Clone for dump { fn clone(&self) -> (r: Self) ensures r == *self { *self } } impl Copy for dump {}
impl Clone for any { fn clone(&self) -> (r: Self) ensures r == *self { *self } } impl Copy for any {}
impl Clone for peek { fn clone(&self) -> (r: Self) ensures r == *self { *self } } impl Copy for peek {}
impl Clone for terminated { fn clone(&self) -> (r: Self) ensures r == *self { *self } } impl Copy for terminated {}
pub open spec fn word(t: Seq<Tt>, s: Seq<char>) -> bool { t.len() > 0 && t[0] is Ident && t[0]->Ident_0 == s }
impl Peek for dump { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "dump"@) } }
impl Peek for any { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "any"@) } }
impl Peek for peek { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "peek"@) } }
impl Peek for terminated { open spec fn peeks(t: Seq<Tt>) -> bool { word(t, "terminated"@) } }
impl Parse for dump { open spec fn ty() -> int { 11 } uninterp spec fn val(&self) -> Val; }
impl Parse for any { open spec fn ty() -> int { 12 } uninterp spec fn val(&self) -> Val; }
impl Parse for peek { open spec fn ty() -> int { 13 } uninterp spec fn val(&self) -> Val; }
impl Parse for terminated { open spec fn ty() -> int { 14 } uninterp spec fn val(&self) -> Val; }
impl Spanned for dump { #[verifier::external_body] fn span(&self) -> Span { unimplemented!() } }
impl Spanned for peek { #[verifier::external_body] fn span(&self) -> Span { unimplemented!() } }
pub broadcast axiom fn leaf_dump(t: Seq<Tt>) ensures #[trigger] leaf(11, t) == (if word(t, "dump"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_any(t: Seq<Tt>) ensures #[trigger] leaf(12, t) == (if word(t, "any"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_peek(t: Seq<Tt>) ensures #[trigger] leaf(13, t) == (if word(t, "peek"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_terminated(t: Seq<Tt>) ensures #[trigger] leaf(14, t) == (if word(t, "terminated"@) { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
impl Peek for LitStr { open spec fn peeks(t: Seq<Tt>) -> bool { leaf(2, t) is Some } }
}
use kws::*;
@file structmeta-derive/src/to_tokens_attribute.rs
@item ToTokensAttribute
@item ToTokensAttributeArg
@text
pub mod tpa {
use super::*;
pub uninterp spec fn tok_arg(v: Val) -> Val;
pub uninterp spec fn tok_of(v: Val) -> Option<Val>;
pub open spec fn dump_arg() -> Val { Val::Leaf(31, seq![]) }
pub broadcast axiom fn tok_arg_inv(v: Val) ensures tok_of(#[trigger] tok_arg(v)) == Some(v);
pub broadcast axiom fn tok_arg_not(a: int, t: Seq<Tt>) ensures (#[trigger] tok_of(Val::Leaf(a, t))) is None;
/// the strings of a `to_tokens` attribute, in order
pub open spec fn strings(l: Seq<Val>) -> Seq<Val>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { match tok_of(l.last()) { Some(v) => strings(l.drop_last()).push(v), None => strings(l.drop_last()) } } }
pub ghost struct TtArgs { pub strings: Seq<Val>, pub dump: bool }
pub uninterp spec fn tt_val(a: TtArgs) -> Val;
pub uninterp spec fn tt_of(v: Val) -> TtArgs;
pub broadcast axiom fn tt_inv(a: TtArgs) ensures tt_of(#[trigger] tt_val(a)) == a;
pub open spec fn tt_arg(t: Seq<Tt>) -> Option<(Val, nat)> {
    match leaf(2, t) { Some((v, n)) => Some((tok_arg(v), n)), None => if word(t, "dump"@) { Some((dump_arg(), 1)) } else { None } }
}
pub open spec fn tt_args(t: Seq<Tt>) -> Option<TtArgs> { match plist(51, t) { Some(l) => Some(TtArgs { strings: strings(l), dump: l.contains(dump_arg()) }), None => None } }
impl Parse for ToTokensAttributeArg { open spec fn ty() -> int { 51 } open spec fn val(&self) -> Val { match self { ToTokensAttributeArg::Token(v) => tok_arg(v.val()), ToTokensAttributeArg::Dump(_) => dump_arg() } } }
impl Parse for ToTokensAttribute { open spec fn ty() -> int { 52 } open spec fn val(&self) -> Val { tt_val(TtArgs { strings: vals::<LitStr>(self.token@), dump: self.dump is Some }) } }
pub broadcast axiom fn leaf_tt_arg(t: Seq<Tt>) ensures #[trigger] leaf(51, t) == tt_arg(t);
pub broadcast axiom fn leaf_tt_args(t: Seq<Tt>) ensures #[trigger] leaf(52, t) == (match tt_args(t) { Some(a) => Some((tt_val(a), t.len())), None => None });
pub broadcast proof fn skip_skip<T>(t: Seq<T>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= t.len() ensures #[trigger] t.skip(a).skip(b) == t.skip(a + b) { assert(t.skip(a).skip(b) =~= t.skip(a + b)); }
pub proof fn lemma_contains_last(w: Seq<Val>, v: Val) requires w.len() > 0 ensures w.contains(v) == (w.drop_last().contains(v) || w.last() == v)
{ if w.drop_last().contains(v) { let i = choose|i: int| 0 <= i < w.len() - 1 && w.drop_last()[i] == v; assert(w[i] == v); } if w.last() == v { assert(w[w.len() - 1] == v); }
  if w.contains(v) { let i = choose|i: int| 0 <= i < w.len() && w[i] == v; if i < w.len() - 1 { assert(w.drop_last()[i] == v); } } }
pub open spec fn parse_post<T: Parse>(b: Pb, after: Pb, r: Result<T>) -> bool {
    match leaf(T::ty(), b.toks) { Some((v, n)) => r is Ok && r->Ok_0.val() == v && after == b.adv(n as int), None => r is Err }
}
/// `any`, `peek`, `terminated`, `dump`
pub ghost struct PaArgs { pub any: bool, pub peek: bool, pub terminated: bool, pub dump: bool }
pub uninterp spec fn pa_val(a: PaArgs) -> Val;
pub uninterp spec fn pa_of(v: Val) -> PaArgs;
pub broadcast axiom fn pa_inv(a: PaArgs) ensures pa_of(#[trigger] pa_val(a)) == a;
pub open spec fn pa_word(k: int) -> Val { Val::Leaf(70 + k, seq![]) }
pub open spec fn pa_arg(t: Seq<Tt>) -> Option<(Val, nat)> {
    if word(t, "any"@) { Some((pa_word(1), 1)) } else if word(t, "peek"@) { Some((pa_word(2), 1)) }
    else if word(t, "terminated"@) { Some((pa_word(3), 1)) } else if word(t, "dump"@) { Some((pa_word(4), 1)) } else { None }
}
pub open spec fn pa_flags(l: Seq<Val>) -> PaArgs { PaArgs { any: l.contains(pa_word(1)), peek: l.contains(pa_word(2)), terminated: l.contains(pa_word(3)), dump: l.contains(pa_word(4)) } }
pub open spec fn pa_args(t: Seq<Tt>) -> Option<PaArgs> { match plist(61, t) { Some(l) => Some(pa_flags(l)), None => None } }
pub broadcast axiom fn leaf_pa_arg(t: Seq<Tt>) ensures #[trigger] leaf(61, t) == pa_arg(t);
pub broadcast axiom fn leaf_pa_args(t: Seq<Tt>) ensures #[trigger] leaf(62, t) == (match pa_args(t) { Some(a) => Some((pa_val(a), t.len())), None => None });
pub broadcast group tp_axioms { skip_skip, tok_arg_inv, tok_arg_not, tt_inv, pa_inv, leaf_tt_arg, leaf_tt_args, leaf_pa_arg, leaf_pa_args, leaf_dump, leaf_any, leaf_peek, leaf_terminated }

// ---- delimiters ------------------------------------------------------------------------------
pub open spec fn close_of(c: char) -> Option<char> { if c == '(' { Some(')') } else if c == '[' { Some(']') } else if c == '{' { Some('}') } else { None } }
pub open spec fn is_close(c: char) -> bool { c == ')' || c == ']' || c == '}' }
/// where the walk over a field's attributes is: the closes still owed, whether this field has opened a
/// group, whether the field itself stands outside all groups, and its parse arguments
pub ghost struct Walk { pub owed: Seq<char>, pub opened: bool, pub root: bool, pub peek: bool, pub any: bool, pub terminated: bool }
pub open spec fn at_char(w: Walk, c: char) -> Option<Walk> {
    if close_of(c) is Some { Some(Walk { owed: w.owed.push(close_of(c)->0), opened: true, ..w }) }
    else if is_close(c) && w.owed.len() > 0 && w.owed.last() == c { let o = w.owed.drop_last(); Some(Walk { owed: o, root: if w.opened { w.root } else { o.len() == 0 }, ..w }) }
    else { None }
}
pub open spec fn at_chars(w: Walk, s: Seq<char>) -> Option<Walk>
    decreases s.len()
{ if s.len() == 0 { Some(w) } else { match at_chars(w, s.drop_last()) { Some(v) => at_char(v, s.last()), None => None } } }
pub open spec fn at_strings(w: Walk, l: Seq<Val>) -> Option<Walk>
    decreases l.len()
{ if l.len() == 0 { Some(w) } else { match at_strings(w, l.drop_last()) { Some(v) => at_chars(v, lit_str(l.last())), None => None } } }
pub open spec fn tt_attr(a: Attribute) -> Option<TtArgs> { match a.args() { Some(t) => tt_args(t), None => None } }
pub open spec fn pa_attr(a: Attribute) -> Option<PaArgs> { match a.args() { Some(t) => pa_args(t), None => None } }
/// one attribute; `p`: for derive(Parse), which reads #[parse(..)] too
pub open spec fn at_attr(w: Walk, a: Attribute, p: bool) -> Option<Walk> {
    let v = if path_is(a.p(), "to_tokens"@) { match tt_attr(a) { Some(x) => at_strings(w, x.strings), None => None } } else { Some(w) };
    if v is Some && p && path_is(a.p(), "parse"@) { match pa_attr(a) { Some(x) => Some(Walk { peek: v->0.peek || x.peek, any: v->0.any || x.any, terminated: v->0.terminated || x.terminated, ..v->0 }), None => None } } else { v }
}
pub open spec fn at_attrs(w: Walk, a: Seq<Attribute>, p: bool) -> Option<Walk>
    decreases a.len()
{ if a.len() == 0 { Some(w) } else { match at_attrs(w, a.drop_last(), p) { Some(v) => at_attr(v, a.last(), p), None => None } } }
pub open spec fn walk0(owed: Seq<char>) -> Walk { Walk { owed, opened: false, root: owed.len() == 0, peek: false, any: false, terminated: false } }
pub open spec fn at_field(owed: Seq<char>, f: Field, p: bool) -> Option<Walk> { at_attrs(walk0(owed), f.attrs@, p) }
/// ToTokens: the fields of a struct or variant
pub open spec fn tt_fields(fs: Seq<Field>) -> Option<Seq<char>>
    decreases fs.len()
{ if fs.len() == 0 { Some(Seq::empty()) } else { match tt_fields(fs.drop_last()) { Some(o) => match at_field(o, fs.last(), false) { Some(w) => Some(w.owed), None => None }, None => None } } }
/// Parse: closes owed, whether a root field without peek has passed, and the number of peeks (`e`: in an enum)
pub ghost struct Past { pub owed: Seq<char>, pub blocked: bool, pub peeks: nat }
pub open spec fn pa_field(s: Past, f: Field, e: bool) -> Option<Past> {
    match at_field(s.owed, f, true) {
        None => None,
        Some(w) => if e && w.peek && (!w.root || s.blocked) { None } else { Some(Past { owed: w.owed, blocked: s.blocked || (w.root && !w.peek), peeks: if e && w.peek { s.peeks + 1 } else { s.peeks } }) },
    }
}
pub open spec fn pa_fields(fs: Seq<Field>, e: bool) -> Option<Past>
    decreases fs.len()
{ if fs.len() == 0 { Some(Past { owed: Seq::empty(), blocked: false, peeks: 0 }) } else { match pa_fields(fs.drop_last(), e) { Some(s) => pa_field(s, fs.last(), e), None => None } } }

// ---- whole definitions -------------------------------------------------------------------------
pub open spec fn item_tt(a: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < a.len() && path_is(#[trigger] a[i].p(), "to_tokens"@) ==> tt_attr(a[i]) is Some }
pub open spec fn item_pa(a: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < a.len() && path_is(#[trigger] a[i].p(), "parse"@) ==> pa_attr(a[i]) is Some }
pub open spec fn c13_to_tokens(d: DeriveInput) -> bool {
    item_tt(d.attrs@) && match d.data {
        Data::Struct(s) => tt_fields(s.fields@) is Some,
        Data::Enum(e) => forall|i: int| 0 <= i < e.variants@.len() ==> tt_fields((#[trigger] e.variants@[i]).fields@) is Some,
        Data::Union(_) => false,
    }
}
pub open spec fn c13_parse(d: DeriveInput) -> bool {
    item_pa(d.attrs@) && match d.data {
        Data::Struct(s) => pa_fields(s.fields@, false) is Some,
        Data::Enum(e) => forall|i: int| 0 <= i < e.variants@.len() ==> variant_ok(#[trigger] e.variants@[i]),
        Data::Union(_) => false,
    }
}
pub open spec fn variant_ok(v: Variant) -> bool { match pa_fields(v.fields@, true) { Some(s) => s.peeks <= 3, None => false } }
pub open spec fn asked_dump(d: DeriveInput) -> bool {
    exists|i: int| 0 <= i < d.attrs@.len() && ((path_is(#[trigger] d.attrs@[i].p(), "to_tokens"@) && tt_attr(d.attrs@[i]) is Some && tt_attr(d.attrs@[i])->0.dump) || (path_is(d.attrs@[i].p(), "parse"@) && pa_attr(d.attrs@[i]) is Some && pa_attr(d.attrs@[i])->0.dump))
}
/// syn: fields in braces have names
pub open spec fn syn_wf(d: DeriveInput) -> bool {
    match d.data { Data::Struct(s) => named_fields(s.fields), Data::Enum(e) => forall|i: int| 0 <= i < e.variants@.len() ==> named_fields((#[trigger] e.variants@[i]).fields), Data::Union(_) => true }
}
// a failed prefix fails the whole
pub proof fn at_chars_none(w: Walk, s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), at_chars(w, s.take(k)) is None ensures at_chars(w, s) is None decreases s.len() - k
{ if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k + 1).drop_last() =~= s.take(k)); at_chars_none(w, s, k + 1); } }
pub proof fn at_strings_none(w: Walk, s: Seq<Val>, k: int)
    requires 0 <= k <= s.len(), at_strings(w, s.take(k)) is None ensures at_strings(w, s) is None decreases s.len() - k
{ if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k + 1).drop_last() =~= s.take(k)); at_strings_none(w, s, k + 1); } }
pub proof fn at_attrs_none(w: Walk, s: Seq<Attribute>, p: bool, k: int)
    requires 0 <= k <= s.len(), at_attrs(w, s.take(k), p) is None ensures at_attrs(w, s, p) is None decreases s.len() - k
{ if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k + 1).drop_last() =~= s.take(k)); at_attrs_none(w, s, p, k + 1); } }
pub proof fn tt_fields_none(s: Seq<Field>, k: int)
    requires 0 <= k <= s.len(), tt_fields(s.take(k)) is None ensures tt_fields(s) is None decreases s.len() - k
{ if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k + 1).drop_last() =~= s.take(k)); tt_fields_none(s, k + 1); } }
pub proof fn pa_fields_none(s: Seq<Field>, e: bool, k: int)
    requires 0 <= k <= s.len(), pa_fields(s.take(k), e) is None ensures pa_fields(s, e) is None decreases s.len() - k
{ if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k + 1).drop_last() =~= s.take(k)); pa_fields_none(s, e, k + 1); } }
}
use tpa::*;
