@text
global size_of usize == 8;
pub mod shim {
use super::*;
// ---------------------------------------------------------------------------
// Trusted model of proc_macro2 / syn (assumed contracts).  A token stream is a
// sequence of token trees; a ParseBuffer is what is left of one.  Invisible
// (None-delimited) groups are outside the model.
// ---------------------------------------------------------------------------
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum Dl { Paren, Brace, Bracket }
pub ghost enum Tt {
    Ident(Seq<char>, int),
    Punct(char, bool, int),
    Lit(int, int),
    Group(Dl, Seq<Tt>, int),
}
/// What is left of a parse buffer: tokens, span of the enclosing scope, and whether a
/// nested buffer was dropped with tokens left (syn reports those at the end of the parse).
pub ghost struct Pb { pub toks: Seq<Tt>, pub scope: int, pub unexp: bool }
impl Pb {
    pub open spec fn adv(self, n: int) -> Pb { Pb { toks: self.toks.skip(n), ..self } }
    pub open spec fn here(self) -> int { if self.toks.len() == 0 { self.scope } else { tt_span(self.toks[0]) } }
}
pub open spec fn tt_span(t: Tt) -> int {
    match t { Tt::Ident(_, s) => s, Tt::Punct(_, _, s) => s, Tt::Lit(_, s) => s, Tt::Group(_, _, s) => s }
}

#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { _p: u8 }
impl View for Span { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn call_site_span() -> int;
impl Span {
    #[verifier::external_body] pub fn call_site() -> (r: Span) ensures r@ == call_site_span() { unimplemented!() }
}

// ---- strings -------------------------------------------------------------------
pub trait Disp { spec fn disp(&self) -> Seq<char>; fn disp_string(&self) -> (r: String) ensures r@ == self.disp(); }
impl Disp for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl Disp for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> Disp for &'a str { open spec fn disp(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> Disp for &'a String { open spec fn disp(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl Disp for Ident { open spec fn disp(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> Disp for &'a Ident { open spec fn disp(&self) -> Seq<char> { (*self).text() } #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn fcat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
/// `Vec::extend(str::chars())`; a `Vec<char>` never exceeds isize::MAX bytes.
#[verifier::external_body] pub fn vx_extend_chars(v: &mut Vec<char>, s: &str)
    ensures final(v)@ == old(v)@ + s@, final(v)@.len() < 0x2000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_panic() -> ! requires false { unimplemented!() }
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
    ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z') || ('0' <= *c && *c <= '9'));
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == (*c <= '\u{7f}');
// Unicode classes: known on ASCII only
pub uninterp spec fn uni_lower(c: char) -> bool;
pub uninterp spec fn uni_upper(c: char) -> bool;
pub uninterp spec fn uni_numeric(c: char) -> bool;
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub assume_specification [char::is_lowercase] (c: char) -> (r: bool) ensures r == uni_lower(c), c <= '\u{7f}' ==> r == ('a' <= c && c <= 'z');
pub assume_specification [char::is_uppercase] (c: char) -> (r: bool) ensures r == uni_upper(c), c <= '\u{7f}' ==> r == ('A' <= c && c <= 'Z');
pub assume_specification [char::is_numeric] (c: char) -> (r: bool) ensures r == uni_numeric(c), c <= '\u{7f}' ==> r == ('0' <= c && c <= '9');
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == uni_alpha(c), c <= '\u{7f}' ==> r == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'));
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == (uni_alpha(c) || uni_numeric(c)), c <= '\u{7f}' ==> r == (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9'));
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [std::option::Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct,
    ensures r == (if a is Some { a } else { b });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [std::option::Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct,
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U> [std::option::Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>) where T: std::marker::Destruct, U: std::marker::Destruct,
    ensures r == (if a is Some { b } else { None });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U> [std::option::Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) where T: std::marker::Destruct, U: std::marker::Destruct,
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T> [std::option::Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize) requires i < old(s)@.len(), j < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
/// in bytes
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r >= s@.len(), (r == 0) == (s@.len() == 0);
pub assume_specification<T, E, F: FnOnce(E) -> T> [std::result::Result::<T, E>::unwrap_or_else] (x: std::result::Result<T, E>, f: F) -> (r: T) requires x is Err ==> call_requires(f, (x->Err_0,)) ensures match x { Ok(v) => r == v, Err(e) => call_ensures(f, (e,), r) };
// slice iterator adaptors, implemented and proved here
pub fn vx_position<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] &s@[i],))
    ensures match r {
        Some(i) => i < s@.len() && call_ensures(f, (&s@[i as int],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] &s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] &s@[j],), false),
    }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] &s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] &s@[j],), false)
        decreases s@.len() - i
    {
        if f(&s[i]) { return Some(i); }
        i = i + 1;
    }
    None
}
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] &s@[i],))
    ensures
        r ==> exists|j: int| 0 <= j < s@.len() && call_ensures(f, (#[trigger] &s@[j],), true),
        !r ==> forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] &s@[j],), false)
{
    match vx_position(s, f) { Some(i) => { assert(call_ensures(f, (&s@[i as int],), true)); true } None => false }
}

// ---- errors ----------------------------------------------------------------------
#[verifier::external_body] pub struct Error { _p: u8 }
impl Error {
    pub uninterp spec fn msg(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> int;
    #[verifier::external_body] pub fn new<M: Disp>(span: Span, m: M) -> (e: Error) ensures e.msg() == m.disp(), e.sp() == span@ { unimplemented!() }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;

// ---- identifiers -----------------------------------------------------------------
#[verifier::external_body] pub struct Ident { _p: u8 }
impl Ident {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> int;
    #[verifier::external_body] pub fn span(&self) -> (s: Span) ensures s@ == self.sp() { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (s: String) ensures s@ == self.text(), s@.len() < 0x2000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (s: Ident) ensures s.text() == self.text(), s.sp() == self.sp() { unimplemented!() }
    #[verifier::external_body] pub fn parse_any(input: &mut ParseBuffer) -> (r: Result<Ident>)
        ensures match ident_head(old(input)@.toks) {
            Some((t, s)) => r is Ok && r->Ok_0.text() == t && r->Ok_0.sp() == s && final(input)@ == old(input)@.adv(1),
            None => r is Err && final(input)@ == old(input)@,
        }
    { unimplemented!() }
}
impl PartialEqSpecImpl<&str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&str) -> bool { self.text() == o@ }
}
impl PartialEq<&str> for Ident { #[verifier::external_body] fn eq(&self, o: &&str) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self.text() == o@ }
}
impl PartialEq<str> for Ident { #[verifier::external_body] fn eq(&self, o: &str) -> bool { unimplemented!() } }
pub open spec fn ident_head(t: Seq<Tt>) -> Option<(Seq<char>, int)> {
    if t.len() > 0 { match t[0] { Tt::Ident(s, sp) => Some((s, sp)), _ => None } } else { None }
}

// ---- peeking -----------------------------------------------------------------------
pub open spec fn punct1(t: Seq<Tt>, c: char) -> bool { t.len() > 0 && t[0] is Punct && t[0]->Punct_0 == c }
pub open spec fn punct2(t: Seq<Tt>, c: char, d: char) -> bool { punct1(t, c) && t[0]->Punct_1 && punct1(t.skip(1), d) }
pub open spec fn group1(t: Seq<Tt>, d: Dl) -> bool { t.len() > 0 && t[0] is Group && t[0]->Group_0 == d }
pub trait Peek { spec fn peeks(t: Seq<Tt>) -> bool; }
/// punctuation tokens parse exactly when they peek, taking `plen` token trees
pub trait PunctTok: Peek + Sized { spec fn plen() -> nat; }
pub struct TkComma {} pub struct TkEq {} pub struct TkEqEq {} pub struct TkFatArrow {} pub struct TkColon {} pub struct TkSemi {} pub struct TkPathSep {} pub struct TkDot {} pub struct TkNot {}
pub struct Paren { pub span: Span } pub struct Bracket { pub span: Span } pub struct Brace { pub span: Span }
impl Peek for TkComma { open spec fn peeks(t: Seq<Tt>) -> bool { punct1(t, ',') } }
impl Peek for TkEq { open spec fn peeks(t: Seq<Tt>) -> bool { punct1(t, '=') } }
impl Peek for TkColon { open spec fn peeks(t: Seq<Tt>) -> bool { punct1(t, ':') } }
impl Peek for TkSemi { open spec fn peeks(t: Seq<Tt>) -> bool { punct1(t, ';') } }
impl Peek for TkDot { open spec fn peeks(t: Seq<Tt>) -> bool { punct1(t, '.') } }
impl Peek for TkNot { open spec fn peeks(t: Seq<Tt>) -> bool { punct1(t, '!') } }
impl Peek for TkEqEq { open spec fn peeks(t: Seq<Tt>) -> bool { punct2(t, '=', '=') } }
impl Peek for TkFatArrow { open spec fn peeks(t: Seq<Tt>) -> bool { punct2(t, '=', '>') } }
impl Peek for TkPathSep { open spec fn peeks(t: Seq<Tt>) -> bool { punct2(t, ':', ':') } }
impl Peek for Paren { open spec fn peeks(t: Seq<Tt>) -> bool { group1(t, Dl::Paren) } }
impl Peek for Bracket { open spec fn peeks(t: Seq<Tt>) -> bool { group1(t, Dl::Bracket) } }
impl Peek for Brace { open spec fn peeks(t: Seq<Tt>) -> bool { group1(t, Dl::Brace) } }

// ---- values and parsers ---------------------------------------------------------------
/// Abstract values; `leaf(ty, toks)` is what the parser of type `ty` makes of `toks`
/// (None: error), together with the number of token trees it takes.  Leaf parsers are
/// assumed to be functions of the tokens.
pub ghost enum Val { Leaf(int, Seq<Tt>), Tok(Seq<Tt>) }
pub uninterp spec fn leaf(ty: int, t: Seq<Tt>) -> Option<(Val, nat)>;
pub broadcast axiom fn leaf_len(ty: int, t: Seq<Tt>)
    ensures (#[trigger] leaf(ty, t)) is Some ==> (leaf(ty, t)->0).1 <= t.len();
pub trait Parse: Sized {
    spec fn ty() -> int;
    spec fn val(&self) -> Val;
}
impl Parse for TkComma { open spec fn ty() -> int { -1 } uninterp spec fn val(&self) -> Val; }
impl Parse for TkEq { open spec fn ty() -> int { -2 } uninterp spec fn val(&self) -> Val; }
impl Parse for TkEqEq { open spec fn ty() -> int { -3 } uninterp spec fn val(&self) -> Val; }
impl Parse for TkFatArrow { open spec fn ty() -> int { -4 } uninterp spec fn val(&self) -> Val; }
impl Parse for TkColon { open spec fn ty() -> int { -5 } uninterp spec fn val(&self) -> Val; }
pub broadcast axiom fn leaf_comma(t: Seq<Tt>)
    ensures #[trigger] leaf(-1, t) == (if punct1(t, ',') { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_eq(t: Seq<Tt>)
    ensures #[trigger] leaf(-2, t) == (if punct1(t, '=') { Some((Val::Tok(t.take(1)), 1nat)) } else { None });
pub broadcast axiom fn leaf_eqeq(t: Seq<Tt>)
    ensures #[trigger] leaf(-3, t) == (if punct2(t, '=', '=') { Some((Val::Tok(t.take(2)), 2nat)) } else { None });
pub broadcast axiom fn leaf_fat(t: Seq<Tt>)
    ensures #[trigger] leaf(-4, t) == (if punct2(t, '=', '>') { Some((Val::Tok(t.take(2)), 2nat)) } else { None });
pub broadcast group syn_axioms { leaf_len, leaf_comma, leaf_eq, leaf_eqeq, leaf_fat }

#[verifier::external_body] pub struct ParseBuffer { _p: u8 }
impl View for ParseBuffer { type V = Pb; uninterp spec fn view(&self) -> Pb; }
pub open spec fn eof_prefix() -> Seq<char> { "unexpected end of input, "@ }
pub struct Punct { pub ch: char, pub sp: Spacing }
#[derive(Clone, Copy)] pub enum Spacing { Alone, Joint }
impl PartialEqSpecImpl for Spacing { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Spacing) -> bool { *self == *o } }
impl PartialEq for Spacing { #[verifier::external_body] fn eq(&self, o: &Spacing) -> bool { unimplemented!() } }
impl Punct {
    pub fn as_char(&self) -> (r: char) ensures r == self.ch { self.ch }
    pub fn spacing(&self) -> (r: Spacing) ensures r == self.sp { self.sp }
}
#[verifier::external_body] pub struct Cursor { _p: u8 }
impl View for Cursor { type V = Seq<Tt>; uninterp spec fn view(&self) -> Seq<Tt>; }
impl Cursor {
    #[verifier::external_body] pub fn punct(&self) -> (r: Option<(Punct, Cursor)>)
        ensures match r {
            Some((p, c)) => self@.len() > 0 && self@[0] is Punct && self@[0]->Punct_0 == p.ch && self@[0]->Punct_1 == (p.sp == Spacing::Joint) && c@ == self@.skip(1),
            None => !(self@.len() > 0 && self@[0] is Punct && self@[0]->Punct_0 != '\''),
        } { unimplemented!() }
    #[verifier::external_body] pub fn ident(&self) -> (r: Option<(Ident, Cursor)>)
        ensures match r {
            Some((i, c)) => ident_head(self@) == Some((i.text(), i.sp())) && c@ == self@.skip(1),
            None => ident_head(self@) is None,
        } { unimplemented!() }
    #[verifier::external_body] pub fn eof(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl ParseBuffer {
    #[verifier::external_body] pub fn fork(&self) -> (r: ParseBuffer) ensures r@ == (Pb { unexp: false, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.toks.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn cursor(&self) -> (r: Cursor) ensures r@ == self@.toks { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r@ == self@.here() { unimplemented!() }
    #[verifier::external_body] pub fn advance_to(&mut self, fork: &ParseBuffer)
        ensures final(self)@ == (Pb { toks: fork@.toks, unexp: old(self)@.unexp || fork@.unexp, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn error<M: Disp>(&self, m: M) -> (e: Error)
        ensures e.sp() == self@.here(),
            e.msg() == (if self@.toks.len() == 0 { eof_prefix() + m.disp() } else { m.disp() }) { unimplemented!() }
    #[verifier::external_body] pub fn peek<T: Peek>(&self) -> (r: bool) ensures r == T::peeks(self@.toks) { unimplemented!() }
    #[verifier::external_body] pub fn peek2<T: Peek>(&self) -> (r: bool) ensures r == (self@.toks.len() > 0 && T::peeks(self@.toks.skip(1))) { unimplemented!() }
    #[verifier::external_body] pub fn peek3<T: Peek>(&self) -> (r: bool) ensures r == (self@.toks.len() > 1 && T::peeks(self@.toks.skip(2))) { unimplemented!() }
    #[verifier::external_body] pub fn parse<T: Parse>(&mut self) -> (r: Result<T>)
        ensures match leaf(T::ty(), old(self)@.toks) {
            Some((v, n)) => r is Ok && r->Ok_0.val() == v && final(self)@ == old(self)@.adv(n as int),
            None => r is Err,
        } { unimplemented!() }
}
pub open spec fn grp_post(old_: Pb, new_: Pb, d: Dl, ok: Option<(int, Pb)>) -> bool {
    if group1(old_.toks, d) {
        ok == Some((old_.toks[0]->Group_2, Pb { toks: old_.toks[0]->Group_1, scope: grp_scope(old_.toks[0]), unexp: false })) && new_ == old_.adv(1)
    } else { ok is None && new_ == old_ }
}
pub uninterp spec fn grp_scope(t: Tt) -> int;
/// Drop of a nested buffer: tokens left in it are reported at the end of the parse
#[verifier::external_body] pub fn vx_drop(content: &mut ParseBuffer, input: &mut ParseBuffer)
    ensures final(input)@ == (Pb { unexp: old(input)@.unexp || old(content)@.unexp || old(content)@.toks.len() > 0, ..old(input)@ }) { unimplemented!() }
#[verifier::external_body] pub fn parse_parens(input: &mut ParseBuffer) -> (r: Result<(Paren, ParseBuffer)>)
    ensures grp_post(old(input)@, final(input)@, Dl::Paren, match r { Ok(x) => Some((x.0.span@, x.1@)), Err(_) => None }) { unimplemented!() }
#[verifier::external_body] pub fn parse_brackets(input: &mut ParseBuffer) -> (r: Result<(Bracket, ParseBuffer)>)
    ensures grp_post(old(input)@, final(input)@, Dl::Bracket, match r { Ok(x) => Some((x.0.span@, x.1@)), Err(_) => None }) { unimplemented!() }
#[verifier::external_body] pub fn parse_braces(input: &mut ParseBuffer) -> (r: Result<(Brace, ParseBuffer)>)
    ensures grp_post(old(input)@, final(input)@, Dl::Brace, match r { Ok(x) => Some((x.0.span@, x.1@)), Err(_) => None }) { unimplemented!() }
}
use shim::*;
broadcast use shim::syn_axioms;
