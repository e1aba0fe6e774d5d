@include prelude.vc
@file structmeta/src/arg_types.rs
@complete
@item Flag
@item NameValue
@item NameArgs
@text
impl Flag { pub open spec fn set(&self) -> bool { self.span is Some } }
impl Flag {
@item Flag::NONE
@text
}
@fn Flag::value
@ret r
@spec
  ensures r == self.set()
@fn PartialEq.Flag::eq
@ret r
@locals self other
@spec
  ensures r == (self.set() == other.set())
@fn From<bool>.Flag::from
@ret r
@locals value
@spec
  ensures r.set() == value
@fn BitOr.Flag::bitor
@ret r
@locals self rhs
@spec
  ensures r.set() == (self.set() || rhs.set()),
    self.set() ==> r.span == self.span,
    !self.set() ==> r.span == rhs.span
@fn BitOrAssign.Flag::bitor_assign
@locals self rhs
@spec
  ensures final(self).set() == (old(self).set() || rhs.set()),
    old(self).set() ==> final(self).span == old(self).span,
    !old(self).set() ==> final(self).span == rhs.span
@fn PartialEq.NameValue::eq
@ret r
@locals self other
@spec
  ensures T::obeys_eq_spec() ==> r == self.value.eq_spec(&other.value)
@fn PartialEq.NameArgs::eq
@ret r
@locals self other
@spec
  ensures T::obeys_eq_spec() ==> r == self.args.eq_spec(&other.args)
@text
/// C14 over the contracts above
fn check_none() { let f = Flag::NONE; let b = f.value(); assert(!b); }
fn check_algebra(a: Flag, b: Flag, c: bool)
{
    let ghost (sa, sb) = (a.set(), b.set());
    let ghost spa = a.span; let ghost spb = b.span;
    let ea = a.eq(&b);
    assert(ea == (sa == sb));
    let x = Flag::from(c);
    let v = x.value();
    assert(v == c);
    let r = a.bitor(b);
    assert(r.set() == (sa || sb));
    assert(r.span == (if sa { spa } else { spb }));
}
fn check_assign(a: Flag, b: Flag)
{
    let ghost (sa, sb) = (a.set(), b.set());
    let ghost spa = a.span; let ghost spb = b.span;
    let mut m = a;
    m.bitor_assign(b);
    assert(m.span == (if sa { spa } else { spb }));
}
