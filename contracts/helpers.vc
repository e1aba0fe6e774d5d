@include prelude.vc
@include nameparse.vc
@include tryname.vc
@file structmeta/src/helpers.rs
@complete
@item ArgKind
@item Arg
@text
pub open spec fn style_of(k: ArgKind) -> Style { match k { ArgKind::Flag => Style::Flag, ArgKind::NameValue => Style::NameValue, ArgKind::NameArgs => Style::NameArgs } }

@fn peek_eq_op
@ret r
@locals input
@spec
  ensures r == eq_op(old(input)@.toks), final(input)@ == old(input)@

@fn find
@ret r
@locals names ident name
@closure 0
|name: &&str| -> (b: bool) ensures b == (ident.text() == name@)
@spec
  ensures match r {
    Some(i) => is_first(names@, ident.text(), i as int),
    None => forall|j: int| 0 <= j < names@.len() ==> #[trigger] names@[j]@ != ident.text() }

@fn name_index_of
@ret r
@locals names rest ident index
@spec
  ensures match r { Some(x) => lookup(tab(names@, rest), ident.text()) == Some(idx_of(x)) && (x is Err ==> x->Err_0.sp() == ident.sp()), None => lookup(tab(names@, rest), ident.text()) is None }
@entry
  proof { lemma_lookup(names@, ident.text()); }

@fn name_of
@ret r
@locals names rest ident i
@closure 0
|i: usize| -> (s: String) requires i < names@.len() ensures s@ == names@[i as int]@
@spec
  ensures match r { Some(s) => tab(names@, rest).takes(ident.text()) && s@ == ident.text(), None => !tab(names@, rest).takes(ident.text()) }
@entry
  proof { lemma_lookup(names@, ident.text()); }

@fn is_snake_case
@ret r
@locals s c
@closure 0
|c: char| -> (b: bool) ensures b == snake(c)
@spec
  ensures r == snake_name(s@)

@text
pub open spec fn snake(c: char) -> bool { ('a' <= c && c <= 'z') || ('0' <= c && c <= '9') || c == '_' }
pub open spec fn snake_name(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> snake(#[trigger] s[i]) }

@fn distance
@ret r
@locals s0 s1 start end
@spec
  requires s0@.len() < usize::MAX, s1@.len() < usize::MAX
  ensures match r { Some(d) => dist(s0@, s1@) == Some(d as int), None => dist(s0@, s1@) is None }
  decreases (if s0@.len() > s1@.len() { 1int } else { 0int })
@entry
  proof { lemma_dist_sym(s0@, s1@); }
@loop 0
  invariant start <= s0@.len(), s0@.len() <= s1@.len(),
    forall|j: int| 0 <= j < start ==> s0@[j] == s1@[j]
  decreases s0@.len() - start
@loop 1
  invariant start + end <= s0@.len(), s0@.len() <= s1@.len(), s1@.len() < usize::MAX,
    forall|j: int| s0@.len() - end <= j < s0@.len() ==> #[trigger] s0@[j] == s1@[j + s1@.len() - s0@.len()]
  decreases s0@.len() - start - end
@loopexit 1
  proof { lemma_distance(s0@, s1@, start as int, end as int); }

@fn find_similar_name
@ret r
@locals names ident c0 c1 r r_d names name d
@spec
  ensures match r {
    Some(c) => closest(flat(names@), ident.text(), c@),
    None => forall|c: Seq<char>| !#[trigger] closest(flat(names@), ident.text(), c),
  }
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == names@, c0@ == ident.text(), c0@.len() < 0x2000_0000_0000_0000,
    similar_inv(flat(names@.take(__i0 as int)), ident.text(), opt_view(r), r_d)
  decreases __s0@.len() - __i0
@loop 1
  invariant 0 < __i0 <= __s0@.len(), __i1 <= __s1@.len(), __s1@ == __s0@[__i0 - 1]@, c0@ == ident.text(), c0@.len() < 0x2000_0000_0000_0000,
    similar_inv(flat(__s0@.take(__i0 - 1)) + strs(__s1@.take(__i1 as int)), ident.text(), opt_view(r), r_d)
  decreases __s1@.len() - __i1
@entry
  proof { assert(names@.take(0) =~= Seq::<&[&str]>::empty()); }
@loopentry 0
  proof { let w = __s0@.take(__i0 as int); assert(w.drop_last() =~= __s0@.take(__i0 - 1)); assert(w.last() == __s0@[__i0 - 1]);
    assert(strs(__s0@[__i0 - 1]@.take(0)) =~= Seq::<Seq<char>>::empty()); assert(flat(__s0@.take(__i0 - 1)) + strs(__s0@[__i0 - 1]@.take(0)) =~= flat(__s0@.take(__i0 - 1))); }
@loopexit 1
  proof { let w = __s0@.take(__i0 as int); assert(w.drop_last() =~= __s0@.take(__i0 - 1)); assert(w.last() == __s0@[__i0 - 1]); assert(__s1@.take(__i1 as int) =~= __s1@); }
@loopentry 1
  let ghost r0 = opt_view(r);
  let ghost d0 = r_d;
  proof { lemma_push(strs(__s1@.take(__i1 - 1)), strs(__s1@.take(__i1 as int)), name@); assert(flat(__s0@.take(__i0 - 1)) + strs(__s1@.take(__i1 as int)) =~= (flat(__s0@.take(__i0 - 1)) + strs(__s1@.take(__i1 - 1))).push(name@)); }
@loopend 1
  proof { lemma_similar(flat(__s0@.take(__i0 - 1)) + strs(__s1@.take(__i1 - 1)), ident.text(), r0, d0, name@, opt_view(r), r_d); }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= names@); lemma_similar_done(flat(names@), ident.text(), opt_view(r), r_d); }

@text
pub open spec fn flat(s: Seq<&[&str]>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + strs(s.last()@) } }
pub open spec fn opt_view(r: Option<&str>) -> Option<Seq<char>> { match r { Some(x) => Some(x@), None => None } }
/// `r_d` is the least distance so far (usize::MAX: none yet), `r` the only name at it, if only one
pub open spec fn similar_inv(all: Seq<Seq<char>>, n: Seq<char>, r: Option<Seq<char>>, r_d: usize) -> bool {
    &&& forall|o: Seq<char>| #[trigger] all.contains(o) ==> dist(n, o) is None || dist(n, o)->0 >= r_d
    &&& r_d != usize::MAX ==> exists|o: Seq<char>| #[trigger] all.contains(o) && dist(n, o) == Some(r_d as int)
    &&& r is Some ==> r_d != usize::MAX && all.contains(r->0) && dist(n, r->0) == Some(r_d as int)
    &&& r is Some ==> forall|o: Seq<char>| #[trigger] all.contains(o) && o != r->0 ==> dist(n, o) != Some(r_d as int)
    &&& r is None && r_d != usize::MAX ==> exists|o: Seq<char>, q: Seq<char>| #[trigger] all.contains(o) && #[trigger] all.contains(q) && o != q && dist(n, o) == Some(r_d as int) && dist(n, q) == Some(r_d as int)
}

pub proof fn lemma_push(a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: Seq<char>) {}
pub proof fn lemma_similar(all: Seq<Seq<char>>, n: Seq<char>, r0: Option<Seq<char>>, d0: usize, x: Seq<char>, r: Option<Seq<char>>, d: usize)
    requires similar_inv(all, n, r0, d0),
      match dist(n, x) {
        None => r == r0 && d == d0,
        Some(k) => if k < d0 { r == Some(x) && d == k } else if k == d0 && r0 != Some(x) { r is None && d == d0 } else { r == r0 && d == d0 },
      }
    ensures similar_inv(all.push(x), n, r, d)
{
    let al = all.push(x);
    assert(al[all.len() as int] == x);
    assert(al.contains(x));
    assert forall|o: Seq<char>| al.contains(o) implies all.contains(o) || o == x by {
        let i = choose|i: int| 0 <= i < al.len() && al[i] == o;
        if i < all.len() { assert(all[i] == o); }
    }
    assert forall|o: Seq<char>| all.contains(o) implies al.contains(o) by {
        let i = choose|i: int| 0 <= i < all.len() && all[i] == o;
        assert(al[i] == o);
    }
}
pub proof fn lemma_similar_done(all: Seq<Seq<char>>, n: Seq<char>, r: Option<Seq<char>>, d: usize)
    requires similar_inv(all, n, r, d)
    ensures match r { Some(c) => closest(all, n, c), None => forall|c: Seq<char>| !#[trigger] closest(all, n, c) }
{
    if r is None {
        assert forall|c: Seq<char>| !#[trigger] closest(all, n, c) by {
            if closest(all, n, c) {
                if d != usize::MAX {
                    let (o, q) = choose|o: Seq<char>, q: Seq<char>| #[trigger] all.contains(o) && #[trigger] all.contains(q) && o != q && dist(n, o) == Some(d as int) && dist(n, q) == Some(d as int);
                    if c == o { assert(all.contains(q)); } else { assert(all.contains(o)); }
                } else { assert(dist(n, c)->0 <= 2); }
            }
        }
    }
}

@fn msg
@ret s
@locals expected found m i sep arg
@spec
  ensures s@ == (if expected@.len() == 0 { "unexpected token."@ } else {
    joined(strings(expected@), expected@.len() as int) + found_text(match found { Some(a) => Some(style_of(a.kind)), None => None }, match found { Some(a) => a.ident.text(), None => seq![] }) })
@loop 0
  invariant __i0 <= __n0, __n0 == expected@.len(), __n0 > 0, m@ == joined(strings(expected@), __i0 as int)
  decreases __n0 - __i0
@loopend 0
  proof { assert(strings(expected@)[i as int] == expected@[i as int]@); }
@text
pub proof fn lemma_strings()
    ensures forall|s: Seq<char>| #[trigger] (s + ""@) == s,
      strings(Seq::empty()) == Seq::<Seq<char>>::empty(),
      forall|s: Seq<String>, x: String| #[trigger] strings(s.push(x)) == strings(s).push(x@),
      forall|a: Seq<&[&str]>| a.len() == 3 ==> #[trigger] flat(a) == strs(a[0]@) + strs(a[1]@) + strs(a[2]@),
{
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert forall|s: Seq<char>| #[trigger] (s + ""@) == s by { assert((s + ""@) =~= s); }
    assert(strings(Seq::empty()) =~= Seq::<Seq<char>>::empty());
    assert forall|s: Seq<String>, x: String| #[trigger] strings(s.push(x)) == strings(s).push(x@) by { assert(strings(s.push(x)) =~= strings(s).push(x@)); }
    assert forall|a: Seq<&[&str]>| a.len() == 3 implies #[trigger] flat(a) == strs(a[0]@) + strs(a[1]@) + strs(a[2]@) by {
        let b = a.drop_last(); let c = b.drop_last(); let d = c.drop_last();
        assert(flat(d) =~= Seq::<Seq<char>>::empty());
        assert(flat(c) =~= strs(a[0]@));
        assert(flat(b) =~= strs(a[0]@) + strs(a[1]@));
        assert(flat(a) =~= strs(a[0]@) + strs(a[1]@) + strs(a[2]@));
    }
}
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { s.map(|i: int, x: String| x@) }

@include delim.vc
@file structmeta/src/helpers.rs
@fn parse_macro_delimiter
@ret r
@locals input content token
@spec
  ensures md_parsed(old(input)@, final(input)@, r)

@include tryname_fn.vc
@closure 0
|kind: ArgKind| -> (a: Arg) ensures a.kind == kind, a.ident == &ident
@entry
  proof {
    lemma_strings();
    reveal(name_at);
    let tk = input@.toks;
    if tk.len() >= 2 { assert(tk.skip(1).skip(1) =~= tk.skip(2)); }
  }

@text
// ---- printing with a MacroDelimiter -------------------------------------------------------
/// `after` is `before` followed by one group of delimiter `d` and span `sp` around what `f` appends to an empty stream
#[verifier::prophetic] pub open spec fn surrounded<F: FnOnce(&mut TokenStream)>(d: Dl, sp: int, f: F, before: Seq<Tt>, after: Seq<Tt>) -> bool {
    exists|t: &mut TokenStream| (*t)@ == Seq::<Tt>::empty() && #[trigger] call_ensures(f, (t,), ()) && after == before.push(Tt::Group(d, (*final(t))@, sp))
}
pub open spec fn runs<F: FnOnce(&mut TokenStream)>(f: F) -> bool { forall|t: &mut TokenStream| (*t)@ == Seq::<Tt>::empty() ==> #[trigger] call_requires(f, (t,)) }
impl Paren { #[verifier::external_body] pub fn surround<F: FnOnce(&mut TokenStream)>(&self, tokens: &mut TokenStream, f: F) requires runs(f) ensures surrounded(Dl::Paren, self.span@, f, old(tokens)@, final(tokens)@) { unimplemented!() } }
impl Brace { #[verifier::external_body] pub fn surround<F: FnOnce(&mut TokenStream)>(&self, tokens: &mut TokenStream, f: F) requires runs(f) ensures surrounded(Dl::Brace, self.span@, f, old(tokens)@, final(tokens)@) { unimplemented!() } }
impl Bracket { #[verifier::external_body] pub fn surround<F: FnOnce(&mut TokenStream)>(&self, tokens: &mut TokenStream, f: F) requires runs(f) ensures surrounded(Dl::Bracket, self.span@, f, old(tokens)@, final(tokens)@) { unimplemented!() } }

@fn surround_macro_delimiter
@locals this tokens f
@spec
  requires runs(f)
  ensures surrounded(md_delim(*this), md_span(*this), f, old(tokens)@, final(tokens)@)
@text
/// C15: printing with the delimiter a parse returned and parsing again gives the same delimiter and content
pub proof fn lemma_delimiter_round_trip<F: FnOnce(&mut TokenStream)>(m: MacroDelimiter, f: F, content: Seq<Tt>, before: Seq<Tt>, after: Seq<Tt>, rest: Seq<Tt>)
    requires surrounded(md_delim(m), md_span(m), f, before, after),
        after == before.push(Tt::Group(md_delim(m), content, md_span(m)))
    ensures ({ let t = after.skip(before.len() as int) + rest;
        t.len() > 0 && t[0] is Group && t[0]->Group_0 == md_delim(m) && t[0]->Group_1 == content && t.skip(1) == rest })
{
    let t = after.skip(before.len() as int) + rest;
    assert(t[0] == after[before.len() as int]);
    assert(t.skip(1) =~= rest);
}
