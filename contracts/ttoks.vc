@include prelude.vc
@include synty.vc
@include defs.vc
@include types_spec.vc
@assume types_fns.vc
@include tpattr.vc
@include tpattr_fns.vc
@include tprint.vc
@text
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
impl Clone for Delimiter { fn clone(&self) -> (r: Self) ensures r == *self { match self { Delimiter::Parenthesis => Delimiter::Parenthesis, Delimiter::Brace => Delimiter::Brace, Delimiter::Bracket => Delimiter::Bracket, Delimiter::None => Delimiter::None } } }
impl Copy for Delimiter {}
impl PartialEqSpecImpl for Delimiter { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Delimiter) -> bool { *self == *o } }
impl PartialEq for Delimiter { #[verifier::external_body] fn eq(&self, o: &Delimiter) -> bool { unimplemented!() } }
pub open spec fn opens(c: char) -> Option<Delimiter> { if c == '(' { Some(Delimiter::Parenthesis) } else if c == '[' { Some(Delimiter::Bracket) } else if c == '{' { Some(Delimiter::Brace) } else { None } }
pub open spec fn closes(c: char) -> Option<Delimiter> { if c == ')' { Some(Delimiter::Parenthesis) } else if c == ']' { Some(Delimiter::Bracket) } else if c == '}' { Some(Delimiter::Brace) } else { None } }
#[verifier::external_body] pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
  ensures match r { Some(m) => old(v)@.len() > 0 && *m == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(m)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { v.last_mut() }
@file structmeta-derive/src/to_tokens.rs
@item Scope
@item Surround
@text
/// scopes: the outermost without a group, one for every group still open
pub open spec fn scope_ok<'a>(s: Scope<'a>) -> bool { s.surround is Some ==> !(s.surround->0.delimiter is None) }
pub open spec fn stands<'a>(s: Seq<Scope<'a>>, owed: Seq<char>) -> bool {
    s.len() == owed.len() + 1 && s[0].surround is None && forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i]).surround is Some && closes(owed[i - 1]) == Some(s[i].surround->0.delimiter)
}
/// the code gathered so far is that of the frames: one scope for every group still open
pub open spec fn c10_framed<'a>(s: Seq<Scope<'a>>, f: Seq<Fr>, fs: Seq<Field>, k: int) -> bool {
    s.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> c10_frame1(#[trigger] s[i], f[i], fs, k, i)
}
pub open spec fn c10_frame1<'a>(s: Scope<'a>, f: Fr, fs: Seq<Field>, k: int, i: int) -> bool {
    s.ts.code() == codes(f.nodes, fs) && good(f.nodes, k) && (i > 0 ==> s.surround is Some && 0 <= f.field < k && close_of(f.open) is Some
        && s.surround->0.ident.text() == var_of(fs[f.field], f.field) && *s.surround->0.field == fs[f.field] && opens(f.open) == Some(s.surround->0.delimiter))
}
pub open spec fn dopen(d: Delimiter) -> char { match d { Delimiter::Parenthesis => '(', Delimiter::Bracket => '[', _ => '{' } }
pub proof fn good_more(n: Seq<Nd>, k: int, m: int) requires good(n, k), k <= m ensures good(n, m) decreases n
{ if n.len() > 0 { good_more(n.drop_last(), k, m); good1_more(n.last(), k, m); } }
pub proof fn good1_more(n: Nd, k: int, m: int) requires good1(n, k), k <= m ensures good1(n, m) decreases n
{ if let Nd::Group(i, c, inner) = n { good_more(inner, k, m); } }
pub proof fn c10_framed_more<'a>(s: Seq<Scope<'a>>, f: Seq<Fr>, fs: Seq<Field>, k: int, m: int) requires c10_framed(s, f, fs, k), k <= m ensures c10_framed(s, f, fs, m)
{ assert forall|i: int| 0 <= i < f.len() implies c10_frame1(#[trigger] s[i], f[i], fs, m, i) by { assert(c10_frame1(s[i], f[i], fs, k, i)); good_more(f[i].nodes, k, m); } }
/// something is added to the innermost scope
pub proof fn c10_framed_add<'a>(s: Seq<Scope<'a>>, f: Seq<Fr>, fs: Seq<Field>, k: int, t: Seq<Scope<'a>>, n: Nd)
    requires c10_framed(s, f, fs, k), s.len() > 0, t.len() == s.len(), forall|i: int| 0 <= i < s.len() - 1 ==> t[i] == s[i], t.last().surround == s.last().surround, t.last().ts.code() == s.last().ts.code() + seq![code1(n, fs)], good1(n, k)
    ensures c10_framed(t, fr_add(f, n), fs, k)
{
    lemma_codes_push(f.last().nodes, n, fs); lemma_good_push(f.last().nodes, n, k);
    assert(c10_frame1(s.last(), f.last(), fs, k, f.len() - 1));
    assert(t.last().ts.code() =~= codes(f.last().nodes.push(n), fs));
    assert forall|i: int| 0 <= i < fr_add(f, n).len() implies c10_frame1(#[trigger] t[i], fr_add(f, n)[i], fs, k, i) by { if i < f.len() - 1 { assert(c10_frame1(s[i], f[i], fs, k, i)); } }
}
/// the innermost group ends
pub proof fn c10_shut<'a>(s: Seq<Scope<'a>>, t: Seq<Scope<'a>>, f: Seq<Fr>, fs: Seq<Field>, k: int)
    requires c10_framed(s, f, fs, k), s.len() >= 2, t.len() == s.len() - 1, forall|j: int| 0 <= j < t.len() - 1 ==> t[j] == s[j], t.last().surround == s[t.len() - 1].surround,
        exists|g: Seq<Cd>| c10_group(s.last(), g) && t.last().ts.code() == #[trigger] (s[t.len() - 1].ts.code() + g)
    ensures c10_framed(t, close(f), fs, k)
{
    assert(c10_frame1(s.last(), f.last(), fs, k, f.len() - 1));
    let n = Nd::Group(f.last().field, f.last().open, f.last().nodes);
    let s1 = s.drop_last(); let f1 = f.drop_last();
    assert forall|j: int| 0 <= j < f1.len() implies c10_frame1(#[trigger] s1[j], f1[j], fs, k, j) by { assert(c10_frame1(s[j], f[j], fs, k, j)); }
    assert(c10_framed(s1, f1, fs, k));
    let g = choose|g: Seq<Cd>| c10_group(s.last(), g) && t.last().ts.code() == #[trigger] (s[t.len() - 1].ts.code() + g);
    assert(g =~= seq![code1(n, fs)]);
    c10_framed_add(s1, f1, fs, k, t, n);
}
pub proof fn c10_step<'a>(s: Seq<Scope<'a>>, t: Seq<Scope<'a>>, p: Pr, fs: Seq<Field>, k: int, i: int, c: char)
    requires c10_framed(s, p.frames, fs, k), 0 <= i < k <= fs.len(),
        close_of(c) is Some ==> t.len() == s.len() + 1 && (forall|j: int| 0 <= j < s.len() ==> t[j] == s[j]) && t.last().ts.code() == Seq::<Cd>::empty() && t.last().surround is Some && t.last().surround->0.ident.text() == var_of(fs[i], i) && *t.last().surround->0.field == fs[i] && opens(c) == Some(t.last().surround->0.delimiter),
        close_of(c) is None ==> s.len() >= 2 && t.len() == s.len() - 1 && (forall|j: int| 0 <= j < t.len() - 1 ==> t[j] == s[j]) && t.last().surround == s[t.len() - 1].surround && exists|g: Seq<Cd>| c10_group(s.last(), g) && t.last().ts.code() == #[trigger] (s[t.len() - 1].ts.code() + g)
    ensures c10_framed(t, pr_char(p, i, c).frames, fs, k)
{
    let f = p.frames;
    if close_of(c) is Some {
        let g = f.push(Fr { field: i, open: c, nodes: Seq::empty() });
        assert forall|j: int| 0 <= j < g.len() implies c10_frame1(#[trigger] t[j], g[j], fs, k, j) by { if j < f.len() { assert(c10_frame1(s[j], f[j], fs, k, j)); } }
    } else {
        c10_shut(s, t, f, fs, k);
    }
}
/// the frames and the closes owed go together
pub open spec fn c10_is(a: Pr, b: Pr) -> bool { a == b }
pub open spec fn c10_are(a: Seq<Fr>, b: Seq<Fr>) -> bool { a == b }
pub open spec fn c10_opened(a: bool, b: bool) -> bool { a == b }
pub proof fn c10_chars(p: Pr, i: int, s: Seq<char>, k: int) requires 0 <= k < s.len() ensures pr_chars(p, i, s.take(k + 1)) == pr_char(pr_chars(p, i, s.take(k)), i, s[k]) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn c10_strings(p: Pr, i: int, s: Seq<LitStr>, k: int) requires 0 <= k < s.len() ensures pr_strings(p, i, vals::<LitStr>(s.take(k + 1))) == pr_chars(pr_strings(p, i, vals::<LitStr>(s.take(k))), i, lit_str(s[k].val()))
{ assert(vals::<LitStr>(s.take(k + 1)).drop_last() =~= vals::<LitStr>(s.take(k))); }
pub proof fn c10_attrs(p: Pr, i: int, s: Seq<Attribute>, k: int) requires 0 <= k < s.len() ensures pr_attrs(p, i, s.take(k + 1)) == pr_attr(pr_attrs(p, i, s.take(k)), i, s[k]) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn c10_next(s: Seq<Field>, k: int) requires 0 <= k < s.len() ensures fr_fields(s.take(k + 1)) == fr_field(fr_fields(s.take(k)), k, s[k]) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub open spec fn c10_token(r: Ident, d: Delimiter) -> bool { r.text() == tok_name(dopen(d)) }
pub open spec fn c10_group<'a>(s: Scope<'a>, r: Seq<Cd>) -> bool {
    match s.surround { Some(x) => r == seq![Cd::N(q_surround(), seq![func_cd(x.field.ty, dopen(x.delimiter)), seq![Cd::Id(x.ident.text())], s.ts.code()])], None => r == Seq::<Cd>::empty() }
}
pub open spec fn c10_var(r: Ident, ident: Option<Ident>, index: Option<usize>) -> bool { r.text() == (match ident { Some(x) => seq!['_'] + unrawed(x.text()), None => seq!['_'] + index->0.disp() }) }
pub open spec fn c10_vars(v: Seq<TokenStream>, fs: Fields, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).code() == vars(fs)[i] }
pub proof fn c10_all(v: Seq<TokenStream>, fs: Fields) requires c10_vars(v, fs, fs@.len() as int) ensures cds(v) == vars(fs) { assert(cds(v) =~= vars(fs)); }
pub proof fn c10_ext(a: Seq<Cd>, b: Seq<Cd>) requires a =~= b ensures a == b {}
pub open spec fn c10_pattern(r: Seq<Cd>, path: Seq<Cd>, fs: Fields) -> bool { r == pattern(path, fs) }
pub open spec fn c10_arms(a: Seq<TokenStream>, v: Seq<Variant>, k: int) -> bool { a.len() == k && (syn_variants(v) ==> forall|i: int| 0 <= i < k ==> c10_variant((#[trigger] a[i]).code(), v[i])) }
pub open spec fn c10_fields(r: Seq<Cd>, fs: Seq<Field>) -> bool { r == codes(c10_tree(fs), fs) && good(c10_tree(fs), fs.len() as int) && fs.len() <= usize::MAX }
@fn delimiter_from_open_char
@ret r
@spec
  ensures r == opens(value)
@fn delimiter_from_close_char
@ret r
@spec
  ensures r == closes(value)
@fn Scope::new
@ret r
@spec
  ensures r.surround == surround, r.ts.code() == Seq::<Cd>::empty()
@fn close_char_of
@ret r
@spec
  requires !(delimiter is None)
  ensures closes(r) == Some(delimiter)
@fn Surround::token_type_ident
@ret r
@spec
  requires !(self.delimiter is None)
  ensures c10_token(r, self.delimiter)
@entry
  proof { assert(forall|i: Ident| (#[trigger] i.cd())[0] == Cd::Id(i.text())); }
@fn Scope::into_code
@ret r
@locals self delimiter span s delimiter ident ts ty span func ty code
@spec
  requires scope_ok(self), delimiter is Some ==> !(delimiter->0 is None)
  ensures (r is Ok) == (self.surround is Some && delimiter is Some ==> self.surround->0.delimiter == delimiter->0),
    r is Ok ==> c10_group(self, r->Ok_0.code())
@fn to_var_ident
@ret r
@spec
  requires ident is None ==> index is Some
  ensures c10_var(r, *ident, index)
@entry
  proof { reveal_strlit("_"); assert("_"@ =~= seq!['_']); }
@fn to_pattern
@ret r
@spec
  requires named_fields(*fields)
  ensures c10_pattern(r.code(), self_path.code(), *fields)
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == fields@, fields is Unnamed, c10_vars(vars@, *fields, __i0 as int)
  decreases __s0@.len() - __i0
@loopend 0
  proof { c10_ext(vars@.last().code(), prn::vars(*fields)[__i0 - 1]); }
@loopexit 0
  proof { c10_all(vars@, *fields); }
@loopend 1
  proof { c10_ext(vars@.last().code(), prn::vars(*fields)[__i1 - 1]); }
@loopexit 1
  proof { c10_all(vars@, *fields); }
@loop 1
  invariant __i1 <= __s1@.len(), __s1@ == fields@, fields is Named, named_fields(*fields), c10_vars(vars@, *fields, __i1 as int)
  decreases __s1@.len() - __i1
@fn code_from_fields
@ret r
@locals fields scopes index field ident field_to_tokens attr attr token c delimiter delimiter scope code scope
@spec
  ensures (r is Ok) == (tt_fields(fields@) is Some),
    r is Ok ==> c10_fields(r->Ok_0.code(), fields@)
@entry
  broadcast use tpa::tp_axioms;
  let ghost mut owed: Seq<char> = Seq::empty();
  let ghost fs = fields@;
  let ghost mut fr: Seq<Fr> = fr_fields(Seq::empty());
  let ghost mut pt: Pr = pr0(fr);
  let ghost mut pc: Pr = pr0(fr);
  let ghost mut pa: Pr = pr0(fr);
  let ghost mut wt: Walk = walk0(Seq::empty());
  let ghost mut wc: Walk = walk0(Seq::empty());
  let ghost mut wa: Walk = walk0(Seq::empty());
@loop 0
  invariant c10_are(fr, fr_fields(fs.take(__i0 as int))), c10_framed(scopes@, fr, fs, __i0 as int), fs == fields@,
    __i0 <= __s0@.len(), __s0@ == fields@, tt_fields(fields@.take(__i0 as int)) == Some(owed), stands(scopes@, owed)
  decreases __s0@.len() - __i0
@loopentry 0
  let ghost mut sb = scopes@;
  proof { pa = pr0(fr); c10_framed_more(scopes@, fr, fs, __i0 - 1, __i0 as int); c10_next(fs, __i0 - 1); }
  proof { assert(fields@.take(__i0 as int).drop_last() =~= fields@.take(__i0 - 1)); assert(fields@.take(__i0 as int).last() == *field); if tt_fields(fields@.take(__i0 as int)) is None { tt_fields_none(fields@, __i0 as int); } wa = walk0(owed); }
@loop 1
  invariant c10_is(pa, pr_attrs(pr0(fr), index as int, field.attrs@.take(__i1 as int))), fs == fields@, *field == fs[index as int], index == __i0 - 1, __i0 <= fs.len(), c10_var(ident, field.ident, Some(index)), c10_framed(scopes@, pa.frames, fs, __i0 as int), c10_opened(pa.opened, !field_to_tokens),
    __i1 <= __s1@.len(), __s1@ == field.attrs@, at_attrs(walk0(owed), field.attrs@.take(__i1 as int), false) == Some(wa), stands(scopes@, wa.owed), field_to_tokens == !wa.opened,
    at_field(owed, *field, false) is None ==> tt_fields(fields@) is None
  decreases __s1@.len() - __i1
@loopentry 1
  broadcast use tpa::tp_axioms;
  proof { let s = field.attrs@; assert(s.take(__i1 as int).drop_last() =~= s.take(__i1 - 1)); assert(s.take(__i1 as int).last() == *attr);
    if at_attrs(walk0(owed), s.take(__i1 as int), false) is None { at_attrs_none(walk0(owed), s, false, __i1 as int); }
    wt = wa; pt = pa; c10_attrs(pr0(fr), index as int, s, __i1 - 1); }
@loop 2
  invariant c10_is(pt, pr_strings(pa, index as int, vals::<LitStr>(__s2@.take(__i2 as int)))), fs == fields@, *field == fs[index as int], index == __i0 - 1, __i0 <= fs.len(), c10_var(ident, field.ident, Some(index)), c10_framed(scopes@, pt.frames, fs, __i0 as int), c10_opened(pt.opened, !field_to_tokens),
    __i2 <= __s2@.len(), __s2@ == attr.token@, at_strings(wa, vals::<LitStr>(__s2@.take(__i2 as int))) == Some(wt), stands(scopes@, wt.owed), field_to_tokens == !wt.opened,
    at_strings(wa, vals::<LitStr>(__s2@)) is None ==> tt_fields(fields@) is None
  decreases __s2@.len() - __i2
@loopentry 2
  proof { let s = vals::<LitStr>(__s2@); assert(vals::<LitStr>(__s2@.take(__i2 as int)) =~= s.take(__i2 as int)); assert(vals::<LitStr>(__s2@.take(__i2 - 1)) =~= s.take(__i2 as int).drop_last()); assert(s.take(__i2 as int).last() == token.val());
    if at_strings(wa, s.take(__i2 as int)) is None { at_strings_none(wa, s, __i2 as int); }
    wc = wt; pc = pt; c10_strings(pa, index as int, __s2@, __i2 - 1); }
@loop 3
  invariant c10_is(pc, pr_chars(pt, index as int, __s3@.take(__i3 as int))), fs == fields@, *field == fs[index as int], index == __i0 - 1, __i0 <= fs.len(), c10_var(ident, field.ident, Some(index)), c10_framed(scopes@, pc.frames, fs, __i0 as int), c10_opened(pc.opened, !field_to_tokens),
    __i3 <= __s3@.len(), __s3@ == lit_str(token.val()), at_chars(wt, __s3@.take(__i3 as int)) == Some(wc), stands(scopes@, wc.owed), field_to_tokens == !wc.opened,
    at_chars(wt, __s3@) is None ==> tt_fields(fields@) is None
  decreases __s3@.len() - __i3
@loopentry 3
  let ghost s0 = scopes@;
  proof { c10_chars(pt, index as int, __s3@, __i3 - 1); }
  proof { let s = __s3@; assert(s.take(__i3 as int).drop_last() =~= s.take(__i3 - 1)); assert(s.take(__i3 as int).last() == c);
    if at_chars(wt, s.take(__i3 as int)) is None { at_chars_none(wt, s, __i3 as int); } else { wc = at_char(wc, c)->0; } }
@loopend 3
  proof { c10_step(s0, scopes@, pc, fs, __i0 as int, index as int, c); pc = pr_char(pc, index as int, c); }
@loopexit 3
  proof { assert(__s3@.take(__i3 as int) =~= __s3@); wt = wc; pt = pc; }
@loopexit 2
  proof { assert(__s2@.take(__i2 as int) =~= __s2@); wa = wt; pa = pt; }
@loopexit 1
  proof { assert(field.attrs@.take(__i1 as int) =~= field.attrs@); owed = wa.owed; sb = scopes@; }
@loopend 0
  proof { if !pa.opened { c10_framed_add(sb, pa.frames, fs, __i0 as int, scopes@, Nd::Leaf(index as int)); } fr = fr_field(fr, index as int, *field); }
@loopexit 0
  proof { assert(fields@.take(__i0 as int) =~= fields@); assert(fs.len() <= usize::MAX); }
@loopentry 4
  let ghost s0 = scopes@;
  proof { if s0.len() > 0 { assert(c10_frame1(s0.last(), fr.last(), fs, fs.len() as int, s0.len() - 1)); } }
@loopend 4
  proof { c10_shut(s0, scopes@, fr, fs, fs.len() as int); fr = close(fr); }
@loop 4
  invariant fs == fields@, fs.len() <= usize::MAX, c10_framed(scopes@, fr, fs, fs.len() as int), c10_tree(fs) == fr_end(fr),
    scopes@.len() > 0, forall|i: int| 0 < i < scopes@.len() ==> (#[trigger] scopes@[i]).surround is Some && !(scopes@[i].surround->0.delimiter is None), tt_fields(fields@) is Some
  ensures false
  decreases scopes@.len()
@fn code_from_struct
@ret r
@spec
  requires named_fields(data.fields)
  ensures (r is Ok) == (tt_fields(data.fields@) is Some),
    r is Ok && syn_fields(data.fields) ==> c10_struct(r->Ok_0.code(), data.fields)
@entry
  proof { if syn_fields(data.fields) && good(c10_tree(data.fields@), data.fields@.len() as int) && data.fields@.len() <= usize::MAX { lemma_prints(seq![Cd::N(q_self(), seq![])], data.fields); } }
@fn code_from_enum
@ret r
@locals data arms variant ident p code
@spec
  requires forall|i: int| 0 <= i < data.variants@.len() ==> named_fields((#[trigger] data.variants@[i]).fields)
  ensures (r is Ok) == forall|i: int| 0 <= i < data.variants@.len() ==> tt_fields((#[trigger] data.variants@[i]).fields@) is Some,
    r is Ok && syn_variants(data.variants@) ==> c10_enum(r->Ok_0.code(), data.variants@)
@loopentry 0
  proof { let f = variant.fields; if syn_fields(f) && good(c10_tree(f@), f@.len() as int) && f@.len() <= usize::MAX { lemma_prints(seq![Cd::N(q_variant(), seq![seq![Cd::Id(variant.ident.text())]])], f); } }
@loopexit 0
  proof { if syn_variants(data.variants@) { assert forall|i: int| 0 <= i < data.variants@.len() implies c10_variant(#[trigger] cds(arms@)[i], data.variants@[i]) by { assert(c10_variant(arms@[i].code(), data.variants@[i])); } } }
@loop 0
  invariant c10_arms(arms@, data.variants@, __i0 as int), __i0 <= __s0@.len(), __s0@ == data.variants@, forall|i: int| 0 <= i < __i0 ==> tt_fields((#[trigger] data.variants@[i]).fields@) is Some,
    forall|i: int| 0 <= i < data.variants@.len() ==> named_fields((#[trigger] data.variants@[i]).fields)
  decreases __s0@.len() - __i0
@include impltr_fns.vc
@file structmeta-derive/src/to_tokens.rs
@fn derive_to_tokens
@ret r
@locals input dump attr attr ts data data ts ts
@spec
  requires syn_wf(input)
  ensures (r is Ok) == c13_to_tokens(input),
    r is Ok && syn_def(input) ==> c10_impl(r->Ok_0.code(), input),
    r is Ok ==> c17_to_tokens(r->Ok_0.code(), input)
@entry
  broadcast use tpa::tp_axioms;
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == input.attrs@, item_tt(__s0@.take(__i0 as int)), dump ==> asked_dump(input)
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use tpa::tp_axioms;
  proof { assert(__s0@.take(__i0 as int) =~= __s0@.take(__i0 - 1).push(*attr)); assert(__s0@[__i0 - 1] == *attr); }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
@complete
@file structmeta-derive/src/to_tokens_attribute.rs
@complete
@include entry.vc
@text
pub open spec fn c13_answered(ok: bool, r: Seq<Cd>) -> bool { answers(ok, r) }
pub open spec fn c10_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c13_to_tokens(d) && syn_def(d) ==> c10_impl(r, d) }
pub open spec fn c17_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c13_to_tokens(d) ==> c17_to_tokens(r, d) }
@file structmeta-derive/src/lib.rs
@fn derive_to_tokens
@rename entry_point
@ret r
@spec
  ensures match item_of(input) { None => is_error(r.code()), Some(d) => c13_answered(c13_to_tokens(d), r.code()) && c10_answered(d, r.code()) && c17_answered(d, r.code()) }
