@include prelude.vc
@include synty.vc
@include defs.vc
@include types_spec.vc
@assume types_fns.vc
@include tpattr.vc
@assume tpattr_fns.vc
@include tread.vc
@include trip.vc
@file structmeta-derive/src/parse.rs
@item ParseAttribute
@item ParseAttributeArg
@item Scope
@item PeekItem
@text
impl Parse for ParseAttributeArg { open spec fn ty() -> int { 61 } open spec fn val(&self) -> Val { match self { ParseAttributeArg::Any(_) => pa_word(1), ParseAttributeArg::Peek(_) => pa_word(2), ParseAttributeArg::Terminated(_) => pa_word(3), ParseAttributeArg::Dump(_) => pa_word(4) } } }
impl Parse for ParseAttribute { open spec fn ty() -> int { 62 } open spec fn val(&self) -> Val { pa_val(PaArgs { any: self.any is Some, peek: self.peek is Some, terminated: self.terminated is Some, dump: self.dump is Some }) } }
/// one input for the root and one for every group still open
pub open spec fn stands(s: Seq<Scope>, owed: Seq<char>) -> bool {
    s.len() == owed.len() + 1 && s[0].close is None && forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i]).close == Some(owed[i - 1])
}
pub open spec fn same(a: Walk, b: Walk) -> bool { a.peek == b.peek }
pub open spec fn c11_names(s: Seq<Scope>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].input.text()) }
pub open spec fn c11_ops(a: Ow, b: Ow) -> bool { a == b }
pub open spec fn c11_opened(p: Ow, use_parse: bool) -> bool { p.opened == !use_parse }
/// fields read once this one's attributes so far are done with
pub open spec fn c11_k(p: Ow, i: int) -> int { if p.opened { i + 1 } else { i } }
pub open spec fn c11_flags(any: bool, term: bool, peek: bool, f: Fl) -> bool { f == (Fl { any, term, peek }) }
pub open spec fn c11_var(r: Ident, index: usize, ident: Option<Ident>) -> bool { r.text() == (match ident { Some(x) => seq!['_'] + unrawed(x.text()), None => seq!['_'] + index.disp() }) }
pub open spec fn c11_bracket(r: Ident, c: char) -> bool { r.text() == (if c == '(' { "parenthesized"@ } else if c == '[' { "bracketed"@ } else { "braced"@ }) }
pub open spec fn c11_inits(v: Seq<TokenStream>, fs: Seq<Field>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).code() == init1(fs[i], i) }
pub open spec fn c11_done_with(o: Seq<Op>, fs: Seq<Field>, k: int) -> bool { o == op_fields(fs.take(k)) }
pub proof fn c11_all(v: Seq<TokenStream>, fs: Seq<Field>) requires c11_inits(v, fs, fs.len() as int) ensures cds(v) == inits(fs) { assert(cds(v) =~= inits(fs)); }
pub proof fn c11_ext<T>(a: Seq<T>, b: Seq<T>) requires a =~= b ensures a == b {}
pub proof fn c11_chars(p: Ow, i: int, s: Seq<char>, k: int) requires 0 <= k < s.len() ensures op_chars(p, i, s.take(k + 1)) == op_char(op_chars(p, i, s.take(k)), i, s[k]) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn c11_strings(p: Ow, i: int, s: Seq<LitStr>, k: int) requires 0 <= k < s.len() ensures op_strings(p, i, vals::<LitStr>(s.take(k + 1))) == op_chars(op_strings(p, i, vals::<LitStr>(s.take(k))), i, lit_str(s[k].val()))
{ assert(vals::<LitStr>(s.take(k + 1)).drop_last() =~= vals::<LitStr>(s.take(k))); }
pub proof fn c11_attrs(p: Ow, i: int, s: Seq<Attribute>, k: int) requires 0 <= k < s.len() ensures op_attrs(p, i, s.take(k + 1)) == op_attr(op_attrs(p, i, s.take(k)), i, s[k]), fl_attrs(s.take(k + 1)) == fl_attr(fl_attrs(s.take(k)), s[k]) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn c11_next(s: Seq<Field>, k: int) requires 0 <= k < s.len() ensures op_fields(s.take(k + 1)) == op_field(op_fields(s.take(k)), k, s[k]),
    pk_fields(s.take(k + 1)) == (match pk_field(s[k]) { Some(x) => pk_fields(s.take(k)).push(x), None => pk_fields(s.take(k)) }) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
/// a delimiter of a `to_tokens` string is done with
pub proof fn c11_step(code: Seq<Cd>, more: Seq<Cd>, s: Seq<Scope>, t: Seq<Scope>, p: Ow, fs: Fields, i: int, c: char)
    requires c11_sim(code, p.ops, c11_names(s), fs, c11_k(p, i)), 0 <= i < fs@.len() <= usize::MAX, 0 < s.len(),
        close_of(c) is Some ==> t.len() == s.len() + 1 && t.len() <= usize::MAX && (forall|j: int| 0 <= j < s.len() ==> t[j] == s[j]) && t.last().input.text() == in_name(i, s.len() as int) && grown(code, more) && opens_it(more.last(), t.last().input.text(), s.last().input.text(), fs@[i], i, c),
        close_of(c) is None ==> t == s.drop_last() && more == code
    ensures c11_sim(more, op_char(p, i, c).ops, c11_names(t), fs, c11_k(op_char(p, i, c), i))
{
    if close_of(c) is Some {
        assert(name_at(t.last().input.text(), s.len() as int));
        c11_open(code, more, p.ops, c11_names(s), fs, c11_k(p, i), i, c, t.last().input.text());
        assert(c11_names(t) =~= c11_names(s).push(t.last().input.text()));
    } else {
        c11_close(code, p.ops, c11_names(s), fs, c11_k(p, i));
        assert(c11_names(t) =~= c11_names(s).drop_last());
    }
}
pub proof fn c11_takes(m: Seq<Cd>, c: char)
    requires close_of(c) is Some, node_of(m, r_bracket(), 1) is Some, id_of(node_of(m, r_bracket(), 1)->0[0]) == Some(if c == '(' { "parenthesized"@ } else if c == '[' { "bracketed"@ } else { "braced"@ })
    ensures takes(m) == Some((false, dl_of(c)))
{ reveal_strlit("parenthesized"); reveal_strlit("bracketed"); reveal_strlit("braced"); assert("parenthesized"@.len() == 13); assert("bracketed"@.len() == 9); assert("braced"@.len() == 6); }
pub open spec fn peek_cd(p: (Type, bool)) -> Seq<Cd> { if p.1 { seq![Cd::N(r_peek_any(), seq![seq![Cd::Ty(p.0)]])] } else { seq![Cd::Ty(p.0)] } }
pub open spec fn c12_peeks(v: Seq<PeekItem>, fs: Seq<Field>) -> bool { v.len() == pk_fields(fs).len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).arg.code() == peek_cd(pk_fields(fs)[j]) }
pub open spec fn c12_pred(r: Seq<Cd>, index: usize, arg: Seq<Cd>) -> bool { match node_of(r, r_pred(), 2) { Some(a) => id_of(a[0]) is Some && nth_peek(id_of(a[0])->0) == Some(index as int) && a[1] == arg, None => false } }
pub open spec fn c12_preds(p: Seq<TokenStream>, pk: Seq<PeekItem>, k: int) -> bool { p.len() == k && forall|j: int| 0 <= j < k ==> c12_pred((#[trigger] p[j]).code(), j as usize, pk[j].arg.code()) }
pub proof fn c12_guarded(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, p: Seq<TokenStream>, pk: Seq<PeekItem>, v: Seq<Variant>, i: int)
    requires c12_sim(code, v, i), i < v.len(), two(code, more, f, b, Cd::N(r_if(), seq![seq![Cd::R(cds(p))], seq![Cd::Id(f)]])), c11_code(b, vpath(v[i]), v[i].fields),
        c12_peeks(pk, v[i].fields@), pk.len() > 0, c12_preds(p, pk, pk.len() as int), pk.len() <= usize::MAX
    ensures c12_sim(more, v, i + 1)
{
    let l = cds(p); let q = pk_fields(v[i].fields@);
    assert forall|j: int| 0 <= j < l.len() implies pred_of(#[trigger] l[j]) == Some((j, q[j].0, q[j].1)) by { assert(c12_pred(p[j].code(), j as usize, pk[j].arg.code())); assert(pk[j].arg.code() == peek_cd(q[j])); }
    c12_if(code, more, f, b, l, v, i);
}
pub open spec fn c12_state(moved: bool, code: Seq<Cd>, v: Seq<Variant>, i: int) -> bool { if moved { i == v.len() && c12_enum(code, v) } else { c12_sim(code, v, i) } }
pub proof fn c12_start(code: Seq<Cd>, v: Seq<Variant>) requires code =~= seq![Cd::N(r_use(), seq![])] ensures c12_sim(code, v, 0)
{ assert(v.take(0) =~= Seq::empty()); assert(code.drop_last() =~= Seq::empty()); assert forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| #[trigger] esim(code, tys, t, v, 0) by { assert(erun(code.drop_last(), tys, t) is Go); } }
/// a variant is done with
pub proof fn c12_one(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, c: Cd, gp: Seq<TokenStream>, gk: Seq<PeekItem>, v: Seq<Variant>, i: int, moved: bool)
    requires syn_variants(v), c12_sim(code, v, i), 0 <= i < v.len(), two(code, more, f, b, c), c11_code(b, vpath(v[i]), v[i].fields), moved ==> i == v.len() - 1,
        c == (if pk_fields(v[i].fields@).len() > 0 { Cd::N(r_if(), seq![seq![Cd::R(cds(gp))], seq![Cd::Id(f)]]) } else if moved { Cd::N(r_direct(), seq![seq![Cd::Id(f)]]) } else { Cd::N(r_fork(), seq![seq![Cd::Id(f)]]) }),
        pk_fields(v[i].fields@).len() > 0 ==> !moved && c12_peeks(gk, v[i].fields@) && c12_preds(gp, gk, gk.len() as int) && gk.len() <= usize::MAX
    ensures c12_state(moved, more, v, i + 1)
{
    if pk_fields(v[i].fields@).len() > 0 { c12_guarded(code, more, f, b, gp, gk, v, i); } else if moved { c12_direct(code, more, f, b, v); } else { c12_fork(code, more, f, b, v, i); }
}
pub proof fn c12_starts(v: Seq<Variant>) ensures forall|c: Seq<Cd>| c =~= seq![Cd::N(r_use(), seq![])] ==> #[trigger] c12_sim(c, v, 0)
{ assert forall|c: Seq<Cd>| c =~= seq![Cd::N(r_use(), seq![])] implies #[trigger] c12_sim(c, v, 0) by { c12_start(c, v); } }
pub open spec fn c12_last(moved: bool, i: int, v: Seq<Variant>) -> bool { moved ==> i == v.len() }
@fn Parse.ParseAttributeArg::parse
@ret r
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use tpa::tp_axioms;
@fn Parse.ParseAttribute::parse
@ret r
@locals input any peek terminated dump args arg kw_any kw_peek kw_terminated kw_dump
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use tpa::tp_axioms;
@loop 0
  invariant __i0 <= __s0@.len(), plist(61, old(input)@.toks) == Some(vals::<ParseAttributeArg>(__s0@)), input@ == (Pb { toks: Seq::empty(), ..old(input)@ }),
    pa_flags(vals::<ParseAttributeArg>(__s0@.take(__i0 as int))) == (PaArgs { any: any is Some, peek: peek is Some, terminated: terminated is Some, dump: dump is Some }),
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use tpa::tp_axioms;
  proof { let w = vals::<ParseAttributeArg>(__s0@.take(__i0 as int)); assert(w.drop_last() =~= vals::<ParseAttributeArg>(__s0@.take(__i0 - 1))); assert(w.last() == vals::<ParseAttributeArg>(seq![arg])[0]);
    lemma_contains_last(w, pa_word(1)); lemma_contains_last(w, pa_word(2)); lemma_contains_last(w, pa_word(3)); lemma_contains_last(w, pa_word(4)); }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); assert(old(input)@.adv(old(input)@.toks.len() as int).toks =~= Seq::<Tt>::empty()); }
@fn to_parse_bracket
@ret r
@spec
  requires close_of(c) is Some
  ensures c11_bracket(r, c)
@entry
  proof { assert(forall|i: Ident| (#[trigger] i.cd())[0] == Cd::Id(i.text())); }
@fn to_var_ident
@ret r
@spec
  ensures c11_var(r, index, *ident)
@entry
  proof { reveal_strlit("_"); assert("_"@ =~= seq!['_']); }
@fn to_display
@spec
  ensures true
@fn to_predicate
@ret r
@spec
  ensures (r is Ok) == (index < 3), r is Ok ==> c12_pred(r->Ok_0.code(), index, peek.arg.code())
@entry
  proof { assert(forall|i: Ident| (#[trigger] i.cd())[0] == Cd::Id(i.text())); reveal_strlit("peek"); reveal_strlit("peek2"); reveal_strlit("peek3"); assert("peek"@.len() == 4); assert("peek2"@.len() == 5); assert("peek3"@.len() == 5); assert("peek2"@[4] == '2'); assert("peek3"@[4] == '3'); }
@fn code_from_fields
@ret r
@locals self_path fields peeks scopes ts inits non_peek_field index field ty var_ident use_parse peek is_any is_terminated is_root attr attr token c parse_bracket parse_bracket input_old input ty code attr peeks peek span non_peek_field arg input expr code field_ident init
@spec
  requires peeks__in is Some ==> peeks__in->0@.len() == 0
  ensures (r is Ok) == (pa_fields(fields@, peeks__in is Some) is Some),
    r is Ok && peeks__in is Some ==> (*final(peeks__in->0))@.len() == pa_fields(fields@, true)->0.peeks,
    r is Ok && peeks__in is Some ==> c12_peeks((*final(peeks__in->0))@, fields@),
    r is Ok && syn_fields(*fields) ==> c11_code(r->Ok_0.code(), self_path.code(), *fields)
@entry
  let ghost fs = fields@;
  let ghost mut o0: Seq<Op> = Seq::empty();
  let ghost mut oa: Ow = ow0(o0);
  let ghost mut ot: Ow = ow0(o0);
  let ghost mut oc: Ow = ow0(o0);
  proof { assert(forall|i: Ident| (#[trigger] i.cd())[0] == Cd::Id(i.text())); assert(fs.take(0) =~= Seq::empty()); }
  broadcast use tpa::tp_axioms;
  let ghost e = peeks__in is Some;
  let ghost mut st: Past = Past { owed: Seq::empty(), blocked: false, peeks: 0 };
  let ghost mut wt: Walk = walk0(Seq::empty());
  let ghost mut wc: Walk = walk0(Seq::empty());
  let ghost mut wa: Walk = walk0(Seq::empty());
  let ghost mut wb: Walk = walk0(Seq::empty());
@loop 0
  invariant fs == fields@, c11_done_with(o0, fs, __i0 as int), c11_sim(ts.code(), o0, c11_names(scopes@), *fields, __i0 as int), c11_inits(inits@, fs, __i0 as int), e ==> c12_peeks(peeks->0@, fs.take(__i0 as int)),
    __i0 <= __s0@.len(), __s0@ == fields@, pa_fields(fields@.take(__i0 as int), e) == Some(st), stands(scopes@, st.owed),
    st.blocked == (non_peek_field is Some), peeks is Some == e, peeks__in is Some == e,
    e ==> peeks->0@.len() == st.peeks && *final(peeks->0) == *final(peeks__in->0)
  decreases __s0@.len() - __i0
@loopentry 0
  let ghost mut sb = scopes@;
  let ghost mut tb = ts.code();
  proof { oa = ow0(o0); c11_next(fs, __i0 - 1); }
  proof { assert(fields@.take(__i0 as int).drop_last() =~= fields@.take(__i0 - 1)); assert(fields@.take(__i0 as int).last() == *field); if pa_fields(fields@.take(__i0 as int), e) is None { pa_fields_none(fields@, e, __i0 as int); } wa = walk0(st.owed); }
@loop 1
  invariant *field == fs[index as int], index == __i0 - 1, __i0 <= fs.len() <= usize::MAX, fs == fields@, c11_var(var_ident, index, field.ident), c11_ops(oa, op_attrs(ow0(o0), index as int, field.attrs@.take(__i1 as int))), c11_opened(oa, use_parse), c11_flags(is_any, is_terminated, peek is Some, fl_attrs(field.attrs@.take(__i1 as int))), c11_sim(ts.code(), oa.ops, c11_names(scopes@), *fields, c11_k(oa, index as int)),
    e == (peeks__in is Some), __i1 <= __s1@.len(), __s1@ == field.attrs@, at_attrs(walk0(st.owed), field.attrs@.take(__i1 as int), true) == Some(wa), stands(scopes@, wa.owed), use_parse == !wa.opened, !wa.opened ==> wa.root == (wa.owed.len() == 0), is_root == wa.root,
    (peek is Some) == wa.peek,
    at_field(st.owed, *field, true) is None ==> pa_fields(fields@, e) is None
  decreases __s1@.len() - __i1
@loopentry 1
  broadcast use tpa::tp_axioms;
  proof { let s = field.attrs@; assert(s.take(__i1 as int).drop_last() =~= s.take(__i1 - 1)); assert(s.take(__i1 as int).last() == *attr);
    if at_attrs(walk0(st.owed), s.take(__i1 as int), true) is None { at_attrs_none(walk0(st.owed), s, true, __i1 as int); }
    wt = wa; wb = wa; ot = oa; c11_attrs(ow0(o0), index as int, s, __i1 - 1); }
@loopend 1
  proof { oa = op_attr(oa, index as int, *attr); wa = at_attr(wa, *attr, true)->0; }
@loop 2
  invariant *field == fs[index as int], index == __i0 - 1, __i0 <= fs.len() <= usize::MAX, fs == fields@, c11_var(var_ident, index, field.ident), c11_ops(ot, op_strings(oa, index as int, vals::<LitStr>(__s2@.take(__i2 as int)))), c11_opened(ot, use_parse), c11_sim(ts.code(), ot.ops, c11_names(scopes@), *fields, c11_k(ot, index as int)),
    same(wt, wa), e == (peeks__in is Some), __i2 <= __s2@.len(), at_strings(wa, vals::<LitStr>(__s2@.take(__i2 as int))) == Some(wt), stands(scopes@, wt.owed), use_parse == !wt.opened, !wt.opened ==> wt.root == (wt.owed.len() == 0), is_root == wt.root,
    at_strings(wa, vals::<LitStr>(__s2@)) is None ==> pa_fields(fields@, e) is None
  decreases __s2@.len() - __i2
@loopentry 2
  proof { let s = vals::<LitStr>(__s2@); assert(vals::<LitStr>(__s2@.take(__i2 as int)) =~= s.take(__i2 as int)); assert(vals::<LitStr>(__s2@.take(__i2 - 1)) =~= s.take(__i2 as int).drop_last()); assert(s.take(__i2 as int).last() == token.val());
    if at_strings(wa, s.take(__i2 as int)) is None { at_strings_none(wa, s, __i2 as int); }
    wc = wt; oc = ot; c11_strings(oa, index as int, __s2@, __i2 - 1); }
@loop 3
  invariant *field == fs[index as int], index == __i0 - 1, __i0 <= fs.len() <= usize::MAX, fs == fields@, c11_var(var_ident, index, field.ident), c11_ops(oc, op_chars(ot, index as int, __s3@.take(__i3 as int))), c11_opened(oc, use_parse), c11_sim(ts.code(), oc.ops, c11_names(scopes@), *fields, c11_k(oc, index as int)),
    same(wc, wa), e == (peeks__in is Some), __i3 <= __s3@.len(), __s3@ == lit_str(token.val()), at_chars(wt, __s3@.take(__i3 as int)) == Some(wc), stands(scopes@, wc.owed), use_parse == !wc.opened, !wc.opened ==> wc.root == (wc.owed.len() == 0), is_root == wc.root,
    at_chars(wt, __s3@) is None ==> pa_fields(fields@, e) is None
  decreases __s3@.len() - __i3
@loopentry 3
  let ghost s0 = scopes@;
  let ghost t0 = ts.code();
  proof { c11_chars(ot, index as int, __s3@, __i3 - 1); reveal_strlit("_"); c11_ext("_"@, seq!['_']); }
  proof { let s = __s3@; assert(s.take(__i3 as int).drop_last() =~= s.take(__i3 - 1)); assert(s.take(__i3 as int).last() == c);
    if at_chars(wt, s.take(__i3 as int)) is None { at_chars_none(wt, s, __i3 as int); } else { wc = at_char(wc, c)->0; } }
@loopend 3
  proof { assert(scopes.len() <= usize::MAX); if close_of(c) is Some && !is_delim_t(field.ty) { c11_takes(ts.code().last()->N_1[2], c); } c11_step(t0, ts.code(), s0, scopes@, oc, *fields, index as int, c); oc = op_char(oc, index as int, c); }
@loopexit 3
  proof { assert(__s3@.take(__i3 as int) =~= __s3@); wt = wc; ot = oc; }
@loopexit 2
  proof { assert(__s2@.take(__i2 as int) =~= __s2@); wb = wt; }
@loopexit 1
  proof { assert(scopes.len() <= usize::MAX); sb = scopes@; tb = ts.code(); assert(field.attrs@.take(__i1 as int) =~= field.attrs@); }
@loopend 0
  proof { if !oa.opened { c11_item(tb, ts.code(), oa.ops, c11_names(sb), *fields, index as int, is_any, is_terminated); } o0 = op_field(o0, index as int, *field); }
  proof { st = pa_field(st, *field, e)->0; }
@loopexit 0
  proof { assert(fields@.take(__i0 as int) =~= fields@); assert(fs.len() <= usize::MAX); c11_all(inits@, fs); if syn_fields(*fields) { c11_done(ts.code(), self_path.code(), c11_names(scopes@), *fields); } }
@fn code_from_struct
@ret r
@spec
  ensures (r is Ok) == (pa_fields(data.fields@, false) is Some),
    r is Ok && syn_fields(data.fields) ==> c11_code(r->Ok_0.code(), seq![Cd::N(r_self(), seq![])], data.fields)
@fn code_from_enum
@ret r
@attrs #[verifier::loop_isolation(false)]
@locals data ts input_is_forked input_is_moved index variant variant_ident is_last fn_ident peeks fn_expr fn_def code preds index peek
@spec
  ensures (r is Ok) == forall|i: int| 0 <= i < data.variants@.len() ==> variant_ok(#[trigger] data.variants@[i]),
    r is Ok && syn_variants(data.variants@) ==> c12_enum(r->Ok_0.code(), data.variants@)
@entry
  let ghost vs = data.variants@;
  proof { c12_starts(vs); }
  let ghost mut t9: Seq<Cd> = Seq::empty();
  proof { assert(forall|i: Ident| (#[trigger] i.cd())[0] == Cd::Id(i.text())); }
@loopentry 0
  let ghost t0 = ts.code();
  let ghost mut gp: Seq<TokenStream> = Seq::empty();
  let ghost mut gk: Seq<PeekItem> = Seq::empty();
@loopexit 1
  proof { gp = preds@; gk = __s1@; assert(__s1.len() <= usize::MAX); }
@loopend 0
  proof { if syn_variants(vs) { let f = fn_ident.text(); let b = fn_expr.code(); let m = ts.code(); let i = __i0 - 1;
    c12_one(t0, m, f, b, code.code()[0], gp, gk, vs, i, input_is_moved); } }
@loop 0
  invariant syn_variants(vs) ==> c12_state(input_is_moved, ts.code(), vs, __i0 as int), vs == data.variants@, c12_last(input_is_moved, __i0 as int, vs),
    0 <= __i0 <= data.variants@.len(), forall|i: int| 0 <= i < __i0 ==> variant_ok(#[trigger] data.variants@[i])
  decreases data.variants@.len() - __i0
@loop 1
  invariant c12_preds(preds@, __s1@, __i1 as int), c12_peeks(__s1@, variant.fields@),
    0 <= __i1 <= __s1@.len(), __i1 <= 3, pa_fields(variant.fields@, true) is Some, __s1@.len() == pa_fields(variant.fields@, true)->0.peeks, *variant == data.variants@[__i0 - 1]
  decreases __s1@.len() - __i1
@loopexit 0
  proof { t9 = ts.code(); }
@tail
  proof { if syn_variants(vs) && !input_is_moved { c12_none(t9, ts.code(), vs); } }
@assume impltr_fns.vc
@file structmeta-derive/src/parse.rs
@fn derive_parse
@ret r
@locals input dump attr attr ts data data ts ts
@spec
  ensures (r is Ok) == c13_parse(input),
    r is Ok && syn_def(input) ==> c11_impl(r->Ok_0.code(), input) && c12_impl(r->Ok_0.code(), input),
    r is Ok ==> c17_parse(r->Ok_0.code(), input)
@entry
  broadcast use tpa::tp_axioms;
@loop 0
  invariant __i0 <= __s0@.len(), __s0@ == input.attrs@, item_pa(__s0@.take(__i0 as int)), dump ==> asked_dump(input)
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use tpa::tp_axioms;
  proof { assert(__s0@.take(__i0 as int) =~= __s0@.take(__i0 - 1).push(*attr)); assert(__s0@[__i0 - 1] == *attr); }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
@complete
@include entry.vc
@text
pub open spec fn c13_answered(ok: bool, r: Seq<Cd>) -> bool { answers(ok, r) }
pub open spec fn c11_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c13_parse(d) && syn_def(d) ==> c11_impl(r, d) }
pub open spec fn c12_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c13_parse(d) && syn_def(d) ==> c12_impl(r, d) }
pub open spec fn c17_answered(d: DeriveInput, r: Seq<Cd>) -> bool { c13_parse(d) ==> c17_parse(r, d) }
@file structmeta-derive/src/lib.rs
@fn derive_parse
@rename entry_point
@ret r
@spec
  ensures match item_of(input) { None => is_error(r.code()), Some(d) => c13_answered(c13_parse(d), r.code()) && c11_answered(d, r.code()) && c12_answered(d, r.code()) && c17_answered(d, r.code()) }
