@//  C11: reading what C10 prints gives back the value, for every definition (joins tprint.vc and tread.vc).
@include ptree.vc
@text
pub mod trip {
use super::*;
use super::tree::{Nd, Fr, Fv, Pr, toks, toks1, fr_add, close, fr_end, pr_char, pr_chars, pr_strings, pr_attr, pr_attrs, pr0, fr_field, fr_fields, c10_tree, c10_tokens};
/// what a field parser has to do: from the tokens its value is printed as, whatever follows in the same
/// group, it reads that value and stops there
pub open spec fn sound1(n: Nd, after: Seq<Tt>, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>) -> bool
    decreases n
{
    match n {
        Nd::Leaf(i) => reads(fs[i].ty, mode(fl_attrs(fs[i].attrs@).any, fl_attrs(fs[i].attrs@).term), v[i].toks + after) == Some((w[i], v[i].toks.len())),
        Nd::Group(i, c, inner) => w[i] == Tv::D(if is_delim_t(fs[i].ty) { v[i].dl } else { tree::dl_of(c) }, v[i].sp) && sound(inner, fs, v, w),
    }
}
pub open spec fn sound(n: Seq<Nd>, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>) -> bool
    decreases n
{ n.len() == 0 || (sound1(n[0], toks(n.skip(1), fs, v), fs, v, w) && sound(n.skip(1), fs, v, w)) }
// ---- the tree from the operations --------------------------------------------------------------
pub open spec fn fr_op(s: Seq<Fr>, o: Op) -> Seq<Fr> { match o { Op::Open(i, c) => s.push(Fr { field: i, open: c, nodes: Seq::empty() }), Op::Close => close(s), Op::Item(i, a, t) => fr_add(s, Nd::Leaf(i)) } }
pub open spec fn fr_ops(o: Seq<Op>) -> Seq<Fr>
    decreases o.len()
{ if o.len() == 0 { seq![Fr { field: -1, open: ' ', nodes: Seq::empty() }] } else { fr_op(fr_ops(o.drop_last()), o.last()) } }
/// the depth after the operations; None: one leaves a group that is not there
pub open spec fn dep(o: Seq<Op>) -> Option<nat>
    decreases o.len()
{ if o.len() == 0 { Some(0nat) } else { match dep(o.drop_last()) { None => None, Some(d) => match o.last() { Op::Open(i, c) => Some(d + 1), Op::Close => if d > 0 { Some((d - 1) as nat) } else { None }, Op::Item(i, a, t) => Some(d) } } } }
pub open spec fn of_field(o: Op, i: int) -> bool { match o { Op::Open(j, c) => i == j, Op::Item(j, a, t) => i == j, Op::Close => false } }
pub open spec fn has(o: Seq<Op>, i: int) -> bool { exists|k: int| 0 <= k < o.len() && #[trigger] of_field(o[k], i) }
pub open spec fn fits1(o: Op, fs: Seq<Field>) -> bool { match o { Op::Open(j, c) => 0 <= j < fs.len(), Op::Item(j, a, t) => 0 <= j < fs.len() && a == fl_attrs(fs[j].attrs@).any && t == fl_attrs(fs[j].attrs@).term, Op::Close => true } }
pub open spec fn all_fit(o: Seq<Op>, fs: Seq<Field>) -> bool { forall|k: int| 0 <= k < o.len() ==> fits1(#[trigger] o[k], fs) }
/// the same place in the three walks: printing, reading, checking
pub open spec fn joint(p: Pr, w: Ow, k: Walk, i: int, fs: Seq<Field>) -> bool {
    p.frames == fr_ops(w.ops) && p.opened == w.opened && dep(w.ops) == Some(k.owed.len()) && (w.opened ==> has(w.ops, i)) && all_fit(w.ops, fs) && 0 <= i < fs.len()
}
pub open spec fn others(a: Seq<Op>, b: Seq<Op>) -> bool { forall|j: int| has(a, j) ==> #[trigger] has(b, j) }
pub proof fn lemma_push(o: Seq<Op>, x: Op)
    ensures fr_ops(o.push(x)) == fr_op(fr_ops(o), x), others(o, o.push(x)), forall|j: int| of_field(x, j) ==> #[trigger] has(o.push(x), j)
{
    assert(o.push(x).drop_last() =~= o);
    assert forall|j: int| has(o, j) implies #[trigger] has(o.push(x), j) by { let k = choose|k: int| 0 <= k < o.len() && #[trigger] of_field(o[k], j); assert(of_field(o.push(x)[k], j)); }
    assert forall|j: int| of_field(x, j) implies #[trigger] has(o.push(x), j) by { assert(of_field(o.push(x)[o.len() as int], j)); }
}
pub proof fn lemma_char(p: Pr, w: Ow, k: Walk, i: int, fs: Seq<Field>, c: char)
    requires joint(p, w, k, i, fs), at_char(k, c) is Some
    ensures joint(pr_char(p, i, c), op_char(w, i, c), at_char(k, c)->0, i, fs), others(w.ops, op_char(w, i, c).ops)
{
    let x = if close_of(c) is Some { Op::Open(i, c) } else { Op::Close };
    lemma_push(w.ops, x);
    assert(w.ops.push(x).drop_last() =~= w.ops);
    assert(op_char(w, i, c).ops == w.ops.push(x));
}
pub proof fn lemma_chars(p: Pr, w: Ow, k: Walk, i: int, fs: Seq<Field>, s: Seq<char>)
    requires joint(p, w, k, i, fs), at_chars(k, s) is Some
    ensures joint(pr_chars(p, i, s), op_chars(w, i, s), at_chars(k, s)->0, i, fs), others(w.ops, op_chars(w, i, s).ops)
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); lemma_chars(p, w, k, i, fs, t); lemma_char(pr_chars(p, i, t), op_chars(w, i, t), at_chars(k, t)->0, i, fs, s.last()); } }
pub proof fn lemma_strings(p: Pr, w: Ow, k: Walk, i: int, fs: Seq<Field>, s: Seq<Val>)
    requires joint(p, w, k, i, fs), at_strings(k, s) is Some
    ensures joint(pr_strings(p, i, s), op_strings(w, i, s), at_strings(k, s)->0, i, fs), others(w.ops, op_strings(w, i, s).ops)
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); lemma_strings(p, w, k, i, fs, t); lemma_chars(pr_strings(p, i, t), op_strings(w, i, t), at_strings(k, t)->0, i, fs, lit_str(s.last())); } }
pub proof fn lemma_attrs(p: Pr, w: Ow, k: Walk, i: int, fs: Seq<Field>, s: Seq<Attribute>)
    requires joint(p, w, k, i, fs), at_attrs(k, s, true) is Some
    ensures joint(pr_attrs(p, i, s), op_attrs(w, i, s), at_attrs(k, s, true)->0, i, fs), others(w.ops, op_attrs(w, i, s).ops)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let a = s.last();
        lemma_attrs(p, w, k, i, fs, t);
        if path_is(a.p(), "to_tokens"@) { lemma_strings(pr_attrs(p, i, t), op_attrs(w, i, t), at_attrs(k, t, true)->0, i, fs, tt_attr(a)->0.strings); }
    }
}
/// reading and printing walk the fields alike, and every field has its operation
pub proof fn lemma_fields(fs: Seq<Field>, e: bool, all: Seq<Field>)
    requires pa_fields(fs, e) is Some, fs.len() <= all.len(), forall|j: int| 0 <= j < fs.len() ==> fs[j] == all[j]
    ensures fr_fields(fs) == fr_ops(op_fields(fs)), dep(op_fields(fs)) == Some(pa_fields(fs, e)->0.owed.len()), all_fit(op_fields(fs), all),
        forall|j: int| 0 <= j < fs.len() ==> #[trigger] has(op_fields(fs), j)
    decreases fs.len()
{
    if fs.len() > 0 {
        let f = fs.last(); let t = fs.drop_last(); let i = fs.len() - 1;
        lemma_fields(t, e, all);
        let s = pa_fields(t, e)->0;
        lemma_attrs(pr0(fr_fields(t)), ow0(op_fields(t)), walk0(s.owed), i, all, f.attrs@);
        let w = op_attrs(ow0(op_fields(t)), i, f.attrs@);
        let x = Op::Item(i, fl_attrs(f.attrs@).any, fl_attrs(f.attrs@).term);
        if !w.opened { lemma_push(w.ops, x); assert(w.ops.push(x).drop_last() =~= w.ops); assert(of_field(x, i)); assert(fits1(x, all)); }
        assert(has(op_fields(fs), i));
        assert forall|j: int| 0 <= j < fs.len() implies #[trigger] has(op_fields(fs), j) by { if j < i { assert(has(op_fields(t), j)); assert(has(w.ops, j)); } }
    }
}
// ---- what is still to be read, level by level --------------------------------------------------
pub open spec fn rem(o: Seq<Op>, d: nat) -> Seq<Seq<Nd>>
    decreases o.len()
{
    if o.len() == 0 { Seq::new(d + 1, |j: int| Seq::empty()) } else {
        match o[0] {
            Op::Item(i, a, t) => { let r = rem(o.skip(1), d); r.update(d as int, seq![Nd::Leaf(i)] + r[d as int]) },
            Op::Open(i, c) => { let r = rem(o.skip(1), d + 1); r.drop_last().update(d as int, seq![Nd::Group(i, c, r[d as int + 1])] + r[d as int]) },
            Op::Close => rem(o.skip(1), if d > 0 { (d - 1) as nat } else { 0 }).push(Seq::empty()),
        }
    }
}
/// the nodes printed so far together with the rest
pub open spec fn joined(f: Seq<Fr>, r: Seq<Seq<Nd>>) -> Seq<Nd>
    decreases f.len()
{
    if f.len() <= 1 { f.last().nodes + r.last() } else {
        let n = Nd::Group(f.last().field, f.last().open, f.last().nodes + r.last());
        joined(f.drop_last(), r.drop_last().update(f.len() - 2, seq![n] + r[f.len() - 2]))
    }
}
pub proof fn lemma_shift(f: Seq<Fr>, r: Seq<Seq<Nd>>, n: Nd)
    requires f.len() > 0, r.len() == f.len()
    ensures joined(fr_add(f, n), r) == joined(f, r.update(f.len() - 1, seq![n] + r.last()))
{
    let g = fr_add(f, n); let q = r.update(f.len() - 1, seq![n] + r.last());
    assert(g.last().nodes + r.last() =~= f.last().nodes + q.last());
    assert(g.drop_last() =~= f.drop_last());
    assert(r.drop_last() =~= q.drop_last());
}
pub proof fn lemma_end(f: Seq<Fr>, r: Seq<Seq<Nd>>)
    requires f.len() > 0, r.len() == f.len(), forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).len() == 0
    ensures joined(f, r) == fr_end(f)
    decreases f.len()
{
    assert(f.last().nodes + r.last() =~= f.last().nodes);
    if f.len() > 1 {
        let n = Nd::Group(f.last().field, f.last().open, f.last().nodes);
        lemma_end(close(f), r.drop_last());
        lemma_shift(f.drop_last(), r.drop_last(), n);
    }
}
pub proof fn lemma_rem(o: Seq<Op>, d: nat) ensures dep_from(o, d) ==> rem(o, d).len() == d + 1 decreases o.len()
{ if o.len() > 0 { lemma_rem(o.skip(1), d); lemma_rem(o.skip(1), d + 1); if d > 0 { lemma_rem(o.skip(1), (d - 1) as nat); } } }
/// no operation leaves a group that is not there, from depth d on
pub open spec fn dep_from(o: Seq<Op>, d: nat) -> bool
    decreases o.len()
{ o.len() == 0 || match o[0] { Op::Open(i, c) => dep_from(o.skip(1), d + 1), Op::Close => d > 0 && dep_from(o.skip(1), (d - 1) as nat), Op::Item(i, a, t) => dep_from(o.skip(1), d) } }
pub proof fn lemma_dep(o: Seq<Op>, k: int)
    requires dep(o) is Some, 0 <= k <= o.len()
    ensures dep(o.take(k)) is Some, dep_from(o.skip(k), dep(o.take(k))->0)
    decreases o.len() - k
{
    if k == o.len() { assert(o.take(k) =~= o); } else {
        lemma_dep(o, k + 1);
        assert(o.take(k + 1).drop_last() =~= o.take(k));
        assert(o.skip(k).skip(1) =~= o.skip(k + 1));
        assert(o.skip(k)[0] == o[k]);
    }
}
pub open spec fn at(o: Seq<Op>, k: int) -> nat { dep(o.take(k))->0 }
pub proof fn lemma_joined(o: Seq<Op>, k: int)
    requires dep(o) is Some, 0 <= k <= o.len()
    ensures fr_ops(o.take(k)).len() == at(o, k) + 1, joined(fr_ops(o.take(k)), rem(o.skip(k), at(o, k))) == fr_end(fr_ops(o))
    decreases o.len() - k
{
    lemma_dep(o, k); lemma_len(o.take(k)); lemma_rem(o.skip(k), at(o, k));
    let f = fr_ops(o.take(k));
    if k == o.len() { assert(o.take(k) =~= o); lemma_end(f, rem(o.skip(k), at(o, k))); } else {
        lemma_joined(o, k + 1); lemma_dep(o, k + 1); lemma_rem(o.skip(k + 1), at(o, k + 1));
        assert(o.take(k + 1).drop_last() =~= o.take(k));
        assert(o.skip(k).skip(1) =~= o.skip(k + 1));
        assert(o.skip(k)[0] == o[k]);
        let g = fr_ops(o.take(k + 1)); let r = rem(o.skip(k + 1), at(o, k + 1)); let q = rem(o.skip(k), at(o, k));
        match o[k] {
            Op::Item(i, a, t) => { lemma_shift(f, r, Nd::Leaf(i)); },
            Op::Open(i, c) => {
                assert(g.drop_last() =~= f);
                assert(g.last().nodes + r.last() =~= r.last());
                assert(joined(g, r) == joined(f, q));
            },
            Op::Close => {
                let n = Nd::Group(f.last().field, f.last().open, f.last().nodes);
                lemma_shift(f.drop_last(), r, n);
                assert(f.last().nodes + q.last() =~= f.last().nodes);
                assert(q.drop_last() =~= r);
            },
        }
    }
}
pub proof fn lemma_len(o: Seq<Op>) requires dep(o) is Some ensures fr_ops(o).len() == dep(o)->0 + 1 decreases o.len()
{ if o.len() > 0 { lemma_len(o.drop_last()); } }
pub proof fn lemma_toks(a: Nd, r: Seq<Nd>, fs: Seq<Field>, v: Seq<Fv>)
    ensures toks(seq![a] + r, fs, v) == toks1(a, fs, v) + toks(r, fs, v)
    decreases r.len()
{
    let s = seq![a] + r;
    if r.len() == 0 { assert(s.drop_last() =~= Seq::empty()); assert(toks(s.drop_last(), fs, v) =~= Seq::empty()); assert(toks(s, fs, v) =~= toks1(a, fs, v) + toks(r, fs, v)); } else {
        lemma_toks(a, r.drop_last(), fs, v);
        assert(s.drop_last() =~= seq![a] + r.drop_last());
        assert(toks(s, fs, v) =~= toks1(a, fs, v) + toks(r, fs, v));
    }
}
pub proof fn lemma_sound(a: Nd, r: Seq<Nd>, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>)
    requires sound(seq![a] + r, fs, v, w) ensures sound1(a, toks(r, fs, v), fs, v, w), sound(r, fs, v, w)
{ assert((seq![a] + r).skip(1) =~= r); }
// ---- reading -----------------------------------------------------------------------------------
pub open spec fn level(s: Os, r: Seq<Seq<Nd>>, j: int, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>) -> bool { 0 <= s.stack[j] < s.bufs.len() && s.bufs[s.stack[j]] == toks(r[j], fs, v) && sound(r[j], fs, v, w) }
/// the buffers hold what is still to be read, and the fields read so far have their values
pub open spec fn on_way(s: Os, r: Seq<Seq<Nd>>, o: Seq<Op>, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>) -> bool {
    &&& s.stack.len() == r.len()
    &&& forall|j: int| 0 <= j < r.len() ==> #[trigger] level(s, r, j, fs, v, w)
    &&& forall|i: int, j: int| 0 <= i < j < s.stack.len() ==> #[trigger] s.stack[i] != #[trigger] s.stack[j]
    &&& forall|b: int| 0 <= b < s.bufs.len() && !s.stack.contains(b) ==> (#[trigger] s.bufs[b]).len() == 0
    &&& forall|i: int| has(o, i) ==> #[trigger] s.vals.dom().contains(i) && s.vals[i] == w[i]
}
#[verifier::spinoff_prover]
pub proof fn lemma_step(x: Op, s: Os, o: Seq<Op>, rest: Seq<Op>, d: nat, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>)
    requires rest.len() > 0, x == rest[0], dep_from(rest, d), fits1(x, fs), on_way(s, rem(rest, d), o, fs, v, w), v.len() == fs.len(), w.len() == fs.len()
    ensures exec1(x, fs, s) is Done,
        on_way(exec1(x, fs, s)->Done_0, rem(rest.skip(1), match x { Op::Open(i, c) => d + 1, Op::Close => (d - 1) as nat, Op::Item(i, a, t) => d }), o.push(x), fs, v, w)
{
    let q = rem(rest, d); let b = s.stack.last();
    lemma_rem(rest, d);
    assert(level(s, q, d as int, fs, v, w));
    assert forall|i: int| #[trigger] has(o.push(x), i) implies has(o, i) || of_field(x, i) by { let k = choose|k: int| 0 <= k < o.push(x).len() && #[trigger] of_field(o.push(x)[k], i); if k < o.len() { assert(of_field(o[k], i)); } }
    match x {
        Op::Item(i, a, t) => {
            let r = rem(rest.skip(1), d); lemma_rem(rest.skip(1), d);
            lemma_toks(Nd::Leaf(i), r[d as int], fs, v); lemma_sound(Nd::Leaf(i), r[d as int], fs, v, w);
            let z = exec1(x, fs, s)->Done_0;
            assert((v[i].toks + toks(r[d as int], fs, v)).skip(v[i].toks.len() as int) =~= toks(r[d as int], fs, v));
            assert forall|j: int| 0 <= j < r.len() implies #[trigger] level(z, r, j, fs, v, w) by { assert(level(s, q, j, fs, v, w)); }
            assert(on_way(z, r, o.push(x), fs, v, w));
        },
        Op::Open(i, c) => {
            let r = rem(rest.skip(1), d + 1); lemma_rem(rest.skip(1), d + 1);
            let n = Nd::Group(i, c, r[d as int + 1]);
            lemma_toks(n, r[d as int], fs, v); lemma_sound(n, r[d as int], fs, v, w);
            assert(s.bufs[b].len() > 0 && s.bufs[b][0] == toks1(n, fs, v)[0]);
            assert((toks1(n, fs, v) + toks(r[d as int], fs, v)).skip(1) =~= toks(r[d as int], fs, v));
            let z = exec1(x, fs, s)->Done_0;
            assert forall|j: int| 0 <= j < r.len() implies #[trigger] level(z, r, j, fs, v, w) by { if j <= d { assert(level(s, q, j, fs, v, w)); } }
            assert forall|k: int| 0 <= k < z.bufs.len() && !z.stack.contains(k) implies (#[trigger] z.bufs[k]).len() == 0 by {
                if k < s.bufs.len() { if s.stack.contains(k) { let j = s.stack.index_of(k); assert(z.stack[j] == k); } } else { assert(z.stack[s.stack.len() as int] == k); }
            }
            assert forall|j: int, k: int| 0 <= j < k < z.stack.len() implies #[trigger] z.stack[j] != #[trigger] z.stack[k] by { if k == s.stack.len() { assert(level(s, q, j, fs, v, w)); } else { assert(s.stack[j] != s.stack[k]); } }
            assert forall|k: int| has(o.push(x), k) implies #[trigger] z.vals.dom().contains(k) && z.vals[k] == w[k] by { if k != i { assert(has(o, k)); assert(s.vals.dom().contains(k)); } }
            assert(z.stack.len() == r.len());
            assert(on_way(z, r, o.push(x), fs, v, w));
        },
        Op::Close => {
            let r = rem(rest.skip(1), (d - 1) as nat); lemma_rem(rest.skip(1), (d - 1) as nat);
            let z = exec1(x, fs, s)->Done_0;
            assert(s.bufs[b].len() == 0);
            assert forall|j: int| 0 <= j < r.len() implies #[trigger] level(z, r, j, fs, v, w) by { assert(level(s, q, j, fs, v, w)); }
            assert forall|k: int| 0 <= k < z.bufs.len() && !z.stack.contains(k) implies (#[trigger] z.bufs[k]).len() == 0 by {
                if s.stack.contains(k) { let j = s.stack.index_of(k); if j < z.stack.len() { assert(z.stack[j] == k); } }
            }
            assert(on_way(z, r, o.push(x), fs, v, w));
        },
    }
}
pub proof fn lemma_read(o: Seq<Op>, k: int, fs: Seq<Field>, v: Seq<Fv>, w: Seq<Tv>)
    requires dep(o) is Some, all_fit(o, fs), sound(fr_end(fr_ops(o)), fs, v, w), v.len() == fs.len(), w.len() == fs.len(), 0 <= k <= o.len()
    ensures ({ let x = exec(o.take(k), fs, toks(fr_end(fr_ops(o)), fs, v)); x is Done && on_way(x->Done_0, rem(o.skip(k), at(o, k)), o.take(k), fs, v, w) })
    decreases k
{
    let t = toks(fr_end(fr_ops(o)), fs, v);
    if k == 0 {
        lemma_joined(o, 0); lemma_dep(o, 0); lemma_rem(o.skip(0), 0);
        assert(o.take(0) =~= Seq::empty());
        let s = exec(o.take(0), fs, t)->Done_0; let r = rem(o.skip(0), 0);
        assert(fr_ops(o.take(0)).last().nodes + r.last() =~= r.last());
        assert(level(s, r, 0, fs, v, w));
        assert(s.stack[0] == 0);
    } else {
        lemma_read(o, k - 1, fs, v, w); lemma_dep(o, k - 1);
        assert(o.take(k).drop_last() =~= o.take(k - 1));
        assert(o.skip(k - 1).skip(1) =~= o.skip(k));
        assert(o.take(k) =~= o.take(k - 1).push(o[k - 1]));
        lemma_dep(o, k);
        lemma_step(o[k - 1], exec(o.take(k - 1), fs, t)->Done_0, o.take(k - 1), o.skip(k - 1), at(o, k - 1), fs, v, w);
    }
}
/// C11: parsing the tokens a value is printed as succeeds, takes all of them, and gives every field its value back
pub proof fn c11_inverts(fs: Seq<Field>, e: bool, v: Seq<Fv>, w: Seq<Tv>)
    requires pa_fields(fs, e) is Some, v.len() == fs.len(), w.len() == fs.len(), sound(c10_tree(fs), fs, v, w)
    ensures ({ let x = c11_reads(fs, c10_tokens(fs, v)); x is Done && (forall|i: int| 0 <= i < fs.len() ==> #[trigger] x->Done_0.vals.dom().contains(i) && x->Done_0.vals[i] == w[i]) && forall|b: int| 0 <= b < x->Done_0.bufs.len() ==> (#[trigger] x->Done_0.bufs[b]).len() == 0 })
{
    let o = op_fields(fs);
    lemma_fields(fs, e, fs);
    lemma_read(o, o.len() as int, fs, v, w); lemma_dep(o, o.len() as int); lemma_rem(o.skip(o.len() as int), at(o, o.len() as int));
    assert(o.take(o.len() as int) =~= o);
    let s = exec(o, fs, c10_tokens(fs, v))->Done_0; let r = rem(o.skip(o.len() as int), at(o, o.len() as int));
    assert forall|i: int| 0 <= i < fs.len() implies #[trigger] s.vals.dom().contains(i) && s.vals[i] == w[i] by { assert(has(o, i)); }
    assert forall|b: int| 0 <= b < s.bufs.len() implies (#[trigger] s.bufs[b]).len() == 0 by { if s.stack.contains(b) { let j = s.stack.index_of(b); assert(level(s, r, j, fs, v, w)); assert(r[j].len() == 0); } }
}
}
