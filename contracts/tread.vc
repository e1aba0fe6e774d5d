@//  C11, C12: what the code quoted by derive(Parse) reads, for every definition and every token stream.
@file structmeta-derive/src/parse.rs
@quote r_md ::structmeta::helpers_parse_macro_delimiter
@quote r_bracket ::structmeta::helpers::exports::syn::#0
@quote r_open let #0; let #1 = #2!(#0 in #3); let #1 : #4 = #1; let #0 = &#0;
@quote r_parse ::structmeta::helpers::exports::syn::parse::Parse::parse(#0)
@quote r_any <#0>::parse_any(#1)
@quote r_term <#0>::parse_terminated(#1)
@quote r_term_any <#0>::parse_terminated_with(#1, ::structmeta::helpers::exports::syn::ext::IdentExt::parse_any)
@quote r_item let #0 = #1?;
@quote r_bind #0 : #1
@quote r_record {#(#0,)*}
@quote r_tuple (#(#0,)*)
@quote r_body use syn::ext::*; #0 Ok(#1 #2)
@quote r_self Self
@quote r_variant Self::#0
@quote r_peek_any #0::peek_any
@quote r_pred input.#0(#1)
@quote r_use use syn::ext::*;
@quote r_def #[allow(non_snake_case)] let #0 = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> { #1 };
@quote r_direct #0(input)
@quote r_fork let fork = input.fork(); if let Ok(value) = #0(&fork) { ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork); return Ok(value); }
@quote r_if if #(#0)&&* { return #1(&input); }
@quote r_err Err(input.error("parse failed."))
@quote r_fn fn parse(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<Self> { #0 }
@quote r_tr ::structmeta::helpers::exports::syn::parse::Parse
@include impltr.vc
@include names.vc
@file structmeta-derive/src/parse.rs
@text
pub mod rd {
use super::*;
pub ghost enum Ran<S> { /// not code that compiles
    Stuck, Fail, Done(S) }
// ---- what has to be read -----------------------------------------------------------------------
/// what a field parser makes of the tokens (mode 0: Parse::parse, 1: parse_any, 2: parse_terminated, 3: both), and how many it takes
pub ghost enum Tv { V(Val), D(Dl, int) }
pub uninterp spec fn reads(ty: Type, mode: int, t: Seq<Tt>) -> Option<(Tv, nat)>;
/// whether `input.peek(T)` (`peek2`, `peek3`: n = 1, 2) or `input.peek(T::peek_any)` holds
pub uninterp spec fn sees(ty: Type, any: bool, n: int, t: Seq<Tt>) -> bool;
pub open spec fn mode(any: bool, term: bool) -> int { (if any { 1int } else { 0 }) + (if term { 2int } else { 0 }) }
pub open spec fn dl_of(c: char) -> Dl { if c == '(' { Dl::Paren } else if c == '[' { Dl::Bracket } else { Dl::Brace } }
pub open spec fn group(md: bool, d: Dl, t: Seq<Tt>) -> Option<(Tv, Seq<Tt>)> {
    if t.len() > 0 { match t[0] { Tt::Group(e, inner, sp) => if md || d == e { Some((Tv::D(e, sp), inner)) } else { None }, _ => None } } else { None }
}
/// a field opens a group; the innermost group is left; a field is parsed
pub ghost enum Op { Open(int, char), Close, Item(int, bool, bool) }
/// the buffers opened so far and what is left in them; those of the groups still open; the values of the fields
pub ghost struct Os { pub bufs: Seq<Seq<Tt>>, pub stack: Seq<int>, pub vals: Map<int, Tv> }
pub open spec fn exec1(o: Op, fs: Seq<Field>, s: Os) -> Ran<Os> {
    let b = s.stack.last();
    match o {
        Op::Close => Ran::Done(Os { stack: s.stack.drop_last(), ..s }),
        Op::Open(i, c) => match group(is_delim_t(fs[i].ty), dl_of(c), s.bufs[b]) {
            Some((v, inner)) => Ran::Done(Os { bufs: s.bufs.update(b, s.bufs[b].skip(1)).push(inner), stack: s.stack.push(s.bufs.len() as int), vals: s.vals.insert(i, v) }),
            None => Ran::Fail,
        },
        Op::Item(i, any, term) => match reads(fs[i].ty, mode(any, term), s.bufs[b]) {
            Some((v, n)) => Ran::Done(Os { bufs: s.bufs.update(b, s.bufs[b].skip(n as int)), vals: s.vals.insert(i, v), ..s }),
            None => Ran::Fail,
        },
    }
}
pub open spec fn exec(o: Seq<Op>, fs: Seq<Field>, t: Seq<Tt>) -> Ran<Os>
    decreases o.len()
{ if o.len() == 0 { Ran::Done(Os { bufs: seq![t], stack: seq![0int], vals: Map::empty() }) } else { match exec(o.drop_last(), fs, t) { Ran::Done(s) => exec1(o.last(), fs, s), x => x } } }
/// what the parse attributes of a field ask for
pub ghost struct Fl { pub any: bool, pub term: bool, pub peek: bool }
pub open spec fn fl_attr(p: Fl, a: Attribute) -> Fl { if path_is(a.p(), "parse"@) && pa_attr(a) is Some { let x = pa_attr(a)->0; Fl { any: p.any || x.any, term: p.term || x.terminated, peek: p.peek || x.peek } } else { p } }
pub open spec fn fl_attrs(a: Seq<Attribute>) -> Fl
    decreases a.len()
{ if a.len() == 0 { Fl { any: false, term: false, peek: false } } else { fl_attr(fl_attrs(a.drop_last()), a.last()) } }
/// the operations of a definition
pub ghost struct Ow { pub ops: Seq<Op>, pub opened: bool }
pub open spec fn ow0(o: Seq<Op>) -> Ow { Ow { ops: o, opened: false } }
pub open spec fn op_char(p: Ow, i: int, c: char) -> Ow { if close_of(c) is Some { Ow { ops: p.ops.push(Op::Open(i, c)), opened: true } } else { Ow { ops: p.ops.push(Op::Close), ..p } } }
pub open spec fn op_chars(p: Ow, i: int, s: Seq<char>) -> Ow
    decreases s.len()
{ if s.len() == 0 { p } else { op_char(op_chars(p, i, s.drop_last()), i, s.last()) } }
pub open spec fn op_strings(p: Ow, i: int, l: Seq<Val>) -> Ow
    decreases l.len()
{ if l.len() == 0 { p } else { op_chars(op_strings(p, i, l.drop_last()), i, lit_str(l.last())) } }
pub open spec fn op_attr(p: Ow, i: int, a: Attribute) -> Ow { if path_is(a.p(), "to_tokens"@) && tt_attr(a) is Some { op_strings(p, i, tt_attr(a)->0.strings) } else { p } }
pub open spec fn op_attrs(p: Ow, i: int, a: Seq<Attribute>) -> Ow
    decreases a.len()
{ if a.len() == 0 { p } else { op_attr(op_attrs(p, i, a.drop_last()), i, a.last()) } }
pub open spec fn op_field(o: Seq<Op>, i: int, f: Field) -> Seq<Op> { let p = op_attrs(ow0(o), i, f.attrs@); if p.opened { p.ops } else { p.ops.push(Op::Item(i, fl_attrs(f.attrs@).any, fl_attrs(f.attrs@).term)) } }
pub open spec fn op_fields(fs: Seq<Field>) -> Seq<Op>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { op_field(op_fields(fs.drop_last()), fs.len() - 1, fs.last()) } }
/// the peeked fields of a variant
pub open spec fn pk_field(f: Field) -> Option<(Type, bool)> { let p = fl_attrs(f.attrs@); if p.peek { Some((f.ty, p.any)) } else { None } }
pub open spec fn pk_fields(fs: Seq<Field>) -> Seq<(Type, bool)>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { match pk_field(fs.last()) { Some(x) => pk_fields(fs.drop_last()).push(x), None => pk_fields(fs.drop_last()) } } }
/// what reading the fields of a struct or variant gives
pub open spec fn c11_reads(fs: Seq<Field>, t: Seq<Tt>) -> Ran<Os> { exec(op_fields(fs), fs, t) }
/// the first up to three token trees match the peeked fields
pub open spec fn entered(fs: Seq<Field>, t: Seq<Tt>) -> bool { forall|j: int| 0 <= j < pk_fields(fs).len() ==> sees((#[trigger] pk_fields(fs)[j]).0, pk_fields(fs)[j].1, j, t) }
/// the variant that decides
pub open spec fn c12_pick(v: Seq<Variant>, t: Seq<Tt>) -> Option<int>
    decreases v.len()
{
    if v.len() == 0 { None } else if c12_pick(v.drop_last(), t) is Some { c12_pick(v.drop_last(), t) }
    else if if pk_fields(v.last().fields@).len() > 0 { entered(v.last().fields@, t) } else { c11_reads(v.last().fields@, t) is Done } { Some(v.len() - 1) } else { None }
}

// ---- what quoted code does ---------------------------------------------------------------------
pub open spec fn id_of(c: Seq<Cd>) -> Option<Seq<char>> { if c.len() == 1 { match c[0] { Cd::Id(x) => Some(x), _ => None } } else { None } }
pub open spec fn ty_of(c: Seq<Cd>) -> Option<Type> { if c.len() == 1 { match c[0] { Cd::Ty(x) => Some(x), _ => None } } else { None } }
pub open spec fn node_of(c: Seq<Cd>, t: int, n: nat) -> Option<Seq<Seq<Cd>>> { if c.len() == 1 { match c[0] { Cd::N(u, a) => if u == t && a.len() == n { Some(a) } else { None }, _ => None } } else { None } }
pub open spec fn list_of(c: Seq<Cd>) -> Option<Seq<Seq<Cd>>> { if c.len() == 1 { match c[0] { Cd::R(l) => Some(l), _ => None } } else { None } }
/// variables hold buffers or values
pub ghost enum Vv { Buf(int), Val(Tv) }
pub ghost struct Cs { pub bufs: Seq<Seq<Tt>>, pub env: Map<Seq<char>, Vv> }
pub open spec fn buf_at(s: Cs, c: Seq<Cd>) -> Option<int> { match id_of(c) { Some(x) => if s.env.dom().contains(x) { match s.env[x] { Vv::Buf(b) => Some(b), _ => None } } else { None }, None => None } }
/// which groups the macro takes: any, or one kind
pub open spec fn takes(c: Seq<Cd>) -> Option<(bool, Dl)> {
    if node_of(c, r_md(), 0) is Some { Some((true, Dl::Paren)) } else {
        match node_of(c, r_bracket(), 1) { Some(a) => match id_of(a[0]) { Some(x) => if x == "parenthesized"@ { Some((false, Dl::Paren)) } else if x == "bracketed"@ { Some((false, Dl::Bracket)) } else if x == "braced"@ { Some((false, Dl::Brace)) } else { None }, None => None }, None => None }
    }
}
/// the parser an expression calls (its type when written out), and the buffer
pub open spec fn parser(c: Seq<Cd>) -> Option<(int, Option<Type>, Seq<Cd>)> {
    if node_of(c, r_parse(), 1) is Some { Some((0, None, node_of(c, r_parse(), 1)->0[0])) }
    else if node_of(c, r_any(), 2) is Some { let a = node_of(c, r_any(), 2)->0; match ty_of(a[0]) { Some(ty) => Some((1, Some(ty), a[1])), None => None } }
    else if node_of(c, r_term(), 2) is Some { let a = node_of(c, r_term(), 2)->0; match ty_of(a[0]) { Some(ty) => Some((2, Some(ty), a[1])), None => None } }
    else if node_of(c, r_term_any(), 2) is Some { let a = node_of(c, r_term_any(), 2)->0; match ty_of(a[0]) { Some(ty) => Some((3, Some(ty), a[1])), None => None } }
    else { None }
}
/// one statement; ty: the types rustc infers for the variables, from the fields they are stored in
pub open spec fn run1(c: Cd, ty: spec_fn(Seq<char>) -> Type, s: Cs) -> Ran<Cs> {
    match c {
        Cd::N(t, a) =>
            if t == r_open() && a.len() == 5 {
                match (id_of(a[0]), id_of(a[1]), takes(a[2]), buf_at(s, a[3])) {
                    (Some(x), Some(v), Some(k), Some(b)) => if a[0] == a[3] || x == v { Ran::Stuck } else {
                        match group(k.0, k.1, s.bufs[b]) { Some((val, inner)) => Ran::Done(Cs { bufs: s.bufs.update(b, s.bufs[b].skip(1)).push(inner), env: s.env.insert(v, Vv::Val(val)).insert(x, Vv::Buf(s.bufs.len() as int)) }), None => Ran::Fail }
                    },
                    _ => Ran::Stuck,
                }
            } else if t == r_item() && a.len() == 2 {
                match (id_of(a[0]), parser(a[1])) {
                    (Some(v), Some(p)) => match buf_at(s, p.2) {
                        Some(b) => match reads(if p.1 is Some { p.1->0 } else { ty(v) }, p.0, s.bufs[b]) { Some((val, n)) => Ran::Done(Cs { bufs: s.bufs.update(b, s.bufs[b].skip(n as int)), env: s.env.insert(v, Vv::Val(val)) }), None => Ran::Fail },
                        None => Ran::Stuck,
                    },
                    _ => Ran::Stuck,
                }
            } else { Ran::Stuck },
        _ => Ran::Stuck,
    }
}
pub open spec fn run(c: Seq<Cd>, ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>) -> Ran<Cs>
    decreases c.len()
{ if c.len() == 0 { Ran::Done(Cs { bufs: seq![t], env: Map::empty().insert("input"@, Vv::Buf(0)) }) } else { match run(c.drop_last(), ty, t) { Ran::Done(s) => run1(c.last(), ty, s), x => x } } }
/// the variable that field i is initialised with
pub open spec fn puts1(c: Seq<Cd>, f: Field, x: Seq<char>) -> bool { match node_of(c, r_bind(), 2) { Some(b) => f.ident is Some && id_of(b[0]) == Some(f.ident->0.text()) && id_of(b[1]) == Some(x), None => false } }
pub open spec fn puts(init: Seq<Cd>, fs: Fields, i: int, x: Seq<char>) -> bool {
    0 <= i < fs@.len() && match fs {
        Fields::Unit => false,
        Fields::Unnamed(_) => node_of(init, r_tuple(), 1) is Some && list_of(node_of(init, r_tuple(), 1)->0[0]) is Some && ({ let l = list_of(node_of(init, r_tuple(), 1)->0[0])->0; l.len() == fs@.len() && id_of(l[i]) == Some(x) }),
        Fields::Named(_) => node_of(init, r_record(), 1) is Some && list_of(node_of(init, r_record(), 1)->0[0]) is Some && ({ let l = list_of(node_of(init, r_record(), 1)->0[0])->0; l.len() == fs@.len() && exists|k: int| 0 <= k < l.len() && #[trigger] puts1(l[k], fs@[i], x) }),
    }
}
/// rustc's inference: a variable has the type of the field it is stored in
pub open spec fn fits(ty: spec_fn(Seq<char>) -> Type, init: Seq<Cd>, fs: Fields) -> bool { forall|i: int, x: Seq<char>| #[trigger] puts(init, fs, i, x) ==> ty(x) == fs@[i].ty }
/// same outcome, same tokens left in every buffer, and every field initialised with its own value
pub open spec fn agree(c: Ran<Cs>, o: Ran<Os>, init: Seq<Cd>, fs: Fields) -> bool {
    match (c, o) {
        (Ran::Fail, Ran::Fail) => true,
        (Ran::Done(c), Ran::Done(o)) => c.bufs == o.bufs && forall|i: int, x: Seq<char>| #[trigger] puts(init, fs, i, x) ==> o.vals.dom().contains(i) && c.env.dom().contains(x) && c.env[x] == Vv::Val(o.vals[i]),
        _ => false,
    }
}
pub open spec fn put(init: Seq<Cd>, fs: Fields, i: int) -> bool { exists|x: Seq<char>| #[trigger] puts(init, fs, i, x) }
/// code is the body of a parser for the struct or variant `path` with these fields
pub open spec fn c11_code(code: Seq<Cd>, path: Seq<Cd>, fs: Fields) -> bool {
    match node_of(code, r_body(), 3) {
        Some(a) => a[1] == path && (forall|i: int| 0 <= i < fs@.len() ==> #[trigger] put(a[2], fs, i))
            && forall|ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>| fits(ty, a[2], fs) ==> agree(#[trigger] run(a[0], ty, t), c11_reads(fs@, t), a[2], fs),
        None => false,
    }
}

// ---- what the generator builds -----------------------------------------------------------------
pub open spec fn in_name(i: int, d: int) -> Seq<char> { "input_"@ + (i as usize).disp() + seq!['_'] + (d as usize).disp() }
/// the name of the buffer of the group at depth d
pub open spec fn name_at(x: Seq<char>, d: int) -> bool { if d == 0 { x == "input"@ } else { exists|i: int| 0 <= i <= usize::MAX && x == #[trigger] in_name(i, d) } }
pub proof fn lemma_in_names(i: int, d: int, j: int, e: int)
    requires 0 <= i <= usize::MAX, 0 <= j <= usize::MAX, 0 <= d <= usize::MAX, 0 <= e <= usize::MAX, in_name(i, d) == in_name(j, e)
    ensures d == e
{
    broadcast use disp_inj, disp_digits;
    let p = "input_"@;
    let (a, b) = ((i as usize).disp(), (j as usize).disp());
    let (x, y) = (in_name(i, d), in_name(j, e));
    assert(x[p.len() + a.len() as int] == '_'); assert(y[p.len() + b.len() as int] == '_');
    if a.len() < b.len() { assert(y[p.len() + a.len() as int] == b[a.len() as int]); }
    if b.len() < a.len() { assert(x[p.len() + b.len() as int] == a[b.len() as int]); }
    assert(x.skip(p.len() as int + a.len() as int + 1) =~= (d as usize).disp());
    assert(y.skip(p.len() as int + b.len() as int + 1) =~= (e as usize).disp());
}
pub proof fn lemma_names(x: Seq<char>, d: int, y: Seq<char>, e: int)
    requires name_at(x, d), name_at(y, e), 0 <= d <= usize::MAX, 0 <= e <= usize::MAX, d != e
    ensures x != y
{
    reveal_strlit("input"); reveal_strlit("input_");
    let i = choose|i: int| 0 <= i <= usize::MAX && x == #[trigger] in_name(i, d);
    let j = choose|j: int| 0 <= j <= usize::MAX && y == #[trigger] in_name(j, e);
    if d == 0 { assert(x.len() == 5); assert(y == in_name(j, e)); assert(y.len() > 5); }
    else if e == 0 { assert(y.len() == 5); assert(x == in_name(i, d)); assert(x.len() > 5); }
    else if x == y { lemma_in_names(i, d, j, e); }
}
/// buffers are not called like fields' variables
pub proof fn lemma_name_var(x: Seq<char>, d: int, f: Field, i: int) requires name_at(x, d) ensures x != var_of(f, i)
{
    reveal_strlit("input"); reveal_strlit("input_");
    assert(var_of(f, i)[0] == '_');
    if d > 0 { let j = choose|j: int| 0 <= j <= usize::MAX && x == #[trigger] in_name(j, d); assert(x[0] == 'i'); } else { assert(x[0] == 'i'); }
}
pub open spec fn has_buf(c: Cs, x: Seq<char>, b: int) -> bool { c.env.dom().contains(x) && c.env[x] == Vv::Buf(b) }
pub open spec fn has_val(c: Cs, o: Os, fs: Seq<Field>, i: int) -> bool { o.vals.dom().contains(i) && c.env.dom().contains(var_of(fs[i], i)) && c.env[var_of(fs[i], i)] == Vv::Val(o.vals[i]) }
pub open spec fn sim(c: Ran<Cs>, o: Ran<Os>, names: Seq<Seq<char>>, fs: Seq<Field>, k: int) -> bool {
    match (c, o) {
        (Ran::Fail, Ran::Fail) => true,
        (Ran::Done(c), Ran::Done(o)) => c.bufs == o.bufs && o.stack.len() == names.len() && (forall|j: int| 0 <= j < names.len() ==> has_buf(c, #[trigger] names[j], o.stack[j])) && (forall|i: int| 0 <= i < k ==> #[trigger] has_val(c, o, fs, i)),
        _ => false,
    }
}
pub open spec fn tyok(ty: spec_fn(Seq<char>) -> Type, fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> ty(#[trigger] var_of(fs[i], i)) == fs[i].ty }
/// the code so far does what the definition asks for so far; k: fields that have their value
pub open spec fn c11_sim(code: Seq<Cd>, ops: Seq<Op>, names: Seq<Seq<char>>, fs: Fields, k: int) -> bool {
    &&& forall|j: int| 0 <= j < names.len() ==> name_at(#[trigger] names[j], j)
    &&& syn_fields(fs) ==> forall|ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>| tyok(ty, fs@) ==> sim(#[trigger] run(code, ty, t), exec(ops, fs@, t), names, fs@, k)
}
pub open spec fn grown(a: Seq<Cd>, b: Seq<Cd>) -> bool { b.len() == a.len() + 1 && forall|j: int| 0 <= j < a.len() ==> a[j] == b[j] }
pub open spec fn opens_it(c: Cd, x: Seq<char>, old: Seq<char>, f: Field, i: int, ch: char) -> bool {
    match c { Cd::N(t, a) => t == r_open() && a.len() == 5 && id_of(a[0]) == Some(x) && id_of(a[1]) == Some(var_of(f, i)) && id_of(a[3]) == Some(old)
        && takes(a[2]) is Some && (takes(a[2])->0).0 == is_delim_t(f.ty) && (!is_delim_t(f.ty) ==> (takes(a[2])->0).1 == dl_of(ch)), _ => false }
}
pub open spec fn item_cd(c: Cd, old: Seq<char>, f: Field, i: int, any: bool, term: bool) -> bool {
    match c { Cd::N(t, a) => t == r_item() && a.len() == 2 && id_of(a[0]) == Some(var_of(f, i)) && match parser(a[1]) { Some(p) => p.0 == mode(any, term) && (p.1 is Some ==> p.1->0 == f.ty) && id_of(p.2) == Some(old), None => false }, _ => false }
}
pub proof fn c11_start(fs: Fields, names: Seq<Seq<char>>, code: Seq<Cd>) requires names.len() == 1, names[0] == "input"@, code.len() == 0 ensures c11_sim(code, Seq::empty(), names, fs, 0)
{ }
pub proof fn c11_open(code: Seq<Cd>, more: Seq<Cd>, ops: Seq<Op>, names: Seq<Seq<char>>, fs: Fields, k: int, i: int, c: char, x: Seq<char>)
    requires c11_sim(code, ops, names, fs, k), 0 < names.len() < usize::MAX, 0 <= i < fs@.len() <= usize::MAX, k == i || k == i + 1, name_at(x, names.len() as int), grown(code, more), opens_it(more.last(), x, names.last(), fs@[i], i, c)
    ensures c11_sim(more, ops.push(Op::Open(i, c)), names.push(x), fs, i + 1)
{
    assert(more.drop_last() =~= code);
    let o2 = ops.push(Op::Open(i, c));
    assert(o2.drop_last() =~= ops);
    let v = var_of(fs@[i], i);
    lemma_name_var(x, names.len() as int, fs@[i], i);
    lemma_names(x, names.len() as int, names.last(), names.len() - 1);
    if syn_fields(fs) {
        assert forall|ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>| tyok(ty, fs@) implies sim(#[trigger] run(more, ty, t), exec(o2, fs@, t), names.push(x), fs@, i + 1) by {
            let (r1, e1) = (run(code, ty, t), exec(ops, fs@, t));
            assert(sim(r1, e1, names, fs@, k));
            if r1 is Done {
                let (s, o) = (r1->Done_0, e1->Done_0);
                assert(has_buf(s, names[names.len() - 1], o.stack[names.len() - 1]));
                let (r2, e2) = (run(more, ty, t), exec(o2, fs@, t));
                assert(r2 is Done == e2 is Done);
                if r2 is Done {
                    let (s2, q) = (r2->Done_0, e2->Done_0);
                    assert forall|j: int| 0 <= j < names.push(x).len() implies has_buf(s2, #[trigger] names.push(x)[j], q.stack[j]) by {
                        if j < names.len() { lemma_names(x, names.len() as int, names[j], j); lemma_name_var(names[j], j, fs@[i], i); assert(has_buf(s, names[j], o.stack[j])); }
                    }
                    assert forall|h: int| 0 <= h < i + 1 implies #[trigger] has_val(s2, q, fs@, h) by {
                        lemma_name_var(x, names.len() as int, fs@[h], h);
                        if h < i { assert(has_val(s, o, fs@, h)); if var_of(fs@[h], h) == v { lemma_vars_differ(fs, h, i); } }
                    }
                }
            }
        }
    }
}
pub proof fn c11_close(code: Seq<Cd>, ops: Seq<Op>, names: Seq<Seq<char>>, fs: Fields, k: int)
    requires c11_sim(code, ops, names, fs, k), names.len() > 0
    ensures c11_sim(code, ops.push(Op::Close), names.drop_last(), fs, k)
{
    let o2 = ops.push(Op::Close);
    assert(o2.drop_last() =~= ops);
    if syn_fields(fs) {
        assert forall|ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>| tyok(ty, fs@) implies sim(#[trigger] run(code, ty, t), exec(o2, fs@, t), names.drop_last(), fs@, k) by {
            let (r1, e1) = (run(code, ty, t), exec(ops, fs@, t));
            assert(sim(r1, e1, names, fs@, k));
            if r1 is Done {
                let (s, o) = (r1->Done_0, e1->Done_0);
                let q = exec(o2, fs@, t)->Done_0;
                assert forall|j: int| 0 <= j < names.drop_last().len() implies has_buf(s, #[trigger] names.drop_last()[j], q.stack[j]) by { assert(has_buf(s, names[j], o.stack[j])); }
                assert forall|h: int| 0 <= h < k implies #[trigger] has_val(s, q, fs@, h) by { assert(has_val(s, o, fs@, h)); }
            }
        }
    }
}
pub proof fn c11_item(code: Seq<Cd>, more: Seq<Cd>, ops: Seq<Op>, names: Seq<Seq<char>>, fs: Fields, i: int, any: bool, term: bool)
    requires c11_sim(code, ops, names, fs, i), 0 < names.len() <= usize::MAX, 0 <= i < fs@.len() <= usize::MAX, grown(code, more), item_cd(more.last(), names.last(), fs@[i], i, any, term)
    ensures c11_sim(more, ops.push(Op::Item(i, any, term)), names, fs, i + 1)
{
    assert(more.drop_last() =~= code);
    let o2 = ops.push(Op::Item(i, any, term));
    assert(o2.drop_last() =~= ops);
    let v = var_of(fs@[i], i);
    if syn_fields(fs) {
        assert forall|ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>| tyok(ty, fs@) implies sim(#[trigger] run(more, ty, t), exec(o2, fs@, t), names, fs@, i + 1) by {
            let (r1, e1) = (run(code, ty, t), exec(ops, fs@, t));
            assert(sim(r1, e1, names, fs@, i));
            if r1 is Done {
                let (s, o) = (r1->Done_0, e1->Done_0);
                assert(has_buf(s, names[names.len() - 1], o.stack[names.len() - 1]));
                assert(ty(v) == fs@[i].ty);
                let (r2, e2) = (run(more, ty, t), exec(o2, fs@, t));
                assert(r2 is Done == e2 is Done);
                if r2 is Done {
                    let (s2, q) = (r2->Done_0, e2->Done_0);
                    assert forall|j: int| 0 <= j < names.len() implies has_buf(s2, #[trigger] names[j], q.stack[j]) by { lemma_name_var(names[j], j, fs@[i], i); assert(has_buf(s, names[j], o.stack[j])); }
                    assert forall|h: int| 0 <= h < i + 1 implies #[trigger] has_val(s2, q, fs@, h) by { if h < i { assert(has_val(s, o, fs@, h)); if var_of(fs@[h], h) == v { lemma_vars_differ(fs, h, i); } } }
                }
            }
        }
    }
}
/// `Self { .. }`, `Self(..)`, `Self`
pub open spec fn init1(f: Field, i: int) -> Seq<Cd> { match f.ident { Some(x) => seq![Cd::N(r_bind(), seq![seq![Cd::Id(x.text())], seq![Cd::Id(var_of(f, i))]])], None => seq![Cd::Id(var_of(f, i))] } }
pub open spec fn inits(fs: Seq<Field>) -> Seq<Seq<Cd>> { Seq::new(fs.len(), |i: int| init1(fs[i], i)) }
pub open spec fn init_cd(fs: Fields) -> Seq<Cd> { match fs { Fields::Unit => Seq::empty(), Fields::Unnamed(_) => seq![Cd::N(r_tuple(), seq![seq![Cd::R(inits(fs@))]])], Fields::Named(_) => seq![Cd::N(r_record(), seq![seq![Cd::R(inits(fs@))]])] } }
pub proof fn lemma_puts(fs: Fields, i: int, x: Seq<char>) requires syn_fields(fs), puts(init_cd(fs), fs, i, x) ensures x == var_of(fs@[i], i)
{
    if fs is Named {
        let l = inits(fs@);
        let k = choose|k: int| 0 <= k < l.len() && #[trigger] puts1(l[k], fs@[i], x);
        assert(fs@[k].ident->0.text() == fs@[i].ident->0.text());
        if k < i { assert(unrawed(fs@[k].ident->0.text()) != unrawed(fs@[i].ident->0.text())); }
        if i < k { assert(unrawed(fs@[i].ident->0.text()) != unrawed(fs@[k].ident->0.text())); }
    }
}
pub proof fn lemma_put(fs: Fields, i: int) requires syn_fields(fs), 0 <= i < fs@.len() ensures puts(init_cd(fs), fs, i, var_of(fs@[i], i)), put(init_cd(fs), fs, i)
{
    let l = inits(fs@);
    assert(l.len() == fs@.len() && l[i] == init1(fs@[i], i));
    if fs is Named { assert(fs@[i].ident is Some); assert(puts1(l[i], fs@[i], var_of(fs@[i], i))); assert(list_of(node_of(init_cd(fs), r_record(), 1)->0[0]) == Some(l)); }
    else if fs is Unnamed { assert(fs@[i].ident is None); assert(list_of(node_of(init_cd(fs), r_tuple(), 1)->0[0]) == Some(l)); }
   
    assert(puts(init_cd(fs), fs, i, var_of(fs@[i], i)));
}
pub proof fn c11_done(code: Seq<Cd>, path: Seq<Cd>, names: Seq<Seq<char>>, fs: Fields)
    requires syn_fields(fs), c11_sim(code, op_fields(fs@), names, fs, fs@.len() as int)
    ensures c11_code(seq![Cd::N(r_body(), seq![code, path, init_cd(fs)])], path, fs)
{
    let init = init_cd(fs);
    assert forall|i: int| 0 <= i < fs@.len() implies #[trigger] put(init, fs, i) by { lemma_put(fs, i); }
    assert forall|ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>| fits(ty, init, fs) implies agree(#[trigger] run(code, ty, t), c11_reads(fs@, t), init, fs) by {
        assert forall|i: int| 0 <= i < fs@.len() implies ty(#[trigger] var_of(fs@[i], i)) == fs@[i].ty by { lemma_put(fs, i); }
        assert(tyok(ty, fs@));
        let (r1, e1) = (run(code, ty, t), c11_reads(fs@, t));
        assert(sim(r1, e1, names, fs@, fs@.len() as int));
        if r1 is Done {
            assert forall|i: int, x: Seq<char>| #[trigger] puts(init, fs, i, x) implies e1->Done_0.vals.dom().contains(i) && r1->Done_0.env.dom().contains(x) && r1->Done_0.env[x] == Vv::Val(e1->Done_0.vals[i]) by { lemma_puts(fs, i, x); assert(has_val(r1->Done_0, e1->Done_0, fs@, i)); }
        }
    }
}

// ---- enums ---------------------------------------------------------------------------------------
/// the variant that gives the result
pub open spec fn c12_out(v: Seq<Variant>, t: Seq<Tt>) -> Option<int> { match c12_pick(v, t) { Some(k) => if c11_reads(v[k].fields@, t) is Done { Some(k) } else { None }, None => None } }
/// what a variant's closure does with the tokens at hand
pub open spec fn call(b: Seq<Cd>, ty: spec_fn(Seq<char>) -> Type, t: Seq<Tt>) -> Ran<Cs> { match node_of(b, r_body(), 3) { Some(a) => run(a[0], ty, t), None => Ran::Stuck } }
/// statements so far: closures in scope (with the statement that defines each); the function returns what a closure makes of the input; it returns an error
pub ghost enum Ec { Go(Map<Seq<char>, (int, Seq<Cd>)>), Ret(int, Seq<Cd>), Fail, Stuck }
pub open spec fn closure(m: Map<Seq<char>, (int, Seq<Cd>)>, c: Seq<Cd>) -> Option<(int, Seq<Cd>)> { match id_of(c) { Some(f) => if m.dom().contains(f) { Some(m[f]) } else { None }, None => None } }
pub open spec fn nth_peek(x: Seq<char>) -> Option<int> { if x == "peek"@ { Some(0) } else if x == "peek2"@ { Some(1) } else if x == "peek3"@ { Some(2) } else { None } }
/// (which token tree, type, peek_any)
pub open spec fn pred_of(c: Seq<Cd>) -> Option<(int, Type, bool)> {
    match node_of(c, r_pred(), 2) {
        Some(a) => match (id_of(a[0]), ty_of(a[1]), node_of(a[1], r_peek_any(), 1)) {
            (Some(x), Some(ty), _) => match nth_peek(x) { Some(n) => Some((n, ty, false)), None => None },
            (Some(x), None, Some(b)) => match (nth_peek(x), ty_of(b[0])) { (Some(n), Some(ty)) => Some((n, ty, true)), _ => None },
            _ => None,
        },
        None => None,
    }
}
pub open spec fn holds1(c: Seq<Cd>, t: Seq<Tt>) -> bool { sees((pred_of(c)->0).1, (pred_of(c)->0).2, (pred_of(c)->0).0, t) }
pub open spec fn preds_ok(l: Seq<Seq<Cd>>) -> bool { l.len() > 0 && forall|j: int| 0 <= j < l.len() ==> pred_of(#[trigger] l[j]) is Some }
pub open spec fn holds(l: Seq<Seq<Cd>>, t: Seq<Tt>) -> bool { forall|j: int| 0 <= j < l.len() ==> holds1(#[trigger] l[j], t) }
pub open spec fn erun1(c: Cd, j: int, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>, m: Map<Seq<char>, (int, Seq<Cd>)>) -> Ec {
    match c {
        Cd::N(g, a) =>
            if g == r_use() && a.len() == 0 { Ec::Go(m) }
            else if g == r_def() && a.len() == 2 && id_of(a[0]) is Some { Ec::Go(m.insert(id_of(a[0])->0, (j, a[1]))) }
            else if g == r_direct() && a.len() == 1 && closure(m, a[0]) is Some { Ec::Ret((closure(m, a[0])->0).0, (closure(m, a[0])->0).1) }
            else if g == r_fork() && a.len() == 1 && closure(m, a[0]) is Some {
                let f = closure(m, a[0])->0;
                match call(f.1, tys(f.0), t) { Ran::Stuck => Ec::Stuck, Ran::Fail => Ec::Go(m), Ran::Done(_) => Ec::Ret(f.0, f.1) }
            }
            else if g == r_if() && a.len() == 2 && list_of(a[0]) is Some && preds_ok(list_of(a[0])->0) && closure(m, a[1]) is Some {
                if holds(list_of(a[0])->0, t) { Ec::Ret((closure(m, a[1])->0).0, (closure(m, a[1])->0).1) } else { Ec::Go(m) }
            }
            else if g == r_err() && a.len() == 0 { Ec::Fail } else { Ec::Stuck },
        _ => Ec::Stuck,
    }
}
/// tys: the types rustc infers in the closure that a statement defines
pub open spec fn erun(c: Seq<Cd>, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>) -> Ec
    decreases c.len()
{ if c.len() == 0 { Ec::Go(Map::empty()) } else { match erun(c.drop_last(), tys, t) { Ec::Go(m) => erun1(c.last(), c.len() - 1, tys, t, m), x => x } } }
/// an expression without `;` ends a function
pub open spec fn ends(c: Cd) -> bool { match c { Cd::N(g, _) => g == r_direct() || g == r_err(), _ => false } }
pub open spec fn vpath(v: Variant) -> Seq<Cd> { seq![Cd::N(r_variant(), seq![seq![Cd::Id(v.ident.text())]])] }
/// the body of the closure, and its path and initialiser
pub open spec fn def_of(c: Cd) -> Option<Seq<Cd>> { match c { Cd::N(g, a) => if g == r_def() && a.len() == 2 { Some(a[1]) } else { None }, _ => None } }
pub open spec fn is_for(c: Cd, v: Variant) -> bool { def_of(c) is Some && node_of(def_of(c)->0, r_body(), 3) is Some && node_of(def_of(c)->0, r_body(), 3)->0[1] == vpath(v) }
pub open spec fn typed(code: Seq<Cd>, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), v: Seq<Variant>) -> bool {
    forall|j: int, k: int| 0 <= j < code.len() && 0 <= k < v.len() && #[trigger] is_for(code[j], v[k]) ==> fits(tys(j), node_of(def_of(code[j])->0, r_body(), 3)->0[2], v[k].fields)
}
/// statement j defines the parser b of variant k
pub open spec fn chosen(code: Seq<Cd>, j: int, b: Seq<Cd>, v: Seq<Variant>, k: int) -> bool { 0 <= j < code.len() && 0 <= k < v.len() && def_of(code[j]) == Some(b) && c11_code(b, vpath(v[k]), v[k].fields) }
/// for every input: the closure that gives the result is the parser of the variant that has to give it; an error where none has to
pub open spec fn picks(code: Seq<Cd>, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>, v: Seq<Variant>) -> bool {
    match erun(code, tys, t) {
        Ec::Ret(j, b) => match call(b, tys(j), t) { Ran::Done(_) => c12_out(v, t) is Some && chosen(code, j, b, v, c12_out(v, t)->0), Ran::Fail => c12_out(v, t) is None, Ran::Stuck => false },
        Ec::Fail => c12_out(v, t) is None,
        _ => false,
    }
}
pub open spec fn c12_enum(code: Seq<Cd>, v: Seq<Variant>) -> bool {
    &&& code.len() > 0 && ends(code.last()) && forall|j: int| 0 <= j < code.len() - 1 ==> !ends(#[trigger] code[j])
    &&& forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| typed(code, tys, v) ==> #[trigger] picks(code, tys, t, v)
}
// what the generator keeps
pub open spec fn esim(code: Seq<Cd>, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>, v: Seq<Variant>, i: int) -> bool {
    match erun(code, tys, t) { Ec::Go(_) => c12_pick(v.take(i), t) is None, Ec::Ret(j, b) => c12_pick(v.take(i), t) is Some && chosen(code, j, b, v, c12_pick(v.take(i), t)->0), _ => false }
}
pub open spec fn c12_sim(code: Seq<Cd>, v: Seq<Variant>, i: int) -> bool {
    &&& 0 <= i <= v.len() && forall|j: int| 0 <= j < code.len() ==> !ends(#[trigger] code[j])
    &&& forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| typed(code, tys, v) ==> #[trigger] esim(code, tys, t, v, i)
}
pub open spec fn ext(a: Seq<Cd>, b: Seq<Cd>) -> bool { a.len() <= b.len() && forall|j: int| 0 <= j < a.len() ==> a[j] == b[j] }
pub proof fn lemma_typed(a: Seq<Cd>, b: Seq<Cd>, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), v: Seq<Variant>) requires ext(a, b), typed(b, tys, v) ensures typed(a, tys, v)
{ assert forall|j: int, k: int| 0 <= j < a.len() && 0 <= k < v.len() && #[trigger] is_for(a[j], v[k]) implies fits(tys(j), node_of(def_of(a[j])->0, r_body(), 3)->0[2], v[k].fields) by { assert(is_for(b[j], v[k])); } }
pub proof fn lemma_chosen(code: Seq<Cd>, j: int, b: Seq<Cd>, v: Seq<Variant>, k: int, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>)
    requires typed(code, tys, v), chosen(code, j, b, v, k)
    ensures !(call(b, tys(j), t) is Stuck), (call(b, tys(j), t) is Done) == (c11_reads(v[k].fields@, t) is Done)
{ let a = node_of(b, r_body(), 3)->0; assert(is_for(code[j], v[k])); assert(agree(run(a[0], tys(j), t), c11_reads(v[k].fields@, t), a[2], v[k].fields)); }
pub proof fn lemma_more(code: Seq<Cd>, more: Seq<Cd>, j: int, b: Seq<Cd>, v: Seq<Variant>, k: int) requires ext(code, more), chosen(code, j, b, v, k) ensures chosen(more, j, b, v, k) {}
pub proof fn lemma_pick_step(v: Seq<Variant>, i: int, t: Seq<Tt>) requires 0 <= i < v.len()
    ensures c12_pick(v.take(i + 1), t) == (if c12_pick(v.take(i), t) is Some { c12_pick(v.take(i), t) } else if if pk_fields(v[i].fields@).len() > 0 { entered(v[i].fields@, t) } else { c11_reads(v[i].fields@, t) is Done } { Some(i) } else { None })
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
/// the definition of a closure and what is done with it
pub open spec fn two(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, c: Cd) -> bool { more =~= code + (seq![Cd::N(r_def(), seq![seq![Cd::Id(f)], b])] + seq![c]) }
pub proof fn lemma_two(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, c: Cd, tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>)
    requires two(code, more, f, b, c)
    ensures ext(code, more), more.len() == code.len() + 2, more[code.len() as int] == Cd::N(r_def(), seq![seq![Cd::Id(f)], b]), more.last() == c,
        erun(more, tys, t) == (match erun(code, tys, t) { Ec::Go(m) => erun1(c, code.len() as int + 1, tys, t, m.insert(f, (code.len() as int, b))), x => x }),
{
    let d = more.drop_last();
    assert(d.drop_last() =~= code);
    assert(erun(d, tys, t) == (match erun(code, tys, t) { Ec::Go(m) => erun1(d.last(), d.len() - 1, tys, t, m), x => x }));
}
/// a variant tried on a fork
pub proof fn c12_fork(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, v: Seq<Variant>, i: int)
    requires c12_sim(code, v, i), i < v.len(), two(code, more, f, b, Cd::N(r_fork(), seq![seq![Cd::Id(f)]])), c11_code(b, vpath(v[i]), v[i].fields), pk_fields(v[i].fields@).len() == 0
    ensures c12_sim(more, v, i + 1)
{
    let c = Cd::N(r_fork(), seq![seq![Cd::Id(f)]]);
    assert forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| typed(more, tys, v) implies #[trigger] esim(more, tys, t, v, i + 1) by {
        lemma_two(code, more, f, b, c, tys, t); lemma_typed(code, more, tys, v); lemma_pick_step(v, i, t);
        assert(esim(code, tys, t, v, i));
        assert(chosen(more, code.len() as int, b, v, i)); lemma_chosen(more, code.len() as int, b, v, i, tys, t);
    }
    lemma_two(code, more, f, b, c, |j: int| |x: Seq<char>| v[i].fields@[0].ty, Seq::empty());
    assert forall|j: int| 0 <= j < more.len() implies !ends(#[trigger] more[j]) by { if j < code.len() { assert(more[j] == code[j]); } else if j > code.len() { assert(more[j] == c); } }
}
/// a variant tried behind its peeks
pub proof fn c12_if(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, l: Seq<Seq<Cd>>, v: Seq<Variant>, i: int)
    requires c12_sim(code, v, i), i < v.len(), two(code, more, f, b, Cd::N(r_if(), seq![seq![Cd::R(l)], seq![Cd::Id(f)]])), c11_code(b, vpath(v[i]), v[i].fields),
        l.len() == pk_fields(v[i].fields@).len(), l.len() > 0, forall|j: int| 0 <= j < l.len() ==> pred_of(#[trigger] l[j]) == Some((j, pk_fields(v[i].fields@)[j].0, pk_fields(v[i].fields@)[j].1))
    ensures c12_sim(more, v, i + 1)
{
    let c = Cd::N(r_if(), seq![seq![Cd::R(l)], seq![Cd::Id(f)]]);
    let p = pk_fields(v[i].fields@);
    assert forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| typed(more, tys, v) implies #[trigger] esim(more, tys, t, v, i + 1) by {
        lemma_two(code, more, f, b, c, tys, t); lemma_typed(code, more, tys, v); lemma_pick_step(v, i, t);
        assert(esim(code, tys, t, v, i));
        assert(chosen(more, code.len() as int, b, v, i));
        assert(holds(l, t) == entered(v[i].fields@, t)) by {
            if holds(l, t) { assert forall|j: int| 0 <= j < p.len() implies sees((#[trigger] p[j]).0, p[j].1, j, t) by { assert(holds1(l[j], t)); } }
            if entered(v[i].fields@, t) { assert forall|j: int| 0 <= j < l.len() implies holds1(#[trigger] l[j], t) by { assert(sees(p[j].0, p[j].1, j, t)); } }
        }
    }
    lemma_two(code, more, f, b, c, |j: int| |x: Seq<char>| v[i].fields@[0].ty, Seq::empty());
    assert forall|j: int| 0 <= j < more.len() implies !ends(#[trigger] more[j]) by { if j < code.len() { assert(more[j] == code[j]); } else if j > code.len() { assert(more[j] == c); } }
}
/// the last variant, tried on the input itself
pub proof fn c12_direct(code: Seq<Cd>, more: Seq<Cd>, f: Seq<char>, b: Seq<Cd>, v: Seq<Variant>)
    requires v.len() > 0, c12_sim(code, v, v.len() - 1), two(code, more, f, b, Cd::N(r_direct(), seq![seq![Cd::Id(f)]])), c11_code(b, vpath(v.last()), v.last().fields), pk_fields(v.last().fields@).len() == 0
    ensures c12_enum(more, v)
{
    let c = Cd::N(r_direct(), seq![seq![Cd::Id(f)]]);
    let i = v.len() - 1;
    assert forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| typed(more, tys, v) implies #[trigger] picks(more, tys, t, v) by {
        lemma_two(code, more, f, b, c, tys, t); lemma_typed(code, more, tys, v); lemma_pick_step(v, i, t);
        assert(esim(code, tys, t, v, i)); assert(v.take(v.len() as int) =~= v);
        if let Ec::Ret(j, d) = erun(code, tys, t) { lemma_more(code, more, j, d, v, c12_pick(v.take(i), t)->0); }
        assert(chosen(more, code.len() as int, b, v, i));
        if let Ec::Ret(j, d) = erun(more, tys, t) { if c12_pick(v, t) is Some { lemma_chosen(more, j, d, v, c12_pick(v, t)->0, tys, t); } }
        lemma_chosen(more, code.len() as int, b, v, i, tys, t);
    }
    lemma_two(code, more, f, b, c, |j: int| |x: Seq<char>| v[i].fields@[0].ty, Seq::empty());
    assert forall|j: int| 0 <= j < more.len() - 1 implies !ends(#[trigger] more[j]) by { if j < code.len() { assert(more[j] == code[j]); } }
}
/// none of the variants
pub proof fn c12_none(code: Seq<Cd>, more: Seq<Cd>, v: Seq<Variant>)
    requires c12_sim(code, v, v.len() as int), more == code + seq![Cd::N(r_err(), seq![])]
    ensures c12_enum(more, v)
{
    assert(more.drop_last() =~= code);
    assert(v.take(v.len() as int) =~= v);
    assert forall|tys: spec_fn(int) -> (spec_fn(Seq<char>) -> Type), t: Seq<Tt>| typed(more, tys, v) implies #[trigger] picks(more, tys, t, v) by {
        lemma_typed(code, more, tys, v);
        assert(esim(code, tys, t, v, v.len() as int));
        if let Ec::Ret(j, d) = erun(code, tys, t) { lemma_more(code, more, j, d, v, c12_pick(v, t)->0); lemma_chosen(more, j, d, v, c12_pick(v, t)->0, tys, t); }
    }
    assert forall|j: int| 0 <= j < more.len() - 1 implies !ends(#[trigger] more[j]) by { assert(more[j] == code[j]); }
}
/// the parse function of the impl
pub open spec fn parse_body(code: Seq<Cd>) -> Option<Seq<Cd>> { match node_of(code, q_impl(), 6) { Some(a) => match node_of(a[5], r_fn(), 1) { Some(b) => Some(b[0]), None => None }, None => None } }
pub open spec fn c11_impl(code: Seq<Cd>, d: DeriveInput) -> bool {
    match parse_body(code) { Some(b) => match d.data { Data::Struct(s) => c11_code(b, seq![Cd::N(r_self(), seq![])], s.fields), _ => true }, None => false }
}
pub open spec fn c12_impl(code: Seq<Cd>, d: DeriveInput) -> bool {
    match parse_body(code) { Some(b) => match d.data { Data::Enum(e) => c12_enum(b, e.variants@), _ => true }, None => false }
}
pub open spec fn c17_parse(code: Seq<Cd>, d: DeriveInput) -> bool {
    match parse_body(code) { Some(b) => code == c17_impl(d, seq![Cd::N(r_tr(), seq![])], Seq::empty(), seq![Cd::N(r_fn(), seq![b])]), None => false }
}
}
use rd::*;
