@//  C10: what the code quoted by derive(ToTokens) prints, for every definition and every value.
@file structmeta-derive/src/to_tokens.rs
@quote q_macro ::structmeta::helpers::surround_macro_delimiter
@quote q_token ::structmeta::helpers::exports::syn::token::#0::surround
@quote q_surround #0(#1, tokens, |tokens| { #2 });
@quote q_print ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#0, tokens);
@quote q_self Self
@quote q_variant Self::#0
@quote q_tuple #0( #(#1,)*)
@quote q_record #0 { #(#1,)* }
@quote q_bind #0 : #1
@quote q_let let #0 = self; #1
@quote q_arm #0 => { #1 }
@quote q_match match self { #(#0)* }
@quote q_to_tokens fn to_tokens(&self, tokens: &mut ::structmeta::helpers::exports::proc_macro2::TokenStream) { #0 }
@quote q_tr_to_tokens ::structmeta::helpers::exports::quote::ToTokens
@include impltr.vc
@include names.vc
@file structmeta-derive/src/to_tokens.rs
@include ptree.vc
@file structmeta-derive/src/to_tokens.rs
@text
pub mod prn {
use super::*;
use super::tree::*;
// ---- what quoted code does ---------------------------------------------------------------------
pub open spec fn id_of(c: Seq<Cd>) -> Option<Seq<char>> { if c.len() == 1 { match c[0] { Cd::Id(x) => Some(x), _ => None } } else { None } }
pub open spec fn node_of(c: Seq<Cd>, t: int, n: nat) -> Option<Seq<Seq<Cd>>> { if c.len() == 1 { match c[0] { Cd::N(u, a) => if u == t && a.len() == n { Some(a) } else { None }, _ => None } } else { None } }
pub open spec fn list_of(c: Seq<Cd>) -> Option<Seq<Seq<Cd>>> { if c.len() == 1 { match c[0] { Cd::R(l) => Some(l), _ => None } } else { None } }
/// the group made by `surround` of a syn token, or by surround_macro_delimiter
pub open spec fn func_dl(c: Seq<Cd>, v: Fv) -> Option<Dl> {
    if node_of(c, q_macro(), 0) is Some { Some(v.dl) }
    else { match node_of(c, q_token(), 1) { Some(a) => match id_of(a[0]) { Some(x) => if x == "Paren"@ { Some(Dl::Paren) } else if x == "Bracket"@ { Some(Dl::Bracket) } else if x == "Brace"@ { Some(Dl::Brace) } else { None }, None => None }, None => None } }
}
/// one statement: `ToTokens::to_tokens(x, tokens);` or `f(x, tokens, |tokens| { .. });`, variables having values env
pub open spec fn run1(c: Cd, env: spec_fn(Seq<char>) -> Fv) -> Option<Seq<Tt>>
    decreases c
{
    match c {
        Cd::N(t, a) =>
            if t == q_print() && a.len() == 1 && id_of(a[0]) is Some { Some(env(id_of(a[0])->0).toks) }
            else if t == q_surround() && a.len() == 3 && id_of(a[1]) is Some {
                let v = env(id_of(a[1])->0);
                match (func_dl(a[0], v), run(a[2], env)) { (Some(d), Some(inner)) => Some(seq![Tt::Group(d, inner, v.sp)]), _ => None }
            } else { None },
        _ => None,
    }
}
/// statements in order: what they append to `tokens`
pub open spec fn run(c: Seq<Cd>, env: spec_fn(Seq<char>) -> Fv) -> Option<Seq<Tt>>
    decreases c
{ if c.len() == 0 { Some(Seq::empty()) } else { match (run(c.drop_last(), env), run1(c.last(), env)) { (Some(a), Some(b)) => Some(a + b), _ => None } } }
/// the variable a pattern binds to field i (None: it does not)
pub open spec fn pat_vars(p: Seq<Cd>) -> Option<Seq<Seq<Cd>>> {
    match node_of(p, q_tuple(), 2) { Some(a) => list_of(a[1]), None => match node_of(p, q_record(), 2) { Some(a) => list_of(a[1]), None => None } }
}
pub open spec fn binds(p: Seq<Cd>, fs: Fields, i: int, x: Seq<char>) -> bool {
    0 <= i < fs@.len() && match fs {
        Fields::Unit => false,
        Fields::Unnamed(_) => node_of(p, q_tuple(), 2) is Some && list_of(node_of(p, q_tuple(), 2)->0[1]) is Some && ({ let l = list_of(node_of(p, q_tuple(), 2)->0[1])->0; l.len() == fs@.len() && id_of(l[i]) == Some(x) }),
        Fields::Named(_) => node_of(p, q_record(), 2) is Some && list_of(node_of(p, q_record(), 2)->0[1]) is Some && ({ let l = list_of(node_of(p, q_record(), 2)->0[1])->0; l.len() == fs@.len() && exists|k: int| 0 <= k < l.len() && #[trigger] binds1(l[k], fs@[i], x) }),
    }
}
/// `name: var`
pub open spec fn binds1(c: Seq<Cd>, f: Field, x: Seq<char>) -> bool { match node_of(c, q_bind(), 2) { Some(b) => f.ident is Some && id_of(b[0]) == Some(f.ident->0.text()) && id_of(b[1]) == Some(x), None => false } }
/// the path in front of a pattern
pub open spec fn pat_path(p: Seq<Cd>, fs: Fields) -> Option<Seq<Cd>> {
    match fs { Fields::Unit => Some(p), Fields::Unnamed(_) => match node_of(p, q_tuple(), 2) { Some(a) => Some(a[0]), None => None }, Fields::Named(_) => match node_of(p, q_record(), 2) { Some(a) => Some(a[0]), None => None } }
}
/// variables after a pattern has matched a value with fields v
pub open spec fn agrees(env: spec_fn(Seq<char>) -> Fv, p: Seq<Cd>, fs: Fields, v: Seq<Fv>) -> bool { forall|i: int, x: Seq<char>| #[trigger] binds(p, fs, i, x) ==> env(x) == v[i] }
/// the pattern is for this constructor and binds one variable per field, all different; and then the code prints c10_tokens
pub open spec fn prints(p: Seq<Cd>, path: Seq<Cd>, code: Seq<Cd>, fs: Fields) -> bool {
    &&& pat_path(p, fs) == Some(path)
    &&& forall|i: int, j: int, x: Seq<char>| #[trigger] binds(p, fs, i, x) && #[trigger] binds(p, fs, j, x) ==> i == j
    &&& forall|env: spec_fn(Seq<char>) -> Fv, v: Seq<Fv>| v.len() == fs@.len() && #[trigger] agrees(env, p, fs, v) ==> run(code, env) == Some(c10_tokens(fs@, v))
}
pub open spec fn c10_struct(code: Seq<Cd>, fs: Fields) -> bool {
    match node_of(code, q_let(), 2) { Some(a) => prints(a[0], seq![Cd::N(q_self(), seq![])], a[1], fs), None => false }
}
pub open spec fn c10_variant(arm: Seq<Cd>, v: Variant) -> bool {
    match node_of(arm, q_arm(), 2) { Some(a) => prints(a[0], seq![Cd::N(q_variant(), seq![seq![Cd::Id(v.ident.text())]])], a[1], v.fields), None => false }
}
pub open spec fn c10_enum(code: Seq<Cd>, vs: Seq<Variant>) -> bool {
    match node_of(code, q_match(), 1) { Some(a) => match list_of(a[0]) { Some(l) => l.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> c10_variant(#[trigger] l[i], vs[i]), None => false }, None => false }
}

/// the to_tokens function of the impl
pub open spec fn fn_body(code: Seq<Cd>, f: int) -> Option<Seq<Cd>> { match node_of(code, q_impl(), 6) { Some(a) => match node_of(a[5], f, 1) { Some(b) => Some(b[0]), None => None }, None => None } }
pub open spec fn c10_impl(code: Seq<Cd>, d: DeriveInput) -> bool {
    match fn_body(code, q_to_tokens()) {
        Some(b) => match d.data { Data::Struct(s) => c10_struct(b, s.fields), Data::Enum(e) => c10_enum(b, e.variants@), Data::Union(_) => false },
        None => false,
    }
}
pub open spec fn c17_to_tokens(code: Seq<Cd>, d: DeriveInput) -> bool {
    match fn_body(code, q_to_tokens()) { Some(b) => code == c17_impl(d, seq![Cd::N(q_tr_to_tokens(), seq![])], Seq::empty(), seq![Cd::N(q_to_tokens(), seq![b])]), None => false }
}

// ---- what the generator builds -----------------------------------------------------------------
pub open spec fn tok_name(c: char) -> Seq<char> { if c == '(' { "Paren"@ } else if c == '[' { "Bracket"@ } else { "Brace"@ } }
pub open spec fn func_cd(ty: Type, c: char) -> Seq<Cd> { if is_delim_t(ty) { seq![Cd::N(q_macro(), seq![])] } else { seq![Cd::N(q_token(), seq![seq![Cd::Id(tok_name(c))]])] } }
pub open spec fn code1(n: Nd, fs: Seq<Field>) -> Cd
    decreases n
{ match n { Nd::Leaf(i) => Cd::N(q_print(), seq![seq![Cd::Id(var_of(fs[i], i))]]), Nd::Group(i, c, inner) => Cd::N(q_surround(), seq![func_cd(fs[i].ty, c), seq![Cd::Id(var_of(fs[i], i))], codes(inner, fs)]) } }
pub open spec fn codes(n: Seq<Nd>, fs: Seq<Field>) -> Seq<Cd>
    decreases n
{ if n.len() == 0 { Seq::empty() } else { codes(n.drop_last(), fs).push(code1(n.last(), fs)) } }
/// fields and characters in a tree are ones of the definition
pub open spec fn good1(n: Nd, k: int) -> bool
    decreases n
{ match n { Nd::Leaf(i) => 0 <= i < k, Nd::Group(i, c, inner) => 0 <= i < k && close_of(c) is Some && good(inner, k) } }
pub open spec fn good(n: Seq<Nd>, k: int) -> bool
    decreases n
{ n.len() == 0 || (good(n.drop_last(), k) && good1(n.last(), k)) }
pub open spec fn vars(fs: Fields) -> Seq<Seq<Cd>> {
    if fs is Named { Seq::new(fs@.len(), |i: int| seq![Cd::N(q_bind(), seq![seq![Cd::Id(fs@[i].ident->0.text())], seq![Cd::Id(seq!['_'] + unrawed(fs@[i].ident->0.text()))]])]) }
    else { Seq::new(fs@.len(), |i: int| seq![Cd::Id(var_of(fs@[i], i))]) }
}
pub open spec fn pattern(path: Seq<Cd>, fs: Fields) -> Seq<Cd> {
    match fs { Fields::Unit => path, Fields::Unnamed(_) => seq![Cd::N(q_tuple(), seq![path, seq![Cd::R(vars(fs))]])], Fields::Named(_) => seq![Cd::N(q_record(), seq![path, seq![Cd::R(vars(fs))]])] }
}
pub proof fn lemma_codes_push(n: Seq<Nd>, x: Nd, fs: Seq<Field>) ensures codes(n.push(x), fs) == codes(n, fs).push(code1(x, fs)) { assert(n.push(x).drop_last() =~= n); }
pub proof fn lemma_good_push(n: Seq<Nd>, x: Nd, k: int) requires good(n, k), good1(x, k) ensures good(n.push(x), k) { assert(n.push(x).drop_last() =~= n); }
pub proof fn lemma_run1(n: Nd, fs: Seq<Field>, v: Seq<Fv>, env: spec_fn(Seq<char>) -> Fv)
    requires good1(n, fs.len() as int), v.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> env(#[trigger] var_of(fs[i], i)) == v[i]
    ensures run1(code1(n, fs), env) == Some(toks1(n, fs, v))
    decreases n
{
    if let Nd::Group(i, c, inner) = n {
        lemma_run(inner, fs, v, env);
        reveal_strlit("Paren"); reveal_strlit("Bracket"); reveal_strlit("Brace");
        assert(var_of(fs[i], i) == var_of(fs[i], i));
        assert("Paren"@.len() != "Bracket"@.len()); assert("Brace"@.len() != "Bracket"@.len()); assert("Paren"@[0] != "Brace"@[0]);
    }
}
pub proof fn lemma_run(n: Seq<Nd>, fs: Seq<Field>, v: Seq<Fv>, env: spec_fn(Seq<char>) -> Fv)
    requires good(n, fs.len() as int), v.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> env(#[trigger] var_of(fs[i], i)) == v[i]
    ensures run(codes(n, fs), env) == Some(toks(n, fs, v))
    decreases n
{
    if n.len() > 0 {
        lemma_run(n.drop_last(), fs, v, env);
        lemma_run1(n.last(), fs, v, env);
        assert(codes(n, fs).drop_last() =~= codes(n.drop_last(), fs));
    }
}
pub proof fn lemma_prints(path: Seq<Cd>, fs: Fields)
    requires syn_fields(fs), fs@.len() <= usize::MAX, good(c10_tree(fs@), fs@.len() as int)
    ensures prints(pattern(path, fs), path, codes(c10_tree(fs@), fs@), fs)
{
    let p = pattern(path, fs);
    let s = fs@;
    assert forall|i: int, x: Seq<char>| #[trigger] binds(p, fs, i, x) implies x == var_of(s[i], i) by { lemma_binds(path, fs, i, x); }
    assert forall|i: int| 0 <= i < s.len() implies binds(p, fs, i, #[trigger] var_of(s[i], i)) by {
        if fs is Named { assert(binds1(vars(fs)[i], s[i], var_of(s[i], i))); }
    }
    assert forall|i: int, j: int, x: Seq<char>| #[trigger] binds(p, fs, i, x) && #[trigger] binds(p, fs, j, x) implies i == j by { lemma_vars_differ(fs, i, j); }
    assert forall|env: spec_fn(Seq<char>) -> Fv, v: Seq<Fv>| v.len() == s.len() && #[trigger] agrees(env, p, fs, v) implies run(codes(c10_tree(s), s), env) == Some(c10_tokens(s, v)) by { lemma_run(c10_tree(s), s, v, env); }
}
pub proof fn lemma_binds(path: Seq<Cd>, fs: Fields, i: int, x: Seq<char>)
    requires syn_fields(fs), fs@.len() <= usize::MAX, binds(pattern(path, fs), fs, i, x)
    ensures x == var_of(fs@[i], i)
{
    if fs is Named {
        let l = vars(fs);
        let k = choose|k: int| 0 <= k < l.len() && #[trigger] binds1(l[k], fs@[i], x);
        assert(fs@[k].ident->0.text() == fs@[i].ident->0.text());
        if k < i { assert(unrawed(fs@[k].ident->0.text()) != unrawed(fs@[i].ident->0.text())); }
        if i < k { assert(unrawed(fs@[i].ident->0.text()) != unrawed(fs@[k].ident->0.text())); }
    }
}
}
use prn::*;
use tree::*;
