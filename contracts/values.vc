@text
pub mod fvs {
use super::*;
/// the value of a named parameter: a flag's span, a value, a list, or NameValue/NameArgs
pub ghost enum Fv { Sp(int), V(Val), L(Seq<Val>), N(int, Inner) }
pub ghost enum Inner { V(Val), L(Seq<Val>), None, SomeV(Val), SomeL(Seq<Val>) }
pub open spec fn snake(c: char) -> bool { ('a' <= c && c <= 'z') || ('0' <= c && c <= '9') || c == '_' }
pub open spec fn snake_name(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> snake(#[trigger] s[i]) }
pub open spec fn absorbed(b: Pb, content: Pb) -> Pb { Pb { unexp: b.unexp || content.unexp || content.toks.len() > 0, ..b } }
/// what the value parsers of C01 make of the tokens: value and what is left
pub open spec fn p_value(ty: int, b: Pb) -> Option<(Val, Pb)> {
    match leaf(ty, b.toks) { Some((v, n)) => Some((v, b.adv(n as int))), None => None }
}
pub open spec fn inside(b: Pb) -> Pb { Pb { toks: b.toks[0]->Group_1, scope: grp_scope(b.toks[0]), unexp: false } }
pub open spec fn p_args(ty: int, b: Pb) -> Option<(Val, Pb)> {
    if group1(b.toks, Dl::Paren) {
        match p_value(ty, inside(b)) { Some((v, c)) => Some((v, absorbed(b.adv(1), c))), None => None }
    } else { None }
}
pub open spec fn p_list(ty: int, b: Pb) -> Option<(Seq<Val>, Pb)> {
    if group1(b.toks, Dl::Paren) {
        match plist(ty, inside(b).toks) { Some(l) => Some((l, b.adv(1))), None => None }
    } else { None }
}
/// C03: the message says that the parameter is missing, in its own style
pub open spec fn mentions(m: Seq<char>, form: Seq<char>) -> bool { exists|i: int| 0 <= i && i + form.len() <= m.len() && #[trigger] m.subrange(i, i + form.len()) == form }
pub open spec fn says_missing(m: Seq<char>, form: Seq<char>) -> bool { mentions(m, "missing"@) && mentions(m, form) }
pub proof fn lemma_mentions(m: Seq<char>, form: Seq<char>, i: int)
    requires 0 <= i, i + form.len() <= m.len(), forall|j: int| 0 <= j < form.len() ==> m[i + j] == #[trigger] form[j]
    ensures mentions(m, form)
{ assert(m.subrange(i, i + form.len()) =~= form); }
}
use fvs::*;
