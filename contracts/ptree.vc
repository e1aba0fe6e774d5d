@//  C10: what has to be printed for a definition.
@text
pub mod tree {
use super::*;
// ---- what has to be printed: the fields in order, nested in their delimiters -------------------
/// field number, or the group a field opened with a character and what is printed inside
pub ghost enum Nd { Leaf(int), Group(int, char, Seq<Nd>) }
/// a group still open (the first: none), and what has been printed in it so far
pub ghost struct Fr { pub field: int, pub open: char, pub nodes: Seq<Nd> }
pub ghost struct Pr { pub frames: Seq<Fr>, pub opened: bool }
pub open spec fn fr_add(s: Seq<Fr>, n: Nd) -> Seq<Fr> { s.update(s.len() - 1, Fr { nodes: s.last().nodes.push(n), ..s.last() }) }
pub open spec fn close(s: Seq<Fr>) -> Seq<Fr> { let f = s.last(); fr_add(s.drop_last(), Nd::Group(f.field, f.open, f.nodes)) }
pub open spec fn pr_char(p: Pr, i: int, c: char) -> Pr {
    if close_of(c) is Some { Pr { frames: p.frames.push(Fr { field: i, open: c, nodes: Seq::empty() }), opened: true } } else { Pr { frames: close(p.frames), ..p } }
}
pub open spec fn pr_chars(p: Pr, i: int, s: Seq<char>) -> Pr
    decreases s.len()
{ if s.len() == 0 { p } else { pr_char(pr_chars(p, i, s.drop_last()), i, s.last()) } }
pub open spec fn pr_strings(p: Pr, i: int, l: Seq<Val>) -> Pr
    decreases l.len()
{ if l.len() == 0 { p } else { pr_chars(pr_strings(p, i, l.drop_last()), i, lit_str(l.last())) } }
pub open spec fn pr_attr(p: Pr, i: int, a: Attribute) -> Pr { if path_is(a.p(), "to_tokens"@) && tt_attr(a) is Some { pr_strings(p, i, tt_attr(a)->0.strings) } else { p } }
pub open spec fn pr_attrs(p: Pr, i: int, a: Seq<Attribute>) -> Pr
    decreases a.len()
{ if a.len() == 0 { p } else { pr_attr(pr_attrs(p, i, a.drop_last()), i, a.last()) } }
pub open spec fn pr0(s: Seq<Fr>) -> Pr { Pr { frames: s, opened: false } }
pub open spec fn fr_field(s: Seq<Fr>, i: int, f: Field) -> Seq<Fr> { let p = pr_attrs(pr0(s), i, f.attrs@); if p.opened { p.frames } else { fr_add(p.frames, Nd::Leaf(i)) } }
pub open spec fn fr_fields(fs: Seq<Field>) -> Seq<Fr>
    decreases fs.len()
{ if fs.len() == 0 { seq![Fr { field: -1, open: ' ', nodes: Seq::empty() }] } else { fr_field(fr_fields(fs.drop_last()), fs.len() - 1, fs.last()) } }
/// groups still open at the end are closed there
pub open spec fn fr_end(s: Seq<Fr>) -> Seq<Nd>
    decreases s.len()
{ if s.len() <= 1 { s.last().nodes } else { fr_end(close(s)) } }
pub open spec fn c10_tree(fs: Seq<Field>) -> Seq<Nd> { fr_end(fr_fields(fs)) }
/// the value of a field: the tokens it prints as, its delimiter if it is a MacroDelimiter, its span
pub ghost struct Fv { pub toks: Seq<Tt>, pub dl: Dl, pub sp: int }
pub open spec fn dl_of(c: char) -> Dl { if c == '(' { Dl::Paren } else if c == '[' { Dl::Bracket } else { Dl::Brace } }
pub open spec fn toks1(n: Nd, fs: Seq<Field>, v: Seq<Fv>) -> Seq<Tt>
    decreases n
{ match n { Nd::Leaf(i) => v[i].toks, Nd::Group(i, c, inner) => seq![Tt::Group(if is_delim_t(fs[i].ty) { v[i].dl } else { dl_of(c) }, toks(inner, fs, v), v[i].sp)] } }
pub open spec fn toks(n: Seq<Nd>, fs: Seq<Field>, v: Seq<Fv>) -> Seq<Tt>
    decreases n
{ if n.len() == 0 { Seq::empty() } else { toks(n.drop_last(), fs, v) + toks1(n.last(), fs, v) } }
/// the tokens of a struct or variant whose fields have the values v
pub open spec fn c10_tokens(fs: Seq<Field>, v: Seq<Fv>) -> Seq<Tt> { toks(c10_tree(fs), fs, v) }
}
