@//  C17: the impl around the generated function.
@file structmeta-derive/src/syn_utils.rs
@quote q_where where #(#0,)*
@quote q_impl #[automatically_derived] impl #0 #1 for #2 #3 #4 { #5 }
@text
pub open spec fn own_wheres(d: DeriveInput) -> Seq<WherePredicate> { match d.generics.preds() { Some(p) => p, None => Seq::empty() } }
pub open spec fn where_cd(p: Seq<WherePredicate>) -> Seq<Cd> { if p.len() == 0 { Seq::empty() } else { seq![Cd::N(q_where(), seq![seq![Cd::R(cds(p))]])] } }
/// impl <its parameters and bounds> Trait for Type <its parameters> where <more, its own> { body }
pub open spec fn c17_impl(d: DeriveInput, tr: Seq<Cd>, more: Seq<WherePredicate>, body: Seq<Cd>) -> Seq<Cd> {
    seq![Cd::N(q_impl(), seq![seq![Cd::ImplG(d.generics)], tr, seq![Cd::Id(d.ident.text())], seq![Cd::TyG(d.generics)], where_cd(more + own_wheres(d)), body])]
}
pub open spec fn c17_eq(a: Seq<Cd>, b: Seq<Cd>) -> bool { a == b }
