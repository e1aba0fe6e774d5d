@file structmeta-derive/src/syn_utils.rs
@fn impl_trait
@ret r
@spec
  ensures c17_eq(r.code(), c17_impl(*input, trait_path.cd(), wheres@, contents.code()))
@entry
  proof { assert forall|w: Vec<WherePredicate>| w@.len() == wheres@.len() && (forall|i: int| 0 <= i < wheres@.len() ==> vstd::pervasive::cloned(#[trigger] wheres@[i], w@[i])) implies #[trigger] w@ == wheres@ by { assert(w@ =~= wheres@); } if input.generics.preds() is None { assert(wheres@ + own_wheres(*input) =~= wheres@); } }
@fn impl_trait_result
@ret r
@panics asked_dump(*input)
@spec
  requires dump ==> asked_dump(*input)
  ensures r is Ok, c17_eq(r->Ok_0.code(), c17_impl(*input, trait_path.cd(), wheres@, contents.code()))
