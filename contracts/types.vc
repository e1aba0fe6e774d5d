@include prelude.vc
@include synty.vc
@include types_spec.vc
@include types_fns.vc
@file structmeta-derive/src/syn_utils.rs
@complete
@skip into_macro_output
@skip impl_trait
@skip impl_trait_result
