@file structmeta-derive/src/to_tokens_attribute.rs
@fn Parse.ToTokensAttributeArg::parse
@ret r
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use tpa::tp_axioms;
@fn Parse.ToTokensAttribute::parse
@ret r
@locals input args token dump arg token_value kw_dump
@spec
  ensures parse_post::<Self>(old(input)@, final(input)@, r)
@entry
  broadcast use tpa::tp_axioms;
@loop 0
  invariant __i0 <= __s0@.len(), plist(51, old(input)@.toks) == Some(vals::<ToTokensAttributeArg>(__s0@)), input@ == (Pb { toks: Seq::empty(), ..old(input)@ }),
    strings(vals::<ToTokensAttributeArg>(__s0@.take(__i0 as int))) == vals::<LitStr>(token@), vals::<ToTokensAttributeArg>(__s0@.take(__i0 as int)).contains(dump_arg()) == (dump is Some)
  decreases __s0@.len() - __i0
@loopentry 0
  broadcast use tpa::tp_axioms;
  proof { let w = vals::<ToTokensAttributeArg>(__s0@.take(__i0 as int)); assert(w.drop_last() =~= vals::<ToTokensAttributeArg>(__s0@.take(__i0 - 1))); assert(w.last() == vals::<ToTokensAttributeArg>(seq![arg])[0]); lemma_contains_last(w, dump_arg()); }
@loopend 0
  proof { let w = vals::<ToTokensAttributeArg>(__s0@.take(__i0 as int)); assert(strings(w) =~= vals::<LitStr>(token@)); }
@loopexit 0
  proof { assert(__s0@.take(__i0 as int) =~= __s0@); assert(old(input)@.adv(old(input)@.toks.len() as int).toks =~= Seq::<Tt>::empty()); }
@fn to_close
@ret r
@spec
  requires close_of(c) is Some
  ensures close_of(c) == Some(r)
