@fn try_parse_name
@ret r
@locals input flag_names flag_rest name_value_names name_value_rest name_args_names name_args_rest no_unnamed name_filter
@generics F: Fn(&str) -> bool
@subst name_filter: F
@extra Ghost(flt): Ghost<spec_fn(Seq<char>) -> bool>
@extra Ghost(want): Ghost<Tabs>
@spec
  requires forall|s: &str| call_requires(name_filter, (s,)),
    forall|s: &str, b: bool| call_ensures(name_filter, (s,), b) ==> b == flt(s@),
    c06_c07_tables(tabs_of(flag_names@, flag_rest, name_value_names@, name_value_rest, name_args_names@, name_args_rest, no_unnamed), want),
  ensures c06_classified(tabs_of(flag_names@, flag_rest, name_value_names@, name_value_rest, name_args_names@, name_args_rest, no_unnamed), flt, old(input)@, final(input)@, r),
    c16_located(tabs_of(flag_names@, flag_rest, name_value_names@, name_value_rest, name_args_names@, name_args_rest, no_unnamed), flt, old(input)@, r),
    c07_diagnosed(tabs_of(flag_names@, flag_rest, name_value_names@, name_value_rest, name_args_names@, name_args_rest, no_unnamed), flt, old(input)@, r)
