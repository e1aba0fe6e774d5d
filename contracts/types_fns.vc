@file structmeta-derive/src/syn_utils.rs
@item NS_SYN
@spec
  ensures nss(NS_SYN) =~~= ns_syn()

@fn is_match_ns
@ret r
@locals ss ns i_ss i_ns s
@spec
  requires ss@.len() > 0
  ensures r == tail_of(ss@, names(ns))
@loop 0
  invariant i_ss < ss@.len(), i_ns <= ns@.len(), ss@.len() - 1 - i_ss == ns@.len() - i_ns,
    forall|i: int| i_ss <= i < ss@.len() - 1 ==> (#[trigger] ss@[i]).ident.text() == names(ns)[ns@.len() - (ss@.len() - 1) + i] && no_args(ss@[i].arguments)
  decreases i_ss

@fn get_arguments_of
@ret r
@locals ty ns name ty ss last ns
@closure 0
|ns: &&[&str]| -> (b: bool) requires ss@.len() > 0 ensures b == tail_of(ss@, names(*ns))
@spec
  ensures match r { Some(a) => spelled(*ty, nss(ns), name@) == Some(*a), None => spelled(*ty, nss(ns), name@) is None }
@entry
  proof { assert forall|j: int| 0 <= j < ns@.len() implies nss(ns)[j] == names(#[trigger] ns@[j]) by {} }

@fn is_type
@ret r
@locals ty ns name a
@spec
  ensures r == plain(*ty, nss(ns), name@)

@fn is_macro_delimiter
@ret r
@locals ty
@spec
  ensures r == is_delim_t(*ty)

@file structmeta-derive/src/struct_meta.rs
@item NS_STRUCTMETA
@spec
  ensures nss(NS_STRUCTMETA) =~~= ns_sm()
@item NS_PRIMITIVE
@spec
  ensures nss(NS_PRIMITIVE) =~~= ns_prim()
@fn get_element
@ret r
@locals ty ns name args ty
@spec
  ensures deref_(r) == wrapped(*ty, nss(ns), name@)

@fn get_element2
@ret r
@locals ty ns name args ty0 ty1
@spec
  ensures match r { Some((t, u)) => wrapped2(*ty, nss(ns), name@) == Some((*t, *u)), None => wrapped2(*ty, nss(ns), name@) is None }

@fn get_option_element
@ret r
@spec
  ensures deref_(r) == option_of(*ty)
@entry
  proof { assert forall|x: &[&[&str]]| #[trigger] nss(x) =~~= ns_option() implies nss(x) == ns_option() by {} }
@fn get_vec_element
@ret r
@spec
  ensures deref_(r) == vec_of(*ty)
@entry
  proof { assert forall|x: &[&[&str]]| #[trigger] nss(x) =~~= ns_vec() implies nss(x) == ns_vec() by {} }
@fn get_name_value_element
@ret r
@spec
  ensures deref_(r) == name_value_of(*ty)
@fn get_name_args_element
@ret r
@spec
  ensures deref_(r) == name_args_of(*ty)
@fn get_hash_map_element
@ret r
@spec
  ensures match r { Some((t, u)) => map_of(*ty) == Some((*t, *u)), None => map_of(*ty) is None }
@entry
  proof { assert forall|x: &[&[&str]]| #[trigger] nss(x) =~~= ns_map() implies nss(x) == ns_map() by {} }
@fn get_hash_map_string_element
@ret r
@spec
  ensures deref_(r) == rest_of(*ty)
@fn is_bool
@ret r
@spec
  ensures r == is_bool_t(*ty)
@fn is_flag
@ret r
@spec
  ensures r == is_flag_t(*ty)
@fn is_string
@ret r
@spec
  ensures r == is_string_t(*ty)
@entry
  proof { assert forall|x: &[&[&str]]| #[trigger] nss(x) =~~= ns_string() implies nss(x) == ns_string() by {} }
@fn NamedParamType::from_type
@ret r
@spec
  ensures sty(r) == c08_style(*ty, may_flag)
@entry
  proof { c08_one_style(*ty); }
@fn NamedParamType::is_flag
@ret r
@spec
  ensures r == c08_flag(sty(*self))
@fn NamedParamType::is_name_value
@ret r
@spec
  ensures r == c08_name_value(sty(*self))
@fn NamedParamType::is_name_args
@ret r
@spec
  ensures r == c08_name_args(sty(*self))
