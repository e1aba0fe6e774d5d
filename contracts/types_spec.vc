@text
// ---- what the property says about the spelling of a type ----------------------------------
pub open spec fn names(n: &[&str]) -> Seq<Seq<char>> { n@.map_values(|s: &str| s@) }
pub open spec fn nss(ns: &[&[&str]]) -> Seq<Seq<Seq<char>>> { ns@.map_values(|n: &[&str]| names(n)) }
/// the segments before the last one are a tail of the module path `n`, without arguments
pub open spec fn tail_of(ss: Seq<PathSegment>, n: Seq<Seq<char>>) -> bool {
    ss.len() - 1 <= n.len() && forall|i: int| 0 <= i < ss.len() - 1 ==> (#[trigger] ss[i]).ident.text() == n[n.len() - (ss.len() - 1) + i] && no_args(ss[i].arguments)
}
/// `ty` is `name`, or `name` under a tail of one of the module paths `ns`; its own arguments
pub open spec fn spelled(ty: Type, ns: Seq<Seq<Seq<char>>>, name: Seq<char>) -> Option<PathArguments> {
    match ty {
        Type::Path(p) => {
            let ss = p.path.segments@;
            if p.qself is None && ss.len() > 0 && ss.last().ident.text() == name && exists|k: int| 0 <= k < ns.len() && tail_of(ss, #[trigger] ns[k]) { Some(ss.last().arguments) } else { None }
        }
        _ => None,
    }
}
pub open spec fn plain(ty: Type, ns: Seq<Seq<Seq<char>>>, name: Seq<char>) -> bool { match spelled(ty, ns, name) { Some(a) => no_args(a), None => false } }
pub open spec fn wrapped(ty: Type, ns: Seq<Seq<Seq<char>>>, name: Seq<char>) -> Option<Type> {
    match spelled(ty, ns, name) {
        Some(PathArguments::AngleBracketed(b)) => if b.args@.len() == 1 { match b.args@[0] { GenericArgument::Type(t) => Some(t), _ => None } } else { None },
        _ => None,
    }
}
pub open spec fn wrapped2(ty: Type, ns: Seq<Seq<Seq<char>>>, name: Seq<char>) -> Option<(Type, Type)> {
    match spelled(ty, ns, name) {
        Some(PathArguments::AngleBracketed(b)) => if b.args@.len() == 2 { match (b.args@[0], b.args@[1]) { (GenericArgument::Type(t), GenericArgument::Type(u)) => Some((t, u)), _ => None } } else { None },
        _ => None,
    }
}
pub open spec fn ns_option() -> Seq<Seq<Seq<char>>> { seq![seq!["std"@, "option"@], seq!["core"@, "option"@]] }
pub open spec fn ns_vec() -> Seq<Seq<Seq<char>>> { seq![seq!["std"@, "vec"@], seq!["alloc"@, "vec"@]] }
pub open spec fn ns_string() -> Seq<Seq<Seq<char>>> { seq![seq!["std"@, "string"@], seq!["alloc"@, "string"@]] }
pub open spec fn ns_map() -> Seq<Seq<Seq<char>>> { seq![seq!["std"@, "collections"@], seq!["std"@, "collections"@, "hash_map"@]] }
pub open spec fn ns_prim() -> Seq<Seq<Seq<char>>> { seq![seq!["std"@, "primitive"@], seq!["core"@, "primitive"@]] }
pub open spec fn ns_sm() -> Seq<Seq<Seq<char>>> { seq![seq!["structmeta"@]] }
pub open spec fn ns_syn() -> Seq<Seq<Seq<char>>> { seq![seq!["syn"@]] }
pub open spec fn is_bool_t(ty: Type) -> bool { plain(ty, ns_prim(), "bool"@) }
pub open spec fn is_flag_t(ty: Type) -> bool { plain(ty, ns_sm(), "Flag"@) }
pub open spec fn is_string_t(ty: Type) -> bool { plain(ty, ns_string(), "String"@) }
pub open spec fn is_delim_t(ty: Type) -> bool { plain(ty, ns_syn(), "MacroDelimiter"@) }
pub open spec fn option_of(ty: Type) -> Option<Type> { wrapped(ty, ns_option(), "Option"@) }
pub open spec fn vec_of(ty: Type) -> Option<Type> { wrapped(ty, ns_vec(), "Vec"@) }
pub open spec fn name_value_of(ty: Type) -> Option<Type> { wrapped(ty, ns_sm(), "NameValue"@) }
pub open spec fn name_args_of(ty: Type) -> Option<Type> { wrapped(ty, ns_sm(), "NameArgs"@) }
pub open spec fn map_of(ty: Type) -> Option<(Type, Type)> { wrapped2(ty, ns_map(), "HashMap"@) }
pub open spec fn rest_of(ty: Type) -> Option<Type> { match map_of(ty) { Some((k, v)) => if is_string_t(k) { Some(v) } else { None }, None => None } }
pub open spec fn or_self(o: Option<Type>, t: Type) -> Type { match o { Some(u) => u, None => t } }
/// parameter style of a field type
pub ghost enum Sty { Bool, Flag, Value(Type, bool), NameValue(Type, bool), NameArgs(Type, bool, bool) }
pub open spec fn c08_style(ty: Type, may_flag: bool) -> Sty {
    if may_flag && is_bool_t(ty) { Sty::Bool }
    else if may_flag && is_flag_t(ty) { Sty::Flag }
    else if name_value_of(ty) is Some { let t = name_value_of(ty)->0; Sty::NameValue(or_self(option_of(t), t), option_of(t) is Some) }
    else if name_args_of(ty) is Some { let t = name_args_of(ty)->0; let u = or_self(option_of(t), t); Sty::NameArgs(or_self(vec_of(u), u), option_of(t) is Some, vec_of(u) is Some) }
    else { Sty::Value(or_self(vec_of(ty), ty), vec_of(ty) is Some) }
}
/// the forms a style accepts
pub open spec fn c08_flag(s: Sty) -> bool { match s { Sty::Bool | Sty::Flag => true, Sty::Value(_, _) => false, Sty::NameValue(_, o) => o, Sty::NameArgs(_, o, _) => o } }
pub open spec fn c08_name_value(s: Sty) -> bool { match s { Sty::Bool | Sty::Flag => false, Sty::Value(_, v) => !v, Sty::NameValue(_, _) => true, Sty::NameArgs(_, _, _) => false } }
pub open spec fn c08_name_args(s: Sty) -> bool { match s { Sty::Bool | Sty::Flag => false, Sty::Value(_, v) => v, Sty::NameValue(_, _) => false, Sty::NameArgs(_, _, _) => true } }

// ---- the specification says what the property says (lemmas about spelled) ---------------------
/// every tail of a listed module path, bare name included, is recognised
pub proof fn c08_tails(p: TypePath, ns: Seq<Seq<Seq<char>>>, k: int, name: Seq<char>)
    requires p.qself is None, p.path.segments@.len() > 0, p.path.segments@.last().ident.text() == name, 0 <= k < ns.len(), p.path.segments@.len() - 1 <= ns[k].len(),
        forall|i: int| 0 <= i < p.path.segments@.len() - 1 ==> (#[trigger] p.path.segments@[i]).arguments is None && p.path.segments@[i].ident.text() == ns[k].skip(ns[k].len() - (p.path.segments@.len() - 1))[i],
    ensures spelled(Type::Path(p), ns, name) == Some(p.path.segments@.last().arguments)
{ assert(tail_of(p.path.segments@, ns[k])); }
/// anything else under that name is not: a foreign module, a longer path, a qualified self
pub proof fn c08_foreign(p: TypePath, ns: Seq<Seq<Seq<char>>>, name: Seq<char>)
    requires p.qself is Some || p.path.segments@.len() == 0 || p.path.segments@.last().ident.text() != name
        || forall|k: int| 0 <= k < ns.len() ==> p.path.segments@.len() > (#[trigger] ns[k]).len() + 1
            || exists|i: int| 0 <= i < p.path.segments@.len() - 1 && (!no_args((#[trigger] p.path.segments@[i]).arguments) || p.path.segments@[i].ident.text() != ns[k][ns[k].len() - (p.path.segments@.len() - 1) + i])
    ensures spelled(Type::Path(p), ns, name) is None
{ }
/// the four styles named by a wrapper or a primitive exclude one another: the order of the tests is no part of the property
pub proof fn c08_one_style(ty: Type)
    ensures !(is_bool_t(ty) && is_flag_t(ty)), is_bool_t(ty) || is_flag_t(ty) ==> name_value_of(ty) is None && name_args_of(ty) is None, !(name_value_of(ty) is Some && name_args_of(ty) is Some)
{
    reveal_strlit("bool"); reveal_strlit("Flag"); reveal_strlit("NameValue"); reveal_strlit("NameArgs");
    assert("bool"@[0] != "Flag"@[0]);
    assert("bool"@.len() == 4 && "Flag"@.len() == 4 && "NameValue"@.len() == 9 && "NameArgs"@.len() == 8);
}

@file structmeta-derive/src/struct_meta.rs
@item NamedParamType
@text
pub open spec fn sty<'a>(t: NamedParamType<'a>) -> Sty {
    match t {
        NamedParamType::Bool => Sty::Bool, NamedParamType::Flag => Sty::Flag,
        NamedParamType::Value { ty, is_vec } => Sty::Value(*ty, is_vec),
        NamedParamType::NameValue { ty, is_option } => Sty::NameValue(*ty, is_option),
        NamedParamType::NameArgs { ty, is_option, is_vec } => Sty::NameArgs(*ty, is_option, is_vec),
    }
}
pub open spec fn deref_(o: Option<&Type>) -> Option<Type> { match o { Some(t) => Some(*t), None => None } }

