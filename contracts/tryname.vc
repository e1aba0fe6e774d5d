@// what try_parse_name promises its callers (proved in helpers.vc, relied on by the generated parsers)
@file structmeta/src/helpers.rs
@item NameIndex
@text
pub open spec fn idx_of(r: std::result::Result<usize, Ident>) -> Idx { match r { Ok(i) => Idx::At(i as int), Err(n) => Idx::Rest(n.text()) } }
pub open spec fn tab(names: Seq<&str>, rest: bool) -> Tab { Tab { names: strs(names), rest } }
pub open spec fn taken_matches(i: NameIndex, w: Style, x: Idx) -> bool {
    match i { NameIndex::Flag(r) => w == Style::Flag && idx_of(r) == x, NameIndex::NameValue(r) => w == Style::NameValue && idx_of(r) == x, NameIndex::NameArgs(r) => w == Style::NameArgs && idx_of(r) == x }
}
pub open spec fn rest_span(i: NameIndex, sp: int) -> bool {
    match i { NameIndex::Flag(Err(n)) => n.sp() == sp, NameIndex::NameValue(Err(n)) => n.sp() == sp, NameIndex::NameArgs(Err(n)) => n.sp() == sp, _ => true }
}

pub open spec fn tabs_of(f: Seq<&str>, fr: bool, v: Seq<&str>, vr: bool, a: Seq<&str>, ar: bool, no_unnamed: bool) -> Tabs {
    Tabs { f: tab(f, fr), v: tab(v, vr), a: tab(a, ar), no_unnamed }
}
/// the caller's tables are those of its definition
pub open spec fn c06_c07_tables(t: Tabs, want: Tabs) -> bool { t == want }
pub type TryName = Result<Option<(NameIndex, Span)>>;
/// C06: what the argument at the head counts as, which entry of which table it is, what is consumed
pub open spec fn c06_classified(s: Tabs, flt: spec_fn(Seq<char>) -> bool, t: Pb, u: Pb, r: TryName) -> bool {
    match name_at(s, flt, t.toks) {
        Named::Unnamed => r is Ok && r->Ok_0 is None && u == t,
        Named::Taken(w, i, sp, n) => r is Ok && r->Ok_0 is Some && taken_matches((r->Ok_0->0).0, w, i) && u == t.adv(n as int),
        Named::Err => r is Err,
    }
}
/// C16: the spans handed on, and where the error is
pub open spec fn c16_located(s: Tabs, flt: spec_fn(Seq<char>) -> bool, t: Pb, r: TryName) -> bool {
    match name_at(s, flt, t.toks) {
        Named::Unnamed => true,
        Named::Taken(w, i, sp, n) => r is Ok && r->Ok_0 is Some ==> (r->Ok_0->0).1@ == sp && rest_span((r->Ok_0->0).0, sp),
        Named::Err => r is Err && is_named(s, flt, t.toks) ==> r->Err_0.sp() == t.here(),
    }
}
/// C07: the text of the error
pub open spec fn c07_diagnosed(s: Tabs, flt: spec_fn(Seq<char>) -> bool, t: Pb, r: TryName) -> bool {
    match name_at(s, flt, t.toks) {
        Named::Err => r is Err && is_named(s, flt, t.toks) ==> name_err(s, t.toks, r->Err_0.msg()),
        _ => true,
    }
}
