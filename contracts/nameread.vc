@text
// ---------------------------------------------------------------------------
// Specification of argument classification (C06) and its diagnostics (C07)
// ---------------------------------------------------------------------------
pub ghost enum Style { Flag, NameValue, NameArgs }
/// the style shown by the tokens after the name
pub open spec fn eq_op(t: Seq<Tt>) -> bool { punct1(t, '=') && !punct2(t, '=', '=') && !punct2(t, '=', '>') }
pub open spec fn written(t: Seq<Tt>) -> Option<Style> {
    if t.len() == 0 || punct1(t, ',') { Some(Style::Flag) }
    else if eq_op(t) { Some(Style::NameValue) }
    else if group1(t, Dl::Paren) { Some(Style::NameArgs) }
    else { None }
}
pub ghost struct Tab { pub names: Seq<Seq<char>>, pub rest: bool }
pub ghost struct Tabs { pub f: Tab, pub v: Tab, pub a: Tab, pub no_unnamed: bool }
impl Tabs {
    pub open spec fn of(self, s: Style) -> Tab { match s { Style::Flag => self.f, Style::NameValue => self.v, Style::NameArgs => self.a } }
}
impl Tab {
    pub open spec fn declared(self) -> bool { self.names.len() > 0 || self.rest }
    pub open spec fn takes(self, n: Seq<char>) -> bool { self.names.contains(n) || self.rest }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map(|i: int, x: &str| x@) }
/// C06: the argument at the head of `t` is a named one
pub open spec fn is_named(s: Tabs, flt: spec_fn(Seq<char>) -> bool, t: Seq<Tt>) -> bool {
    match ident_head(t) {
        Some((n, _)) => flt(n) && (s.no_unnamed || match written(t.skip(1)) { Some(w) => s.of(w).declared(), None => false }),
        None => false,
    }
}
/// index of a name: its position in the style's table, or (rest map) the name itself
pub ghost enum Idx { At(int), Rest(Seq<char>) }
pub open spec fn lookup(t: Tab, n: Seq<char>) -> Option<Idx> {
    if t.names.contains(n) { Some(Idx::At(t.names.index_of_first(n).unwrap())) } else if t.rest { Some(Idx::Rest(n)) } else { None }
}
pub ghost enum Named { Unnamed, Err, Taken(Style, Idx, int, nat) }
/// what happens to the argument at the head of `t`
#[verifier::opaque] pub open spec fn name_at(s: Tabs, flt: spec_fn(Seq<char>) -> bool, t: Seq<Tt>) -> Named {
    if is_named(s, flt, t) {
        let (n, sp) = ident_head(t)->0;
        match written(t.skip(1)) {
            Some(w) => match lookup(s.of(w), n) {
                Some(i) => Named::Taken(w, i, sp, if w == Style::NameValue { 2 } else { 1 }),
                None => Named::Err,
            },
            None => Named::Err,
        }
    } else if s.no_unnamed { Named::Err } else { Named::Unnamed }
}

