@text
pub enum MacroDelimiter { Paren(Paren), Brace(Brace), Bracket(Bracket) }
pub open spec fn md_delim(m: MacroDelimiter) -> Dl { match m { MacroDelimiter::Paren(_) => Dl::Paren, MacroDelimiter::Brace(_) => Dl::Brace, MacroDelimiter::Bracket(_) => Dl::Bracket } }
pub open spec fn md_span(m: MacroDelimiter) -> int { match m { MacroDelimiter::Paren(p) => p.span@, MacroDelimiter::Brace(p) => p.span@, MacroDelimiter::Bracket(p) => p.span@ } }
/// C15: what parsing a MacroDelimiter does
pub open spec fn md_parsed(b: Pb, after: Pb, r: Result<(MacroDelimiter, ParseBuffer)>) -> bool {
  match r {
    Ok((m, c)) => b.toks.len() > 0 && b.toks[0] is Group
        && b.toks[0] == Tt::Group(md_delim(m), c@.toks, md_span(m)) && c@ == (Pb { toks: b.toks[0]->Group_1, scope: grp_scope(b.toks[0]), unexp: false })
        && after == b.adv(1),
    Err(e) => !(b.toks.len() > 0 && b.toks[0] is Group) && after == b && e.sp() == b.here(),
  }
}
#[verifier::external_body] pub struct TokenStream { _p: u8 }
impl View for TokenStream { type V = Seq<Tt>; uninterp spec fn view(&self) -> Seq<Tt>; }
