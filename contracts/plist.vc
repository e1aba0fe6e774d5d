@text
/// what `Punctuated::<T, Token![,]>::parse_terminated` makes of the tokens
pub open spec fn plist(ty: int, t: Seq<Tt>) -> Option<Seq<Val>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) }
    else {
        match leaf(ty, t) {
            None => None,
            Some((v, n)) => {
                let u = t.skip(n as int);
                if n > t.len() || u.len() == 0 { Some(seq![v]) }
                else if !punct1(u, ',') { None }
                else { match plist(ty, u.skip(1)) { Some(r) => Some(seq![v] + r), None => None } }
            }
        }
    }
}
