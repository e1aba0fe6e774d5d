@//  Names: what rustc and syn guarantee of those in a definition, and when generated ones differ.
@text
pub mod nm {
use super::*;
/// rustc: the fields of one struct or variant have different names
pub open spec fn names_differ(fs: Fields) -> bool { fs is Named ==> forall|i: int, j: int| 0 <= i < j < fs@.len() ==> unrawed((#[trigger] fs@[i]).ident->0.text()) != unrawed((#[trigger] fs@[j]).ident->0.text()) }
pub open spec fn nameless(fs: Fields) -> bool { fs is Unnamed ==> forall|i: int| 0 <= i < fs@.len() ==> (#[trigger] fs@[i]).ident is None }
pub open spec fn syn_fields(fs: Fields) -> bool { named_fields(fs) && names_differ(fs) && nameless(fs) }
pub open spec fn syn_variants(v: Seq<Variant>) -> bool { forall|i: int| 0 <= i < v.len() ==> syn_fields((#[trigger] v[i]).fields) }
/// assumed of a definition: rustc rejects others
pub open spec fn syn_def(d: DeriveInput) -> bool { match d.data { Data::Struct(s) => syn_fields(s.fields), Data::Enum(e) => syn_variants(e.variants@), Data::Union(_) => true } }
/// decimals: different numbers are written differently, with digits only
pub broadcast axiom fn disp_inj(a: usize, b: usize) ensures (#[trigger] a.disp()) == (#[trigger] b.disp()) ==> a == b;
pub broadcast axiom fn disp_digits(a: usize, k: int) ensures 0 <= k < a.disp().len() ==> #[trigger] a.disp()[k] != '_';
pub open spec fn var_of(f: Field, i: int) -> Seq<char> { match f.ident { Some(x) => seq!['_'] + unrawed(x.text()), None => seq!['_'] + (i as usize).disp() } }
pub proof fn lemma_vars_differ(fs: Fields, i: int, j: int)
    requires syn_fields(fs), fs@.len() <= usize::MAX, 0 <= i < fs@.len(), 0 <= j < fs@.len(), var_of(fs@[i], i) == var_of(fs@[j], j), !(fs is Unit)
    ensures i == j
{
    broadcast use disp_inj;
    let (a, b) = (var_of(fs@[i], i), var_of(fs@[j], j));
    if fs is Named {
        assert(a.skip(1) =~= unrawed(fs@[i].ident->0.text())); assert(b.skip(1) =~= unrawed(fs@[j].ident->0.text()));
    } else {
        assert(a.skip(1) =~= (i as usize).disp()); assert(b.skip(1) =~= (j as usize).disp());
    }
}
}
use nm::*;
