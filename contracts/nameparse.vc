@include nameread.vc
@text
// ---- C07: text of the diagnostics ----------------------------------------------------
pub open spec fn push_if(s: Seq<Seq<char>>, c: bool, x: Seq<char>) -> Seq<Seq<char>> { if c { s.push(x) } else { s } }
pub open spec fn accepted(s: Tabs, n: Seq<char>) -> Seq<Seq<char>> {
    push_if(push_if(push_if(Seq::empty(), s.f.takes(n), "flag `"@ + n + "`"@),
        s.v.takes(n), "`"@ + n + " = ...`"@),
        s.a.takes(n), "`"@ + n + "(...)`"@)
}
pub open spec fn found_text(w: Option<Style>, n: Seq<char>) -> Seq<char> {
    match w {
        None => Seq::empty(),
        Some(Style::Flag) => ", found "@ + ("`"@ + n + "`"@),
        Some(Style::NameValue) => ", found "@ + ("`"@ + n + " = ...`"@),
        Some(Style::NameArgs) => ", found "@ + ("`"@ + n + "`(...)"@),
    }
}
/// `a`, `a or b`, `a, b or c`
pub open spec fn joined(e: Seq<Seq<char>>, k: int) -> Seq<char>
    decreases k
{
    if k <= 0 { "expected "@ }
    else if k == 1 { "expected "@ + e[0] }
    else { joined(e, k - 1) + (if k == e.len() { " or "@ } else { ", "@ }) + e[k - 1] }
}
pub open spec fn one_edit(a: Seq<char>, b: Seq<char>) -> bool {
    (a.len() == b.len() && exists|i: int| 0 <= i < a.len() && #[trigger] a.update(i, b[i]) == b)
    || (a.len() + 1 == b.len() && exists|i: int| 0 <= i < b.len() && #[trigger] b.remove(i) == a)
    || (b.len() + 1 == a.len() && exists|i: int| 0 <= i < a.len() && #[trigger] a.remove(i) == b)
}
pub open spec fn swapped(a: Seq<char>, i: int) -> Seq<char> { a.update(i, a[i + 1]).update(i + 1, a[i]) }
pub open spec fn adj_swap(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && exists|i: int| 0 <= i && i + 1 < a.len() && #[trigger] swapped(a, i) == b
}
pub open spec fn dist(a: Seq<char>, b: Seq<char>) -> Option<int> {
    if a == b { Some(0) } else if one_edit(a, b) { Some(1) } else if adj_swap(a, b) { Some(2) } else { None }
}
pub open spec fn all_names(s: Tabs) -> Seq<Seq<char>> { s.f.names + s.v.names + s.a.names }
/// `c` is strictly closer to `n` than every other name of `all`
pub open spec fn closest(all: Seq<Seq<char>>, n: Seq<char>, c: Seq<char>) -> bool {
    all.contains(c) && dist(n, c) is Some
    && forall|o: Seq<char>| #[trigger] all.contains(o) && o != c ==> dist(n, o) is None || dist(n, o)->0 > dist(n, c)->0
}
/// the error for the named argument at the head of `t`
pub open spec fn name_err(s: Tabs, t: Seq<Tt>, e: Seq<char>) -> bool {
    let n = (ident_head(t)->0).0;
    let acc = accepted(s, n);
    if acc.len() > 0 {
        let w = written(t.skip(1));
        e == joined(acc, acc.len() as int) + found_text(w, n)
    } else {
        let base = "cannot find parameter `"@ + n + "` in this scope"@;
        (exists|c: Seq<char>| #[trigger] closest(all_names(s), n, c)
            && e == base + (" (help: a parameter with a similar name exists: `"@ + c + "`)"@))
        || ((forall|c: Seq<char>| !#[trigger] closest(all_names(s), n, c)) && e == base)
    }
}
pub proof fn lemma_first(s: Seq<Seq<char>>, n: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == n, forall|j: int| 0 <= j < i ==> #[trigger] s[j] != n
    ensures s.contains(n), s.index_of_first(n) == Some(i)
{
    s.index_of_first_ensures(n);
    let k = s.index_of_first(n)->0;
    if k != i { assert(s[k] == n); assert(s[i] == n); assert(false); }
}
pub open spec fn is_first(names: Seq<&str>, n: Seq<char>, i: int) -> bool {
    0 <= i < names.len() && names[i]@ == n && forall|j: int| 0 <= j < i ==> #[trigger] names[j]@ != n
}
pub proof fn lemma_lookup(names: Seq<&str>, n: Seq<char>)
    ensures
        forall|i: int| #[trigger] is_first(names, n, i) ==> strs(names).contains(n) && strs(names).index_of_first(n) == Some(i),
        (forall|j: int| 0 <= j < names.len() ==> #[trigger] names[j]@ != n) ==> !strs(names).contains(n),
{
    let s = strs(names);
    assert(forall|j: int| 0 <= j < names.len() ==> s[j] == #[trigger] names[j]@);
    assert forall|i: int| #[trigger] is_first(names, n, i) implies s.contains(n) && s.index_of_first(n) == Some(i) by {
        assert(s[i] == names[i]@);
        assert forall|j: int| 0 <= j < i implies #[trigger] s[j] != n by { assert(names[j]@ != n); }
        lemma_first(s, n, i);
    }
}
// ---- lemmas for `distance` --------------------------------------------------------------
pub proof fn lemma_dist_sym(a: Seq<char>, b: Seq<char>)
    ensures dist(a, b) == dist(b, a)
{
    if one_edit(a, b) { lemma_edit_sym(a, b); }
    if one_edit(b, a) { lemma_edit_sym(b, a); }
    if adj_swap(a, b) { lemma_swap_sym(a, b); }
    if adj_swap(b, a) { lemma_swap_sym(b, a); }
}
proof fn lemma_edit_sym(a: Seq<char>, b: Seq<char>)
    requires one_edit(a, b)
    ensures one_edit(b, a)
{
    if a.len() == b.len() {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a.update(i, b[i]) == b;
        assert(b.update(i, a[i]) =~= a) by { assert(a.update(i, b[i]) == b); }
        assert(0 <= i < b.len());
    } else if a.len() + 1 == b.len() {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b.remove(i) == a;
        assert(b.remove(i) == a);
    } else {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a.remove(i) == b;
        assert(a.remove(i) == b);
    }
}
proof fn lemma_swap_sym(a: Seq<char>, b: Seq<char>)
    requires adj_swap(a, b)
    ensures adj_swap(b, a)
{
    let i = choose|i: int| 0 <= i && i + 1 < a.len() && #[trigger] swapped(a, i) == b;
    assert(swapped(b, i) =~= a);
    assert(0 <= i && i + 1 < b.len());
}
/// a: the shorter; p = length of the common prefix, q = length of the longest common suffix
/// outside the prefix
pub proof fn lemma_distance(a: Seq<char>, b: Seq<char>, p: int, q: int)
    requires
        a.len() <= b.len(), 0 <= p, 0 <= q, p + q <= a.len(),
        forall|j: int| 0 <= j < p ==> a[j] == b[j],
        forall|j: int| a.len() - q <= j < a.len() ==> #[trigger] a[j] == b[j + b.len() - a.len()],
        p == a.len() || a[p] != b[p],
        p + q == a.len() || a[a.len() - 1 - q] != b[b.len() - 1 - q],
    ensures
        dist(a, b) == (
            if a.len() == b.len() {
                if p + q == a.len() { Some(0int) }
                else if p + q + 1 == a.len() { Some(1) }
                else if p + q + 2 == a.len() && a[p] == b[p + 1] && a[p + 1] == b[p] { Some(2) }
                else { None }
            } else if a.len() + 1 == b.len() && p + q == a.len() { Some(1) }
            else { None }),
{
    let n = a.len() as int;
    if a.len() == b.len() {
        if p + q == n {
            assert forall|j: int| 0 <= j < n implies a[j] == b[j] by {
                if j >= p { assert(a[j] == b[j + b.len() - a.len()]); }
            }
            assert(a =~= b);
        } else {
            assert(a[n - 1 - q] != b[n - 1 - q]);
            assert(a != b);
            assert(a[p] != b[p]);
            if p + q + 1 == n {
                assert(a.update(p, b[p]) =~= b) by {
                    assert forall|j: int| 0 <= j < n implies a.update(p, b[p])[j] == b[j] by {
                        if j > p { assert(a[j] == b[j + b.len() - a.len()]); }
                    }
                }
                assert(one_edit(a, b));
            } else {
                if one_edit(a, b) {
                    let i = choose|i: int| 0 <= i < a.len() && #[trigger] a.update(i, b[i]) == b;
                    let u = a.update(i, b[i]);
                    assert(u[p] == b[p]); assert(i == p);
                    assert(u[n - 1 - q] == b[n - 1 - q]);
                    assert(false);
                }
                if p + q + 2 == n && a[p] == b[p + 1] && a[p + 1] == b[p] {
                    assert(swapped(a, p) =~= b) by {
                        assert forall|j: int| 0 <= j < n implies swapped(a, p)[j] == b[j] by {
                            if j > p + 1 { assert(a[j] == b[j + b.len() - a.len()]); }
                        }
                    }
                    assert(adj_swap(a, b));
                } else if adj_swap(a, b) {
                    let i = choose|i: int| 0 <= i && i + 1 < a.len() && #[trigger] swapped(a, i) == b;
                    let u = swapped(a, i);
                    assert(u[p] == b[p]);
                    assert(u[n - 1 - q] == b[n - 1 - q]);
                    assert(p == i || p == i + 1);
                    assert(n - 1 - q == i || n - 1 - q == i + 1);
                    if p == i + 1 { assert(n - 1 - q == i + 1); assert(false); }
                    if n - 1 - q == i { assert(p == i); assert(false); }
                    assert(u[i] == a[i + 1]);
                    assert(u[i + 1] == a[i]);
                    assert(b[i + 1] == a[i]);
                    assert(false);
                }
            }
        }
    } else if a.len() + 1 == b.len() {
        assert(a != b);
        assert(!adj_swap(a, b));
        if p + q == n {
            assert(b.remove(p) =~= a) by {
                assert forall|j: int| 0 <= j < n implies b.remove(p)[j] == a[j] by {
                    if j >= p { assert(a[j] == b[j + b.len() - a.len()]); }
                }
            }
            assert(0 <= p < b.len());
            assert(one_edit(a, b));
        } else if one_edit(a, b) {
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b.remove(i) == a;
            let u = b.remove(i);
            assert(u.len() == n);
            if i > p { assert(u[p] == b[p]); assert(false); }
            // i <= p: everything from p on is shifted
            assert(forall|j: int| p <= j < n ==> u[j] == b[j + 1]);
            assert(u[n - 1 - q] == b[n - q]);
            assert(false);
        }
    } else {
        assert(a != b);
        assert(!one_edit(a, b));
        assert(!adj_swap(a, b));
    }
}
