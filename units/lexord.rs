// ---- units/lexord.rs: the lexicographic order on points ----
pub open spec fn cmp_r(x: real, y: real) -> Ordering { if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater } }
/// first difference among the first k coordinates decides
pub open spec fn lexk<const N: usize>(a: Point<S, N>, b: Point<S, N>, k: int) -> Ordering
    decreases k
{
    if k <= 0 { Ordering::Equal } else { match lexk(a, b, k - 1) { Ordering::Equal => cmp_r(a.c(k - 1).r(), b.c(k - 1).r()), o => o } }
}
pub open spec fn lex<const N: usize>(a: Point<S, N>, b: Point<S, N>) -> Ordering { lexk(a, b, N as int) }
impl<const N: usize> VxKey for Point<S, N> { open spec fn vx_cmp(a: Self, b: Self) -> Ordering { lex(a, b) } }
pub open spec fn valid<const N: usize>(a: Seq<Point<S, N>>) -> bool { N != 0 && forall|i: int| 0 <= i < a.len() ==> !pnan(#[trigger] a[i]) }
pub open spec fn lex_sorted_from<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>) -> bool { exists|pi: Seq<int>| #[trigger] stable_by(a, b, pi, vx_key::<Point<S, N>>()) }
pub proof fn lemma_lexk<const N: usize>(a: Point<S, N>, b: Point<S, N>, d: Point<S, N>, k: int)
    requires 0 <= k <= N
    ensures lexk(a, b, k) == rev(lexk(b, a, k)),
        lexk(a, b, k) == Ordering::Equal <==> (forall|i: int| 0 <= i < k ==> (#[trigger] a.c(i)).r() == b.c(i).r()),
        lexk(a, b, k) != Ordering::Greater && lexk(b, d, k) != Ordering::Greater ==> lexk(a, d, k) != Ordering::Greater
            && (lexk(a, d, k) == Ordering::Equal ==> lexk(a, b, k) == Ordering::Equal && lexk(b, d, k) == Ordering::Equal),
    decreases k
{
    if k > 0 {
        lemma_lexk(a, b, d, k - 1);
        lemma_lexk(b, d, a, k - 1);
        lemma_lexk(a, d, b, k - 1);
        if lexk(a, b, k) == Ordering::Equal {
            assert forall|i: int| 0 <= i < k implies (#[trigger] a.c(i)).r() == b.c(i).r() by {}
        } else {
            if forall|i: int| 0 <= i < k ==> (#[trigger] a.c(i)).r() == b.c(i).r() { assert(a.c(k - 1).r() == b.c(k - 1).r()); assert(false); }
        }
        if lexk(a, b, k) != Ordering::Greater && lexk(b, d, k) != Ordering::Greater && lexk(a, d, k - 1) == Ordering::Equal {
            assert(lexk(a, b, k - 1) == Ordering::Equal && lexk(b, d, k - 1) == Ordering::Equal);
        }
    }
}
pub broadcast proof fn lemma_lex_flip<const N: usize>(a: Point<S, N>, b: Point<S, N>) ensures #[trigger] lex(a, b) == rev(lex(b, a)) { lemma_lexk(a, b, a, N as int); }
pub broadcast proof fn lemma_lex_total<const N: usize>(a: Seq<Point<S, N>>) ensures #[trigger] total_on(a, vx_key::<Point<S, N>>())
{
    let c = vx_key::<Point<S, N>>();
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies #[trigger] c(a[i], a[j]) == rev(c(a[j], a[i])) by { lemma_lexk(a[i], a[j], a[j], N as int); }
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < a.len() && 0 <= k < a.len() && #[trigger] c(a[i], a[j]) != Ordering::Greater && #[trigger] c(a[j], a[k]) != Ordering::Greater
        implies c(a[i], a[k]) != Ordering::Greater by { lemma_lexk(a[i], a[j], a[k], N as int); }
}
pub broadcast proof fn lemma_lex_total_ref<'a, const N: usize>(a: Seq<&'a Point<S, N>>) ensures #[trigger] total_on(a, vx_key::<&'a Point<S, N>>())
{
    let c = vx_key::<&'a Point<S, N>>();
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies #[trigger] c(a[i], a[j]) == rev(c(a[j], a[i])) by { lemma_lexk(*a[i], *a[j], *a[j], N as int); }
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < a.len() && 0 <= k < a.len() && #[trigger] c(a[i], a[j]) != Ordering::Greater && #[trigger] c(a[j], a[k]) != Ordering::Greater
        implies c(a[i], a[k]) != Ordering::Greater by { lemma_lexk(*a[i], *a[j], *a[k], N as int); }
}
pub broadcast group gr_lex { lemma_lex_total, lemma_lex_total_ref, lemma_lex_flip }
