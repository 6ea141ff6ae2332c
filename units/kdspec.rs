// ---------------------------------------------------------------- ghost model
pub open spec fn cont<const N: usize>(n: KDNode<S, N>) -> Seq<Point<S, N>>
    decreases n
{
    bcont(n.left).push(n.internal_data) + bcont(n.right)
}
pub open spec fn bcont<const N: usize>(b: Option<Box<KDNode<S, N>>>) -> Seq<Point<S, N>>
    decreases b
{
    match b { None => Seq::empty(), Some(n) => cont(*n) }
}
/// the axis a node at this depth is split on
pub open spec fn axis<const N: usize>(depth: int) -> int { depth % (N as int) }
pub open spec fn nan_free<const N: usize>(s: Seq<Point<S, N>>) -> bool { forall|i: int| 0 <= i < s.len() ==> !pnan(#[trigger] s[i]) }
pub open spec fn stored<const N: usize>(s: Seq<Point<S, N>>, p: Point<S, N>) -> bool { exists|i: int| 0 <= i < s.len() && peq(#[trigger] s[i], p) }
pub open spec fn distinct<const N: usize>(s: Seq<Point<S, N>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !peq(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn all_lt<const N: usize>(s: Seq<Point<S, N>>, p: Point<S, N>, d: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).c(d).r() < p.c(d).r() }
pub open spec fn all_ge<const N: usize>(s: Seq<Point<S, N>>, p: Point<S, N>, d: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).c(d).r() >= p.c(d).r() }
/// the axis of the next level
pub open spec fn nxt<const N: usize>(d: int) -> int { (d + 1) % (N as int) }
/// search-tree order: left strictly below, right not below, on axis d, and so on below on the following axes; no NaN
pub open spec fn wf<const N: usize>(n: KDNode<S, N>, d: int) -> bool
    decreases n
{
    &&& nan_free(cont(n))
    &&& all_lt(bcont(n.left), n.internal_data, d)
    &&& all_ge(bcont(n.right), n.internal_data, d)
    &&& bwf(n.left, nxt::<N>(d))
    &&& bwf(n.right, nxt::<N>(d))
}
pub open spec fn bwf<const N: usize>(b: Option<Box<KDNode<S, N>>>, d: int) -> bool
    decreases b
{
    match b { None => true, Some(n) => wf(*n, d) }
}
pub open spec fn tcont<const N: usize>(t: KDTree<S, N>) -> Seq<Point<S, N>> { match t.root { None => Seq::empty(), Some(n) => cont(n) } }
pub open spec fn twf<const N: usize>(t: KDTree<S, N>) -> bool {
    &&& match t.root { None => true, Some(n) => wf(n, 0) }
    &&& t.element_count == tcont(t).len()
    &&& distinct(tcont(t))
}

/// the ways to name the axis of the next level
pub proof fn lemma_axis<const N: usize>(depth: int) requires N > 0, depth >= 0
    ensures 0 <= axis::<N>(depth) < N, axis::<N>(depth) <= depth, axis::<N>(depth + 1) <= depth + 1, axis::<N>(depth + 1) == nxt::<N>(axis::<N>(depth)), axis::<N>(axis::<N>(depth)) == axis::<N>(depth), axis::<N>(axis::<N>(depth + 1)) == axis::<N>(depth + 1),
        axis::<N>(axis::<N>(depth) + 1) == nxt::<N>(axis::<N>(depth))
{
    let n = N as int;
    vstd::arithmetic::div_mod::lemma_mod_bound(depth, n);
    vstd::arithmetic::div_mod::lemma_mod_decreases(depth as nat, n as nat);
    vstd::arithmetic::div_mod::lemma_mod_decreases((depth + 1) as nat, n as nat);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(depth, 1, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(depth % n, 1, n);
    vstd::arithmetic::div_mod::lemma_mod_twice(depth, n);
    vstd::arithmetic::div_mod::lemma_mod_twice(depth + 1, n);
}
pub proof fn lemma_peq_sym<const N: usize>(p: Point<S, N>, q: Point<S, N>) ensures peq(p, q) == peq(q, p) {
    if peq(p, q) { assert(peq(q, p)) by { assert forall|i: int| 0 <= i < N implies s_eq(#[trigger] q.c(i), p.c(i)) by { assert(s_eq(p.c(i), q.c(i))); } } }
    if peq(q, p) { assert(peq(p, q)) by { assert forall|i: int| 0 <= i < N implies s_eq(#[trigger] p.c(i), q.c(i)) by { assert(s_eq(q.c(i), p.c(i))); } } }
}
pub proof fn lemma_peq_axis<const N: usize>(p: Point<S, N>, q: Point<S, N>, d: int) requires peq(p, q), 0 <= d < N ensures p.c(d).r() == q.c(d).r() { assert(s_eq(p.c(d), q.c(d))); }
pub proof fn lemma_no_nan<const N: usize>(p: Point<S, N>, d: int) requires !pnan(p), 0 <= d < N ensures !p.c(d).nan() {}
/// the stored points are exactly the given ones, up to ==
pub open spec fn holds_exactly<const N: usize>(s: Seq<Point<S, N>>, given: Seq<Point<S, N>>) -> bool {
    &&& forall|i: int| 0 <= i < given.len() ==> stored(s, #[trigger] given[i])
    &&& forall|i: int| 0 <= i < s.len() ==> given.contains(#[trigger] s[i])
}
