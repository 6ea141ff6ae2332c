// ---- shim/sort.rs: std's stable merge sort ----
/// pi enumerates 0..n
pub open spec fn is_perm(pi: Seq<int>, n: int) -> bool {
    &&& pi.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pi[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pi[i] != #[trigger] pi[j]
    &&& forall|v: int| #![trigger is_val(v)] is_val(v) && 0 <= v < n ==> exists|i: int| 0 <= i < n && pi[i] == v
}
pub open spec fn is_val(v: int) -> bool { true }
/// b is a stably sorted by cmp; pi[i] is the place in a of the i-th element of b
pub open spec fn stable_by<P>(a: Seq<P>, b: Seq<P>, pi: Seq<int>, cmp: spec_fn(P, P) -> Ordering) -> bool {
    &&& b.len() == a.len()
    &&& is_perm(pi, a.len() as int)
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[pi[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> cmp(#[trigger] b[i], #[trigger] b[j]) != Ordering::Greater && (cmp(b[i], b[j]) == Ordering::Equal ==> pi[i] < pi[j])
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
/// cmp is a total preorder on the elements of a
pub open spec fn total_on<P>(a: Seq<P>, cmp: spec_fn(P, P) -> Ordering) -> bool {
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> #[trigger] cmp(a[i], a[j]) == rev(cmp(a[j], a[i]))
    &&& forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < a.len() && 0 <= k < a.len() && #[trigger] cmp(a[i], a[j]) != Ordering::Greater && #[trigger] cmp(a[j], a[k]) != Ordering::Greater
        ==> cmp(a[i], a[k]) != Ordering::Greater
}
/// every call of f on elements of a is allowed and returns what cmp says
pub open spec fn computes<P, Fc: Fn(&P, &P) -> Ordering>(f: Fc, a: Seq<P>, cmp: spec_fn(P, P) -> Ordering) -> bool {
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> #[trigger] f.requires((&a[i], &a[j]))
    &&& forall|i: int, j: int, o: Ordering| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] f.ensures((&a[i], &a[j]), o) ==> o == cmp(a[i], a[j])
}
/// the order a unit expects elements of this type to be sorted by
pub trait VxKey: Sized { spec fn vx_cmp(a: Self, b: Self) -> Ordering; }
impl<'a, P: VxKey> VxKey for &'a P { open spec fn vx_cmp(a: &'a P, b: &'a P) -> Ordering { P::vx_cmp(*a, *b) } }
pub open spec fn vx_key<P: VxKey>() -> spec_fn(P, P) -> Ordering { |a: P, b: P| P::vx_cmp(a, b) }
pub trait VxSort<P: VxKey> {
    spec fn vx_srt(&self) -> Seq<P>;
    fn vx_sort_by<Fc: Fn(&P, &P) -> Ordering>(&mut self, f: Fc)
        requires computes(f, old(self).vx_srt(), vx_key::<P>()), total_on(old(self).vx_srt(), vx_key::<P>()),
        ensures exists|pi: Seq<int>| #[trigger] stable_by(old(self).vx_srt(), final(self).vx_srt(), pi, vx_key::<P>());
}
impl<P: VxKey> VxSort<P> for [P] {
    open spec fn vx_srt(&self) -> Seq<P> { self@ }
    #[verifier::external_body]
    fn vx_sort_by<Fc: Fn(&P, &P) -> Ordering>(&mut self, f: Fc) { unimplemented!() }
}
impl<P: VxKey> VxSort<P> for Vec<P> {
    open spec fn vx_srt(&self) -> Seq<P> { self@ }
    #[verifier::external_body]
    fn vx_sort_by<Fc: Fn(&P, &P) -> Ordering>(&mut self, f: Fc) { unimplemented!() }
}
/// a stable sort has one result only, so any two variants agree
pub proof fn lemma_stable_unique<P>(a: Seq<P>, b1: Seq<P>, p1: Seq<int>, b2: Seq<P>, p2: Seq<int>, cmp: spec_fn(P, P) -> Ordering, k: int)
    requires stable_by(a, b1, p1, cmp), stable_by(a, b2, p2, cmp), total_on(a, cmp), 0 <= k <= a.len()
    ensures forall|i: int| 0 <= i < k ==> p1[i] == p2[i] && #[trigger] b1[i] == b2[i]
    decreases k
{
    if k > 0 {
        let q = k - 1;
        lemma_stable_unique(a, b1, p1, b2, p2, cmp, q);
        assert forall|i: int| 0 <= i < q implies p1[i] == p2[i] by { let _ = b1[i]; }
        if p1[q] != p2[q] {
            assert(is_val(p1[q]) && is_val(p2[q]));
            let m = choose|i: int| 0 <= i < a.len() && p2[i] == p1[q];
            let n = choose|i: int| 0 <= i < a.len() && p1[i] == p2[q];
            assert(m > q) by { if m < q { assert(p1[m] == p2[m]); assert(p1[m] != p1[q]); } }
            assert(n > q) by { if n < q { assert(p1[n] == p2[n]); assert(p2[n] != p2[q]); } }
            let x = p1[q]; let y = p2[q];
            assert(b2[q] == a[y] && b2[m] == a[x]);
            assert(b1[q] == a[x] && b1[n] == a[y]);
            assert(cmp(b2[q], b2[m]) != Ordering::Greater);
            assert(cmp(b1[q], b1[n]) != Ordering::Greater);
            assert(cmp(a[x], a[y]) == rev(cmp(a[y], a[x])));
            assert(false);
        }
        assert(b1[q] == b2[q]);
    }
}
