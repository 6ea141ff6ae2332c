// ---- units/voxspec.rs: voxels ----
/// the cell of a point: per axis the floor of coordinate / size
pub open spec fn cellof<const N: usize>(p: Point<S, N>, w: S) -> Seq<int> { Seq::new(N as nat, |i: int| (p.c(i).r() / w.r()).floor()) }
pub open spec fn key_is(k: Seq<isize>, c: Seq<int>) -> bool { k.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] k[i] == c[i] }
pub open spec fn fits<const N: usize>(p: Point<S, N>, w: S) -> bool { forall|i: int| 0 <= i < N ==> isize::MIN <= #[trigger] cellof(p, w)[i] <= isize::MAX }
/// the points among the first k whose cell is key, in order
pub open spec fn members<const N: usize>(a: Seq<Point<S, N>>, w: S, key: Seq<isize>, k: int) -> Seq<Point<S, N>> decreases k {
    if k <= 0 { Seq::empty() } else if key_is(key, cellof(a[k - 1], w)) { members(a, w, key, k - 1).push(a[k - 1]) } else { members(a, w, key, k - 1) }
}
/// the map after the first k points
pub open spec fn binned<const N: usize>(a: Seq<Point<S, N>>, w: S, m: Map<Seq<isize>, Seq<Point<S, N>>>, k: int) -> bool {
    forall|key: Seq<isize>| #![trigger m.dom().contains(key)] #![trigger m[key]] m.dom().contains(key) == (members(a, w, key, k).len() > 0) && (m.dom().contains(key) ==> m[key] == members(a, w, key, k))
}
/// one mean per occupied cell, every point in the cell of exactly one of them
pub open spec fn voxels<const N: usize>(a: Seq<Point<S, N>>, w: S, ks: Seq<Seq<isize>>, v: Seq<Point<S, N>>) -> bool {
    &&& ks.len() == v.len()
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|j: int| 0 <= j < ks.len() ==> members(a, w, #[trigger] ks[j], a.len() as int).len() > 0 && is_mean(members(a, w, ks[j], a.len() as int), v[j])
    &&& forall|i: int| 0 <= i < a.len() ==> has_key(ks, cellof(#[trigger] a[i], w))
}
pub open spec fn has_key(ks: Seq<Seq<isize>>, c: Seq<int>) -> bool { exists|j: int| 0 <= j < ks.len() && key_is(#[trigger] ks[j], c) }
