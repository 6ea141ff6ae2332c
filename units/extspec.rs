// ---- units/extspec.rs: contract of calculate_polygon_extents (proved in ext.vrs, used in pip.vrs) ----
pub type PolygonExtents<P, const N: usize> = [RangeInclusive<P>; N];
/// lo/hi are the smallest and largest d-th coordinate among the first k vertices, both attained
pub open spec fn tight<const N: usize>(a: Seq<Point<S, N>>, k: int, d: int, x: RangeInclusive<S>) -> bool {
    &&& !x.lo.nan() && !x.hi.nan()
    &&& exists|i: int| 0 <= i < k && (#[trigger] a[i]).c(d).r() == x.lo.r()
    &&& exists|i: int| 0 <= i < k && (#[trigger] a[i]).c(d).r() == x.hi.r()
    &&& forall|i: int| 0 <= i < k ==> x.lo.r() <= (#[trigger] a[i]).c(d).r() <= x.hi.r()
}
pub open spec fn ext_post<const N: usize>(a: Seq<Point<S, N>>, r: Option<PolygonExtents<S, N>>) -> bool {
    &&& r is Some == (a.len() >= 3)
    &&& r is Some ==> forall|d: int| 0 <= d < N ==> tight(a, a.len() as int, d, #[trigger] (r->0)[d])
}
