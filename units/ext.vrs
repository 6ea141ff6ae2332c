//@include head.rs seq.rs scalar.rs na.rs extspec.rs
//@broadcast ax_scalar

/// accumulator after some vertices: the starting range, or tight
pub open spec fn acc_ok<const N: usize>(a: Seq<Point<S, N>>, k: int, d: int, x: RangeInclusive<S>) -> bool {
    if k == 0 { x.lo == s_max() && x.hi == s_min() } else { tight(a, k, d, x) }
}
pub proof fn lemma_step<const N: usize>(a: Seq<Point<S, N>>, k: int, d: int, x: RangeInclusive<S>, y: RangeInclusive<S>)
    requires 0 <= k < a.len(), acc_ok(a, k, d, x), !a[k].c(d).nan(), !s_max().nan(), !s_min().nan(),
        y.lo == x.lo || y.lo == a[k].c(d), y.lo.r() <= x.lo.r() && y.lo.r() <= a[k].c(d).r(),
        y.hi == x.hi || y.hi == a[k].c(d), y.hi.r() >= x.hi.r() && y.hi.r() >= a[k].c(d).r(),
        a[k].c(d).r() <= s_max().r(), a[k].c(d).r() >= s_min().r(),
    ensures tight(a, k + 1, d, y)
{
    if k > 0 {
        let i = choose|i: int| 0 <= i < k && (#[trigger] a[i]).c(d).r() == x.lo.r();
        let j = choose|i: int| 0 <= i < k && (#[trigger] a[i]).c(d).r() == x.hi.r();
        assert(a[i].c(d).r() == x.lo.r() && a[j].c(d).r() == x.hi.r());
        if y.lo == x.lo { assert(a[i].c(d).r() == y.lo.r()); } else { assert(a[k].c(d).r() == y.lo.r()); }
        if y.hi == x.hi { assert(a[j].c(d).r() == y.hi.r()); } else { assert(a[k].c(d).r() == y.hi.r()); }
    } else {
        assert(a[k].c(d).r() == y.lo.r() && a[k].c(d).r() == y.hi.r());
    }
}
pub open spec fn fresh(v: Seq<RangeInclusive<S>>, k: int) -> bool { v.len() == k && forall|d: int| 0 <= d < k ==> (#[trigger] v[d]).lo == s_max() && v[d].hi == s_min() }

//@fn calculate_polygon_extents props=C11,C13
@params polygon
@sig fn calculate_polygon_extents<const N: usize>(polygon: &[Point<S, N>]) -> (r: Option<PolygonExtents<S, N>>)
@spec
    requires forall|i: int| 0 <= i < polygon@.len() ==> !pnan(#[trigger] polygon@[i])
    ensures ext_post(polygon@, r)
@loop 0
    fresh(b0.v@, i0 as int),
@loop 1
    forall|d: int| 0 <= d < N ==> acc_ok(polygon@, i1 as int, d, #[trigger] extents_accumulator[d]),
@loop 2
    n2 == N, forall|d: int| i2 <= d < N ==> acc_ok(polygon@, j1 as int, d, #[trigger] extents_accumulator[d]),
    forall|d: int| 0 <= d < i2 ==> tight(polygon@, j1 + 1, d, #[trigger] extents_accumulator[d]),
@loopstart 2
    assert(vertex.coords.vx_view()[j2 as int] == vertex.c(j2 as int));
    assert(!vertex.c(j2 as int).nan());
    proof { ax_max(vertex.c(j2 as int)); ax_min(vertex.c(j2 as int)); }
    let ghost old_acc = extents_accumulator;
@loopend 2
    proof { lemma_step(polygon@, j1 as int, j2 as int, old_acc[j2 as int], extents_accumulator[j2 as int]); }
//@end
} // verus!
fn main() {}
