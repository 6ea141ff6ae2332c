//@include head.rs seq.rs scalar.rs na.rs extspec.rs pipspec.rs
//@broadcast ax_scalar

/// what the single-point test answers: some function of its arguments, for any arithmetic (no global state, no randomness)
pub uninterp spec fn single(p: P2, g: Seq<P2>) -> bool;
/// discharged in unit pipside (contract of is_single_point_in_polygon)
pub axiom fn ax_single(p: P2, g: Seq<P2>) requires !pnan(p), ok(g), outside_box(p, g) ensures !single(p, g);
/// a point outside the extents on some axis is outside the box
pub proof fn lemma_ext(p: P2, g: Seq<P2>, d: int, x: RangeInclusive<S>)
    requires 0 <= d < 2, tight(g, g.len() as int, d, x), p.c(d).r() < x.lo.r() || p.c(d).r() > x.hi.r() || d == 1 && p.c(d).r() <= x.lo.r()
    ensures outside_box(p, g)
{
    if p.c(d).r() < x.lo.r() { assert forall|i: int| 0 <= i < g.len() implies p.c(d).r() < (#[trigger] g[i]).c(d).r() by {} }
    else if p.c(d).r() > x.hi.r() { assert forall|i: int| 0 <= i < g.len() implies p.c(d).r() > (#[trigger] g[i]).c(d).r() by {} }
    else { assert forall|i: int| 0 <= i < g.len() implies p.c(d).r() <= (#[trigger] g[i]).c(d).r() by {} }
    if d == 0 {} else {}
}
pub open spec fn answers(q: Seq<P2>, g: Seq<P2>, v: Seq<bool>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == single(q[i], g) }

//@fn calculate_polygon_extents assume=ext
//@end
//@fn is_single_point_in_polygon assume=here
@params point polygon
@sig fn is_single_point_in_polygon(point: &Point2<S>, polygon: &[Point2<S>]) -> (r: bool)
@spec
    requires !pnan(*point), ok(polygon@)
    ensures r == single(*point, polygon@)
//@end
//@fn are_multiple_points_in_polygon props=C13
@params points polygon
@sig fn are_multiple_points_in_polygon(points: &[Point2<S>], polygon: &[Point2<S>]) -> (r: Option<Vec<bool>>)
@spec
    requires ok(points@), ok(polygon@)
    ensures r is Some == (polygon@.len() >= 3), r is Some ==> answers(points@, polygon@, r->0@, points@.len() as int)
@loop 0
    answers(points@, polygon@, acc0@, i0 as int),
@loop 1
    n1 == 2, !acc1 ==> outside_box(*current_point, polygon@), current_point == points@[j0 as int],
@loopstart 1
    assert(current_point.coords.vx_view()[j1 as int] == current_point.c(j1 as int));
    assert(!current_point.c(j1 as int).nan());
    assert(tight(polygon@, polygon@.len() as int, j1 as int, polygon_extents[j1 as int]));
    proof { if current_point.c(j1 as int).r() < polygon_extents[j1 as int].lo.r() || current_point.c(j1 as int).r() > polygon_extents[j1 as int].hi.r() || j1 == 1 && current_point.c(1).r() <= polygon_extents[1].lo.r() { lemma_ext(*current_point, polygon@, j1 as int, polygon_extents[j1 as int]); } }
@after 1
    proof { if !acc1 { ax_single(*current_point, polygon@); } }
//@end
} // verus!
fn main() {}
