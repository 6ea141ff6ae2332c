//@include head.rs seq.rs scalar.rs na.rs pipspec.rs
//@broadcast ax_scalar

/// what the ray test of one edge is bound to, whatever the arithmetic of the crossing computes (NaN included)
pub open spec fn bound_to(p: P2, a: P2, b: P2, r: bool) -> bool {
    &&& r ==> spans(p, a, b) && px(p) <= hi(px(a), px(b))
    &&& spans(p, a, b) && px(p) <= lo(px(a), px(b)) ==> r
}
pub open spec fn below(p: P2, q: P2) -> bool { py(q) < py(p) }
/// what is known about the number of crossings among the first k edges
pub open spec fn count_ok(p: P2, g: Seq<P2>, k: int, acc: int) -> bool {
    &&& 0 <= acc <= k
    &&& left_of(p, g) && g.len() > 0 ==> ((acc % 2 == 1) == (below(p, g[0]) != below(p, g[k % (g.len() as int)])))
    &&& apart(p, g) ==> acc == 0
}

//@fn does_ray_intersect_polygon_segment props=C13
@params point vertex1 vertex2
@sig fn does_ray_intersect_polygon_segment(point: &Vector2<S>, vertex1: Point2<S>, vertex2: Point2<S>) -> (r: bool)
@spec
    requires !pnan(Point { coords: *point }), !pnan(vertex1), !pnan(vertex2)
    ensures bound_to(Point { coords: *point }, vertex1, vertex2, r)
@start
    let ghost p: P2 = Point { coords: *point };
    assert(!p.c(0).nan() && !p.c(1).nan() && !vertex1.c(0).nan() && !vertex1.c(1).nan() && !vertex2.c(0).nan() && !vertex2.c(1).nan());
//@end

//@fn is_single_point_in_polygon props=C13
@params point polygon
@sig fn is_single_point_in_polygon(point: &Point2<S>, polygon: &[Point2<S>]) -> (r: bool)
@spec
    requires !pnan(*point), ok(polygon@)
    ensures outside_box(*point, polygon@) ==> !r
@loop 0
    count_ok(*point, polygon@, i0 as int, acc0 as int),
@loopstart 0
    let ghost n = polygon@.len() as int;
    proof {
        vstd::arithmetic::div_mod::lemma_small_mod(j0 as nat, n as nat);
        assert(0 <= (j0 + 1) % n < n);
    }
@after 0
    proof { let n = polygon@.len() as int; if n > 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } }
//@end
} // verus!
fn main() {}
