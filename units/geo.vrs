//@include head.rs seq.rs scalar.rs exact.rs na.rs nalin.rs trig.rs geospec.rs
//@broadcast ax_scalar, ax_exact, ax_rem

/// the product of three numbers in any order
proof fn lemma_mul3(a: real, b: real, c: real)
    ensures a * b * c == a * (b * c), b * c * a == a * (b * c), c * b * a == a * (b * c), b * a * c == a * (b * c), c * a * b == a * (b * c), a * c * b == a * (b * c), b * (a * c) == a * (b * c), c * (a * b) == a * (b * c),
{
    assert(a * b * c == a * (b * c) && b * c * a == a * (b * c) && c * b * a == a * (b * c)) by(nonlinear_arith);
    assert(b * a * c == a * (b * c) && c * a * b == a * (b * c) && a * c * b == a * (b * c)) by(nonlinear_arith);
    assert(b * (a * c) == a * (b * c) && c * (a * b) == a * (b * c)) by(nonlinear_arith);
}
//@fn calculate_haversine_distance props=C20
@params point_a point_b sphere_radius
@sig fn calculate_haversine_distance(point_a: Point<S, 2>, point_b: Point<S, 2>, sphere_radius: S) -> (r: S)
@spec
    requires num(point_a), num(point_b), !sphere_radius.nan()
    ensures !r.nan(), exists|c: real| #[trigger] angle_between(c, vec_of(point_a), vec_of(point_b)) && r.r() == sphere_radius.r() * c
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan());
@end
    proof {
        let (p1, l1, p2, l2) = (rad(point_a.c(0).r()), rad(point_a.c(1).r()), rad(point_b.c(0).r()), rad(point_b.c(1).r()));
        lemma_rad(point_a.c(0).r(), point_b.c(0).r());
        lemma_rad(point_a.c(1).r(), point_b.c(1).r());
        lemma_haversine(p1, l1, p2, l2);
        let h = hav_of(p1, l1, p2, l2);
        assert(hav(p2 - p1) + hav(l2 - l1) * cos(p1) * cos(p2) == h);
        lemma_mul3(hav(l2 - l1), cos(p1), cos(p2));
        assert(hav(p2 - p1) + hav(l2 - l1) * (cos(p1) * cos(p2)) == h);
        lemma_half_angle(h);
        let c = 2real * atan2(sqrt(h), sqrt(1real - h));
        lemma_mul3(sphere_radius.r(), 2real, atan2(sqrt(h), sqrt(1real - h)));
        assert(angle_between(c, vec_of(point_a), vec_of(point_b)));
    }
//@end

//@fn calculate_sphere_bearing props=C21
@params point_a point_b
@sig fn calculate_sphere_bearing(point_a: Point<S, 2>, point_b: Point<S, 2>) -> (r: S)
@spec
    requires num(point_a), num(point_b)
    ensures !r.nan(), azimuth(r.r(), point_a, point_b)
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan());
    proof { ax_pi(); }
@end
    proof {
        let (p1, l1, p2, l2) = (rad(point_a.c(0).r()), rad(point_a.c(1).r()), rad(point_b.c(0).r()), rad(point_b.c(1).r()));
        lemma_rad(point_a.c(1).r(), point_b.c(1).r());
        lemma_frame(p1, l1, p2, l2);
        let (n, e) = (dot(vec_of(point_b), north(p1, l1)), dot(vec_of(point_b), east(l1)));
        ax_pi(); ax_atan2(e, n);
        lemma_azimuth(point_a, point_b, vx_ret.r());
    }
//@end
} // verus!
fn main() {}
