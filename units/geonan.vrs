//@include head.rs seq.rs scalar.rs na.rs nalin.rs trig.rs
//@broadcast ax_scalar, ax_rnd_mono, ax_zero, ax_one, ax_rem

/// doubling is exact (binary floating point short of overflow)
axiom fn ax_rnd_idem(x: real) ensures rnd(rnd(x)) == rnd(x);
axiom fn ax_double(x: real) ensures rnd(2real * x) == 2real * rnd(x);
proof fn lemma_root(x: real) requires x >= 0real ensures sqrt(x) >= 0real, x == 0real ==> sqrt(x) == 0real, x > 0real ==> sqrt(x) > 0real, x == 1real ==> sqrt(x) == 1real {
    ax_sqrt(x); let s = sqrt(x);
    assert(x == 0real ==> s == 0real) by(nonlinear_arith) requires s * s == x;
    assert(x > 0real ==> s != 0real) by(nonlinear_arith) requires s * s == x;
    assert(x == 1real ==> s == 1real) by(nonlinear_arith) requires s * s == x, s >= 0real;
}
proof fn lemma_atan0(x: real) requires x > 0real ensures atan2(0real, x) == 0real {
    ax_pi(); ax_atan2(0real, x); ax_zero_angle();
    let t = atan2(0real, x); let q = x * x + 0real * 0real; let s = sqrt(q);
    assert(q > 0real) by(nonlinear_arith) requires q == x * x + 0real * 0real, x > 0real;
    ax_sqrt(q); lemma_root(q);
    assert(s == x) by(nonlinear_arith) requires s * s == x * x + 0real * 0real, s > 0real, x > 0real;
    assert(cos(t) == 1real) by(nonlinear_arith) requires s * cos(t) == x, s == x, x > 0real;
    if t > 0real { ax_cos_mono(0real, t); }
}
//@fn calculate_haversine_distance props=C20
@params point_a point_b sphere_radius
@sig fn calculate_haversine_distance(point_a: Point<S, 2>, point_b: Point<S, 2>, sphere_radius: S) -> (r: S)
@spec
    requires !pnan(point_a), !pnan(point_b), !sphere_radius.nan()
    ensures !r.nan(),
        sphere_radius.r() >= 0real ==> 0real <= r.r() <= rnd(sphere_radius.r() * rnd(2real * rnd(pi() / 2real))),
        peq(point_a, point_b) ==> r.r() == 0real
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan());
    proof {
        ax_pi(); ax_zero_angle();
        assert(peq(point_a, point_b) ==> point_a.c(0).r() == point_b.c(0).r() && point_a.c(1).r() == point_b.c(1).r());
        assert(rad(0real) == 0real) by(nonlinear_arith);
        assert forall|y: real, x: real| y >= 0real && x >= 0real implies 0real <= #[trigger] atan2(y, x) && rnd(0real) <= rnd(atan2(y, x)) && rnd(atan2(y, x)) <= rnd(pi() / 2real) by { ax_atan2(y, x); }
        ax_double(1real); ax_double(rnd(pi() / 2real)); ax_rnd_idem(pi() / 2real); ax_double(sphere_radius.r());
        let (rr, m) = (sphere_radius.r(), rnd(2real * rnd(pi() / 2real)));
        assert forall|a: S, b: S| !a.nan() && !b.nan() && a.r() >= 0real && b.r() >= 0real implies (#[trigger] s_mul(a, b)).r() >= 0real by {
            let (x, y) = (a.r(), b.r());
            assert(x * y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real;
            assert(rnd(0real) <= rnd(x * y));
        }
        assert forall|a: S, b: S| !a.nan() && !b.nan() && (a.r() == 0real || b.r() == 0real) implies (#[trigger] s_mul(a, b)).r() == 0real by {
            let (x, y) = (a.r(), b.r());
            assert(x * y == 0real) by(nonlinear_arith) requires x == 0real || y == 0real;
        }
        assert forall|a: S, b: S| !a.nan() && !b.nan() && a.r() == 0real && b.r() != 0real implies (#[trigger] s_div(a, b)).r() == 0real by {
            let (x, y) = (a.r(), b.r());
            assert(x / y == 0real) by(nonlinear_arith) requires x == 0real, y != 0real;
        }
        assert forall|a: S| (#[trigger] a.r()) == 0real implies a.r() * a.r() == 0real by { let x = a.r(); assert(x * x == 0real) by(nonlinear_arith) requires x == 0real; }
        assert(rnd(s_one().r() - 0real) == 1real);
        assert forall|b: S| rr >= 0real && !b.nan() && b.r() <= m implies (#[trigger] s_mul(sphere_radius, b)).r() <= rnd(rr * m) by {
            let y = b.r();
            assert(rr * y <= rr * m) by(nonlinear_arith) requires rr >= 0real, y <= m;
            assert(rnd(rr * y) <= rnd(rr * m));
        }
        let k = rnd(pi() / 2real);
        assert(rr * m == 2real * (rr * k)) by(nonlinear_arith) requires m == 2real * k;
        ax_double(rr * k);
        assert forall|a: S, b: S| rr >= 0real && !a.nan() && !b.nan() && ((a.r() == 2real * rr && b.r() <= k) || (b.r() == 2real * rr && a.r() <= k)) implies (#[trigger] s_mul(a, b)).r() <= rnd(rr * m) by {
            let (x, y) = (a.r(), b.r());
            assert(x * y <= rr * m) by(nonlinear_arith) requires (x == 2real * rr && y <= k) || (y == 2real * rr && x <= k), rr >= 0real, m == 2real * k;
            assert(rnd(x * y) <= rnd(rr * m));
        }
        assert forall|b: S| #[trigger] s_mul(b, sphere_radius).r() == s_mul(sphere_radius, b).r() || b.nan() by {
            let y = b.r();
            assert(rr * y == y * rr) by(nonlinear_arith);
        }
        assert forall|a: S, b: S| !a.nan() && !b.nan() && a.r() == 2real && b.r() <= rnd(pi() / 2real) implies (#[trigger] s_mul(a, b)).r() <= m by {
            assert(rnd(2real * b.r()) <= m);
        }
        assert forall|x: real| x > 0real implies #[trigger] atan2(0real, x) == 0real by { lemma_atan0(x); }
        assert forall|x: real| x >= 0real implies (#[trigger] sqrt(x)) >= 0real && rnd(0real) <= rnd(sqrt(x)) && (x == 0real ==> sqrt(x) == 0real) && (x > 0real ==> sqrt(x) > 0real) && (x == 1real ==> sqrt(x) == 1real) by { lemma_root(x); }
    }
    assert(rnd(0real) == 0real && s_one().r() == 1real && rnd(s_one().r()) == 1real && rnd(1real + 1real) >= rnd(1real));
    assert forall|a: S, h: S| !a.nan() && !h.nan() && h.r() <= a.r() implies (#[trigger] s_sub(a, h)).r() >= 0real by {
        assert(rnd(a.r() - h.r()) >= rnd(0real));
    }
//@end
proof fn lemma_rem(a: real, b: real) requires a >= 0real, b > 0real ensures 0real <= a - b * ((a / b).floor() as real) < b {
    let t = a / b; let q = t.floor() as real;
    assert(t * b == a) by(nonlinear_arith) requires t == a / b, b > 0real;
    assert(q <= t < q + 1real);
    assert(b * q <= t * b) by(nonlinear_arith) requires q <= t, b > 0real;
    assert(t * b < b * q + b) by(nonlinear_arith) requires t < q + 1real, b > 0real;
}
//@fn calculate_sphere_bearing props=C21
@params point_a point_b
@sig fn calculate_sphere_bearing(point_a: Point<S, 2>, point_b: Point<S, 2>) -> (r: S)
@spec
    requires !pnan(point_a), !pnan(point_b)
    ensures !r.nan(), 0real <= r.r() < rnd(2real * pi())
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan());
    proof {
        ax_pi();
        assert(rnd(s_one().r()) == 1real && rnd(1real) <= rnd(2real * pi()));
        assert forall|y: real, x: real| -rnd(2real * pi()) <= #[trigger] rnd(atan2(y, x)) by { ax_atan2(y, x); ax_rnd_neg(2real * pi()); assert(rnd(-(2real * pi())) <= rnd(atan2(y, x))); }
        assert forall|a: S, b: S| !a.nan() && !b.nan() && a.r() >= 0real && b.r() > 0real implies 0real <= (#[trigger] s_rem(a, b)).r() < b.r() by { ax_rem(a, b); lemma_rem(a.r(), b.r()); }
        assert forall|a: S, b: S| !a.nan() && !b.nan() && a.r() >= -b.r() implies (#[trigger] s_add(a, b)).r() >= 0real by { assert(rnd(0real) <= rnd(a.r() + b.r())); }
    }
//@end
} // verus!
fn main() {}
