//@include head.rs seq.rs scalar.rs exact.rs na.rs pipspec.rs
//@broadcast ax_scalar, ax_exact

/// where the line through a and b is at height y
pub open spec fn at(a: P2, b: P2, y: real) -> real { px(a) + (y - py(a)) * (px(b) - px(a)) / (py(b) - py(a)) }
/// the even-odd crossing rule for one edge, written down from the property
pub open spec fn crosses(p: P2, a: P2, b: P2) -> bool {
    spans(p, a, b) && px(p) <= at(a, b, py(p))
}
pub open spec fn edge(p: P2, g: Seq<P2>, i: int) -> bool { crosses(p, g[i], g[(i + 1) % (g.len() as int)]) }
/// number of crossed edges among the first k
pub open spec fn cnt(p: P2, g: Seq<P2>, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(p, g, k - 1) + (if edge(p, g, k - 1) { 1int } else { 0int }) } }
pub open spec fn inside(p: P2, g: Seq<P2>) -> bool { cnt(p, g, g.len() as int) % 2 == 1 }

/// the crossing lies between the ends of the edge, and does not depend on the direction of the edge
pub proof fn lemma_at(a: P2, b: P2, y: real)
    requires lo(py(a), py(b)) < y, y <= hi(py(a), py(b))
    ensures lo(px(a), px(b)) <= at(a, b, y), at(a, b, y) <= hi(px(a), px(b)), at(a, b, y) == at(b, a, y), px(a) == px(b) ==> at(a, b, y) == px(a)
{
    let d = py(b) - py(a);
    let t = (y - py(a)) / d;
    let w = px(b) - px(a);
    assert(0real <= t && t <= 1real) by(nonlinear_arith) requires t == (y - py(a)) / d, d == py(b) - py(a), d != 0real, lo(py(a), py(b)) < y, y <= hi(py(a), py(b)),
        lo(py(a), py(b)) == (if py(a) <= py(b) { py(a) } else { py(b) }), hi(py(a), py(b)) == (if py(a) <= py(b) { py(b) } else { py(a) });
    let q = (y - py(a)) * w / d;
    assert(q == t * w) by(nonlinear_arith) requires q == (y - py(a)) * w / d, t == (y - py(a)) / d, d != 0real;
    assert(w >= 0real ==> 0real <= t * w && t * w <= w) by(nonlinear_arith) requires 0real <= t, t <= 1real;
    assert(w <= 0real ==> w <= t * w && t * w <= 0real) by(nonlinear_arith) requires 0real <= t, t <= 1real;
    let q2 = (y - py(b)) * (px(a) - px(b)) / (py(a) - py(b));
    assert(q2 == t * w - w) by(nonlinear_arith) requires q2 == (y - py(b)) * (px(a) - px(b)) / (py(a) - py(b)), t == (y - py(a)) / d, d == py(b) - py(a), w == px(b) - px(a), d != 0real;
}
pub proof fn lemma_sym(p: P2, a: P2, b: P2) ensures crosses(p, a, b) == crosses(p, b, a)
{
    if lo(py(a), py(b)) < py(p) && py(p) <= hi(py(a), py(b)) { lemma_at(a, b, py(p)); }
}

/// the list started one vertex later
pub open spec fn rot1(g: Seq<P2>) -> Seq<P2> { g.subrange(1, g.len() as int).push(g[0]) }
pub proof fn lemma_rot_cnt(p: P2, g: Seq<P2>, k: int)
    requires 0 <= k < g.len()
    ensures cnt(p, rot1(g), k) == cnt(p, g, k + 1) - cnt(p, g, 1)
    decreases k
{
    if k > 0 {
        lemma_rot_cnt(p, g, k - 1);
        let n = g.len() as int;
        let h = rot1(g);
        assert(h[k - 1] == g[k]);
        vstd::arithmetic::div_mod::lemma_small_mod(k as nat, n as nat);
        assert(h[k % n] == g[(k + 1) % n]) by {
            if k + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((k + 1) as nat, n as nat); }
            else { assert((k + 1) % n == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } }
        }
    } else {
        assert(cnt(p, g, 1) == cnt(p, g, 0) + (if edge(p, g, 0) { 1int } else { 0int }));
    }
}
/// starting the list one vertex later does not change the answer (hence, repeated, any start does not)
pub proof fn lemma_rotation(p: P2, g: Seq<P2>) requires g.len() > 0 ensures inside(p, rot1(g)) == inside(p, g)
{
    let n = g.len() as int;
    lemma_rot_cnt(p, g, n - 1);
    let h = rot1(g);
    assert(h.len() == n);
    assert(h[n - 1] == g[0]);
    assert(edge(p, h, n - 1) == edge(p, g, 0)) by {
        assert(n % n == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
        assert(h[0] == g[1int % n]) by { if n > 1 { vstd::arithmetic::div_mod::lemma_small_mod(1, n as nat); } else { assert(1int % 1 == 0); } }
    }
    assert(cnt(p, g, 1) == cnt(p, g, 0) + (if edge(p, g, 0) { 1int } else { 0int }));
    assert(cnt(p, h, n) == cnt(p, g, n));
}
pub open spec fn rotk(g: Seq<P2>, k: nat) -> Seq<P2> decreases k { if k == 0 { g } else { rot1(rotk(g, (k - 1) as nat)) } }
pub proof fn lemma_any_start(p: P2, g: Seq<P2>, k: nat) requires g.len() > 0 ensures inside(p, rotk(g, k)) == inside(p, g), rotk(g, k).len() == g.len() decreases k
{
    if k > 0 { lemma_any_start(p, g, (k - 1) as nat); lemma_rotation(p, rotk(g, (k - 1) as nat)); }
}
pub open spec fn rev(g: Seq<P2>) -> Seq<P2> { Seq::new(g.len(), |i: int| g[g.len() - 1 - i]) }
pub proof fn lemma_rev_cnt(p: P2, g: Seq<P2>, k: int)
    requires 0 <= k < g.len()
    ensures cnt(p, rev(g), k) == cnt(p, g, g.len() - 1) - cnt(p, g, g.len() - 1 - k)
    decreases k
{
    if k > 0 {
        lemma_rev_cnt(p, g, k - 1);
        let n = g.len() as int;
        let h = rev(g);
        vstd::arithmetic::div_mod::lemma_small_mod(k as nat, n as nat);
        vstd::arithmetic::div_mod::lemma_small_mod((n - k) as nat, n as nat);
        assert(h[k - 1] == g[n - k] && h[k % n] == g[n - 1 - k]);
        lemma_sym(p, g[n - 1 - k], g[n - k]);
        assert((n - 1 - k + 1) % n == n - k);
        assert(edge(p, h, k - 1) == edge(p, g, n - 1 - k));
        assert(cnt(p, g, n - k) == cnt(p, g, n - 1 - k) + (if edge(p, g, n - 1 - k) { 1int } else { 0int }));
    }
}
/// listing the vertices backwards does not change the answer
pub proof fn lemma_direction(p: P2, g: Seq<P2>) ensures inside(p, rev(g)) == inside(p, g)
{
    if g.len() > 0 {
        let n = g.len() as int;
        let h = rev(g);
        lemma_rev_cnt(p, g, n - 1);
        assert(n % n == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
        assert(h[n - 1] == g[0] && h[0] == g[n - 1]);
        lemma_sym(p, g[0], g[n - 1]);
        assert(edge(p, h, n - 1) == edge(p, g, n - 1));
        assert(cnt(p, h, n) == cnt(p, g, n));
    }
}
pub open spec fn below(p: P2, q: P2) -> bool { py(q) < py(p) }
/// left of everything: crossed edges are the changes of side of a cyclic walk
pub proof fn lemma_left(p: P2, g: Seq<P2>, k: int)
    requires 0 <= k < g.len(), forall|i: int| 0 <= i < g.len() ==> px(p) < px(#[trigger] g[i])
    ensures (cnt(p, g, k) % 2 == 1) == (below(p, g[0]) != below(p, g[k]))
    decreases k
{
    if k > 0 {
        lemma_left(p, g, k - 1);
        vstd::arithmetic::div_mod::lemma_small_mod(k as nat, g.len());
        lemma_side(p, g[k - 1], g[k]);
    }
}
pub proof fn lemma_side(p: P2, a: P2, b: P2) requires px(p) < px(a), px(p) < px(b) ensures crosses(p, a, b) == (below(p, a) != below(p, b))
{
    if lo(py(a), py(b)) < py(p) && py(p) <= hi(py(a), py(b)) { lemma_at(a, b, py(p)); }
}
pub proof fn lemma_none(p: P2, g: Seq<P2>, k: int)
    requires 0 <= k <= g.len(), g.len() > 0,
        (forall|i: int| 0 <= i < g.len() ==> px(p) > px(#[trigger] g[i])) || (forall|i: int| 0 <= i < g.len() ==> py(p) <= py(#[trigger] g[i])) || (forall|i: int| 0 <= i < g.len() ==> py(p) > py(#[trigger] g[i]))
    ensures cnt(p, g, k) == 0
    decreases k
{
    if k > 0 {
        lemma_none(p, g, k - 1);
        let a = g[k - 1]; let b = g[k % (g.len() as int)];
        assert(0 <= k % (g.len() as int) < g.len());
        if lo(py(a), py(b)) < py(p) && py(p) <= hi(py(a), py(b)) { lemma_at(a, b, py(p)); }
    }
}
/// outside the bounding box, and for an empty list, the answer is negative
pub proof fn lemma_outside(p: P2, g: Seq<P2>) requires outside_box(p, g) ensures !inside(p, g)
{
    if g.len() > 0 {
        let n = g.len() as int;
        if forall|i: int| 0 <= i < g.len() ==> px(p) < px(#[trigger] g[i]) {
            lemma_left(p, g, n - 1);
            assert(n % n == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
            lemma_side(p, g[n - 1], g[0]);
            assert(cnt(p, g, n) == cnt(p, g, n - 1) + (if edge(p, g, n - 1) { 1int } else { 0int }));
        } else { lemma_none(p, g, n); }
    }
}
//@fn does_ray_intersect_polygon_segment props=C12
@params point vertex1 vertex2
@sig fn does_ray_intersect_polygon_segment(point: &Vector2<S>, vertex1: Point2<S>, vertex2: Point2<S>) -> (r: bool)
@spec
    requires !pnan(Point { coords: *point }), !pnan(vertex1), !pnan(vertex2)
    ensures r == crosses(Point { coords: *point }, vertex1, vertex2)
@start
    let ghost p: P2 = Point { coords: *point };
    assert(!p.c(0).nan() && !p.c(1).nan() && !vertex1.c(0).nan() && !vertex1.c(1).nan() && !vertex2.c(0).nan() && !vertex2.c(1).nan());
    proof { if lo(py(vertex1), py(vertex2)) < py(p) && py(p) <= hi(py(vertex1), py(vertex2)) { lemma_at(vertex1, vertex2, py(p)); } }
//@end

//@fn is_single_point_in_polygon props=C12
@params point polygon
@sig fn is_single_point_in_polygon(point: &Point2<S>, polygon: &[Point2<S>]) -> (r: bool)
@spec
    requires !pnan(*point), ok(polygon@)
    ensures r == inside(*point, polygon@)
@loop 0
    acc0 == cnt(*point, polygon@, i0 as int), acc0 <= i0,
@loopstart 0
    proof { lemma_sym(*point, polygon@[j0 as int], polygon@[(j0 as int + 1) % (polygon@.len() as int)]); }
//@end

} // verus!
fn main() {}
