// ---- units/planespec.rs: orientation in the plane ----
pub struct V2 { pub x: real, pub y: real }
pub open spec fn xy(p: Point<S, 2>) -> V2 { V2 { x: p.c(0).r(), y: p.c(1).r() } }
pub open spec fn xys(a: Seq<Point<S, 2>>) -> Seq<V2> { a.map_values(|p: Point<S, 2>| xy(p)) }
pub open spec fn vec(a: V2, b: V2) -> V2 { V2 { x: b.x - a.x, y: b.y - a.y } }
/// from a to b, or from b to a
pub open spec fn dirv(up: bool, a: V2, b: V2) -> V2 { if up { vec(a, b) } else { vec(b, a) } }
pub open spec fn cr(u: V2, w: V2) -> real { u.x * w.y - u.y * w.x }
/// positive when a, b, c turn clockwise
pub open spec fn orient(a: V2, b: V2, c: V2) -> real { (b.y - a.y) * (c.x - b.x) - (b.x - a.x) * (c.y - b.y) }
/// the lexicographic half-plane
pub open spec fn fw(u: V2) -> bool { u.x > 0real || (u.x == 0real && u.y >= 0real) }
pub open spec fn nz(u: V2) -> bool { u.x != 0real || u.y != 0real }
/// a before or at b in the lexicographic order (or its reverse)
pub open spec fn le(up: bool, a: V2, b: V2) -> bool { fw(dirv(up, a, b)) }
pub open spec fn lt(up: bool, a: V2, b: V2) -> bool { le(up, a, b) && a != b }
pub open spec fn collinear(d: Seq<V2>) -> bool { forall|a: V2, b: V2, c: V2| d.contains(a) && d.contains(b) && d.contains(c) ==> #[trigger] orient(a, b, c) == 0real }
pub open spec fn same_set(a: Seq<V2>, b: Seq<V2>) -> bool { forall|p: V2| a.contains(p) <==> b.contains(p) }

pub proof fn lemma_order(up: bool, a: V2, b: V2, c: V2) ensures le(up, a, a), le(up, a, b) || le(up, b, a), le(up, a, b) && le(up, b, a) ==> a == b, le(up, a, b) && le(up, b, c) ==> le(up, a, c), le(up, a, b) <==> le(!up, b, a) {}
/// the orientation is the same whichever corner the sides are measured from
pub proof fn lemma_orient(up: bool, a: V2, b: V2, c: V2) ensures
    orient(a, b, c) == -cr(dirv(up, a, b), dirv(up, b, c)), orient(a, b, c) == -cr(dirv(up, a, b), dirv(up, a, c)), orient(a, b, c) == cr(dirv(up, a, b), dirv(up, c, a)), orient(a, b, c) == cr(dirv(up, a, b), dirv(up, c, b)),
    orient(a, b, c) == orient(b, c, a), orient(a, b, c) == -orient(b, a, c)
{
    let (u, v, w, z) = (b.x - a.x, b.y - a.y, c.x - b.x, c.y - b.y);
    assert(u * (v + z) == u * v + u * z && v * (u + w) == v * u + v * w) by(nonlinear_arith);
    assert(u * v == v * u) by(nonlinear_arith);
    assert(c.x - a.x == u + w && c.y - a.y == v + z);
    assert((-u) * (-z) == u * z && (-v) * (-w) == v * w && (-u) * (-(v + z)) == u * (v + z) && (-v) * (-(u + w)) == v * (u + w)) by(nonlinear_arith);
    assert(u * (-z) == -(u * z) && v * (-w) == -(v * w) && u * (-(v + z)) == -(u * (v + z)) && v * (-(u + w)) == -(v * (u + w))) by(nonlinear_arith);
    assert((-u) * z == -(u * z) && (-v) * w == -(v * w) && (-u) * (v + z) == -(u * (v + z)) && (-v) * (u + w) == -(v * (u + w))) by(nonlinear_arith);
    assert(z * (-(u + w)) == -(z * u + z * w) && w * (-(v + z)) == -(w * v + w * z)) by(nonlinear_arith);
    assert(z * u == u * z && w * v == v * w && z * w == w * z) by(nonlinear_arith);
    assert(a.x - c.x == -(u + w) && a.y - c.y == -(v + z));
    assert(a.x - b.x == -u && a.y - b.y == -v && b.x - c.x == -w && b.y - c.y == -z);
}
pub proof fn lemma_cr(u: V2, w: V2) ensures cr(u, w) == -cr(w, u), cr(u, u) == 0real {
    assert(u.x * w.y == w.y * u.x && u.y * w.x == w.x * u.y && u.x * u.y == u.y * u.x) by(nonlinear_arith);
}
/// in a half-plane, being counterclockwise is transitive
pub proof fn lemma_half(x: V2, y: V2, z: V2) requires fw(x), fw(y), fw(z), nz(y), cr(x, y) >= 0real, cr(y, z) >= 0real ensures cr(x, z) >= 0real {
    let (a, b, c) = (cr(x, z), cr(y, z), cr(x, y));
    lemma_plucker(x, y, z);
    if y.x > 0real {
        assert(x.x * b >= 0real) by(nonlinear_arith) requires x.x >= 0real, b >= 0real;
        assert(z.x * c >= 0real) by(nonlinear_arith) requires z.x >= 0real, c >= 0real;
        assert(a >= 0real) by(nonlinear_arith) requires y.x * a >= 0real, y.x > 0real;
    } else {
        assert(z.x <= 0real) by(nonlinear_arith) requires y.x == 0real, y.y > 0real, y.x * z.y - y.y * z.x >= 0real;
        assert(x.x * z.y >= 0real) by(nonlinear_arith) requires x.x >= 0real, z.y >= 0real;
        assert(x.y * z.x == 0real) by(nonlinear_arith) requires z.x == 0real;
    }
}
pub proof fn lemma_plucker(x: V2, y: V2, z: V2) ensures y.x * cr(x, z) == x.x * cr(y, z) + z.x * cr(x, y), y.y * cr(x, z) == x.y * cr(y, z) + z.y * cr(x, y) {
    let (p, q, r, s, t, u) = (x.x, x.y, y.x, y.y, z.x, z.y);
    assert(r * (p * u - q * t) == r * (p * u) - r * (q * t)) by(nonlinear_arith);
    assert(p * (r * u - s * t) == p * (r * u) - p * (s * t)) by(nonlinear_arith);
    assert(t * (p * s - q * r) == t * (p * s) - t * (q * r)) by(nonlinear_arith);
    assert(r * (p * u) == p * (r * u) && r * (q * t) == t * (q * r) && p * (s * t) == t * (p * s)) by(nonlinear_arith);
    assert(s * (p * u - q * t) == s * (p * u) - s * (q * t)) by(nonlinear_arith);
    assert(q * (r * u - s * t) == q * (r * u) - q * (s * t)) by(nonlinear_arith);
    assert(u * (p * s - q * r) == u * (p * s) - u * (q * r)) by(nonlinear_arith);
    assert(s * (p * u) == u * (p * s) && s * (q * t) == q * (s * t) && q * (r * u) == u * (q * r)) by(nonlinear_arith);
}
/// parallel vectors of a half-plane point the same way
pub proof fn lemma_ray(e: V2, f: V2, g: V2) requires fw(e), fw(f), nz(e), nz(f), cr(e, f) == 0real
    ensures cr(e, g) >= 0real <==> cr(f, g) >= 0real, cr(e, g) <= 0real <==> cr(f, g) <= 0real
{
    lemma_plucker(e, f, g);
    let (p, q) = (cr(e, g), cr(f, g));
    assert(g.x * 0real == 0real && g.y * 0real == 0real);
    if f.x > 0real {
        assert(e.x > 0real) by(nonlinear_arith) requires e.x * f.y - e.y * f.x == 0real, f.x > 0real, e.x >= 0real, e.x == 0real ==> e.y > 0real;
        lemma_signs(e.x, q, f.x, p);
    } else {
        assert(e.x == 0real) by(nonlinear_arith) requires e.x * f.y - e.y * f.x == 0real, f.x == 0real, f.y > 0real;
        lemma_signs(e.y, q, f.y, p);
    }
}
pub proof fn lemma_signs(a: real, q: real, b: real, p: real) requires a > 0real, b > 0real, b * p == a * q ensures p >= 0real <==> q >= 0real, p <= 0real <==> q <= 0real {
    if p > 0real { assert(q > 0real) by(nonlinear_arith) requires a > 0real, b > 0real, p > 0real, b * p == a * q; }
    else if p < 0real { assert(q < 0real) by(nonlinear_arith) requires a > 0real, b > 0real, p < 0real, b * p == a * q; }
    else { assert(q == 0real) by(nonlinear_arith) requires a > 0real, p == 0real, b * p == a * q; }
}
/// two edges that meet at v, from u forwards and to w backwards (or both from v), supporting everything on their right, lie on one line only if everything does
pub proof fn lemma_flat(d: Seq<V2>, u: V2, v: V2) requires u != v, forall|p: V2| d.contains(p) ==> #[trigger] orient(u, v, p) == 0real ensures collinear(d) {
    assert forall|a: V2, b: V2, c: V2| d.contains(a) && d.contains(b) && d.contains(c) implies #[trigger] orient(a, b, c) == 0real by { lemma_online(u, v, a, b, c); }
}
pub proof fn lemma_online(u: V2, v: V2, a: V2, b: V2, c: V2) requires u != v, orient(u, v, a) == 0real, orient(u, v, b) == 0real, orient(u, v, c) == 0real ensures orient(a, b, c) == 0real {
    lemma_orient(true, u, v, a); lemma_orient(true, u, v, b); lemma_orient(true, u, v, c); lemma_orient(true, a, b, c);
    let d = vec(u, v);
    let (s, t) = (vec(a, b), vec(a, c));
    lemma_cr_diff(d, vec(u, a), vec(u, b)); lemma_cr_diff(d, vec(u, a), vec(u, c));
    assert(s == vec(vec(u, a), vec(u, b)) && t == vec(vec(u, a), vec(u, c)));
    lemma_parallel(d, s, t);
}
pub proof fn lemma_cr_diff(d: V2, a: V2, b: V2) ensures cr(d, vec(a, b)) == cr(d, b) - cr(d, a) {
    assert(d.x * (b.y - a.y) == d.x * b.y - d.x * a.y && d.y * (b.x - a.x) == d.y * b.x - d.y * a.x) by(nonlinear_arith);
}
pub proof fn lemma_parallel(d: V2, s: V2, t: V2) requires nz(d), cr(d, s) == 0real, cr(d, t) == 0real ensures cr(s, t) == 0real {
    lemma_plucker(s, d, t); lemma_cr(d, s);
    assert(s.x * 0real == 0real && t.x * 0real == 0real && s.y * 0real == 0real && t.y * 0real == 0real);
    let z = cr(s, t);
    if d.x != 0real { assert(z == 0real) by(nonlinear_arith) requires d.x * z == 0real, d.x != 0real; } else { assert(z == 0real) by(nonlinear_arith) requires d.y * z == 0real, d.y != 0real; }
}
/// distinct values below n: at most n of them
pub proof fn lemma_pigeon(f: Seq<int>, n: int) requires n >= 0, forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < n, forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j ==> f[i] != f[j] ensures f.len() <= n {
    f.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(f.to_set().subset_of(r));
    vstd::set_lib::lemma_len_subset(f.to_set(), r);
}
