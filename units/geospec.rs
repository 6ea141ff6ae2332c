// ---- units/geospec.rs: the sphere ----
pub struct V3 { pub x: real, pub y: real, pub z: real }
pub open spec fn dot(a: V3, b: V3) -> real { a.x * b.x + a.y * b.y + a.z * b.z }
/// the unit vector of a latitude and longitude (in radians)
pub open spec fn onsphere(lat: real, lon: real) -> V3 { V3 { x: cos(lat) * cos(lon), y: cos(lat) * sin(lon), z: sin(lat) } }
pub open spec fn north(lat: real, lon: real) -> V3 { V3 { x: -(sin(lat) * cos(lon)), y: -(sin(lat) * sin(lon)), z: cos(lat) } }
pub open spec fn east(lon: real) -> V3 { V3 { x: -sin(lon), y: cos(lon), z: 0real } }
pub open spec fn vec_of(p: Point<S, 2>) -> V3 { onsphere(rad(p.c(0).r()), rad(p.c(1).r())) }
/// c is the angle between the two unit vectors
pub open spec fn angle_between(c: real, a: V3, b: V3) -> bool { 0real <= c <= pi() && cos(c) == dot(a, b) }
pub open spec fn num<const N: usize>(p: Point<S, N>) -> bool { !pnan(p) }
/// (n, e) is the point at distance l in direction t
pub open spec fn polar(l: real, t: real, n: real, e: real) -> bool { l >= 0real && l * cos(t) == n && l * sin(t) == e }
/// t is the clockwise angle from north of the direction in which q is seen from p (any angle when q is p or its antipode)
pub open spec fn azimuth(t: real, p: Point<S, 2>, q: Point<S, 2>) -> bool {
    let (n, e) = (dot(vec_of(q), north(rad(p.c(0).r()), rad(p.c(1).r()))), dot(vec_of(q), east(rad(p.c(1).r()))));
    0real <= t < 2real * pi() && exists|l: real| #[trigger] polar(l, t, n, e)
}
pub proof fn lemma_rad(a: real, b: real) ensures rad(b - a) == rad(b) - rad(a) { assert((b - a) * pi() / 180real == b * pi() / 180real - a * pi() / 180real) by(nonlinear_arith); }
pub open spec fn hav(d: real) -> real { sin(d / 2real) * sin(d / 2real) }
pub proof fn lemma_hav(d: real) ensures cos(d) == 1real - 2real * hav(d) {
    let x = d / 2real;
    assert(x + x == d) by(nonlinear_arith) requires x == d / 2real;
    ax_sum(x, x); ax_pyth(x);
}
pub proof fn lemma_difference(a: real, b: real) ensures cos(b - a) == cos(b) * cos(a) + sin(b) * sin(a), sin(b - a) == sin(b) * cos(a) - cos(b) * sin(a) {
    ax_sum(b, -a); ax_odd(a);
    assert(b + (-a) == b - a);
    assert(sin(b) * -sin(a) == -(sin(b) * sin(a))) by(nonlinear_arith);
    assert(cos(b) * -sin(a) == -(cos(b) * sin(a))) by(nonlinear_arith);
}
/// a unit vector has length one, and the dot product of two of them lies in [-1, 1]
pub proof fn lemma_unit(lat: real, lon: real) ensures dot(onsphere(lat, lon), onsphere(lat, lon)) == 1real {
    ax_pyth(lat); ax_pyth(lon);
    let (a, b, c, d) = (cos(lat), sin(lat), cos(lon), sin(lon));
    assert((a * c) * (a * c) + (a * d) * (a * d) == (a * a) * (c * c + d * d)) by(nonlinear_arith);
    assert((a * a) * 1real == a * a);
}
pub proof fn lemma_sq_nonneg(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by(nonlinear_arith); }
pub proof fn lemma_cauchy(a: V3, b: V3) requires dot(a, a) == 1real, dot(b, b) == 1real ensures -1real <= dot(a, b) <= 1real {
    lemma_sq_nonneg(a.x - b.x); lemma_sq_nonneg(a.y - b.y); lemma_sq_nonneg(a.z - b.z);
    lemma_sq_nonneg(a.x + b.x); lemma_sq_nonneg(a.y + b.y); lemma_sq_nonneg(a.z + b.z);
    assert((a.x - b.x) * (a.x - b.x) == a.x * a.x - 2real * (a.x * b.x) + b.x * b.x) by(nonlinear_arith);
    assert((a.y - b.y) * (a.y - b.y) == a.y * a.y - 2real * (a.y * b.y) + b.y * b.y) by(nonlinear_arith);
    assert((a.z - b.z) * (a.z - b.z) == a.z * a.z - 2real * (a.z * b.z) + b.z * b.z) by(nonlinear_arith);
    assert((a.x + b.x) * (a.x + b.x) == a.x * a.x + 2real * (a.x * b.x) + b.x * b.x) by(nonlinear_arith);
    assert((a.y + b.y) * (a.y + b.y) == a.y * a.y + 2real * (a.y * b.y) + b.y * b.y) by(nonlinear_arith);
    assert((a.z + b.z) * (a.z + b.z) == a.z * a.z + 2real * (a.z * b.z) + b.z * b.z) by(nonlinear_arith);
}
pub open spec fn hav_of(p1: real, l1: real, p2: real, l2: real) -> real { hav(p2 - p1) + hav(l2 - l1) * cos(p1) * cos(p2) }
pub proof fn lemma_dot(p1: real, l1: real, p2: real, l2: real) ensures dot(onsphere(p1, l1), onsphere(p2, l2)) == cos(p1) * cos(p2) * cos(l2 - l1) + sin(p1) * sin(p2) {
    lemma_difference(l1, l2);
    let (a, b, c, d, e, f) = (cos(p1), cos(p2), cos(l1), cos(l2), sin(l1), sin(l2));
    let v = d * c + f * e;
    assert((a * c) * (b * d) == (a * b) * (d * c)) by(nonlinear_arith);
    assert((a * e) * (b * f) == (a * b) * (f * e)) by(nonlinear_arith);
    assert((a * b) * v == (a * b) * (d * c) + (a * b) * (f * e)) by(nonlinear_arith) requires v == d * c + f * e;
}
/// the haversine formula: 1 - 2 h is the cosine of the central angle
pub proof fn lemma_haversine(p1: real, l1: real, p2: real, l2: real) ensures
    dot(onsphere(p1, l1), onsphere(p2, l2)) == 1real - 2real * hav_of(p1, l1, p2, l2), 0real <= hav_of(p1, l1, p2, l2) <= 1real
{
    lemma_dot(p1, l1, p2, l2); lemma_difference(p1, p2); lemma_hav(p2 - p1); lemma_hav(l2 - l1);
    lemma_unit(p1, l1); lemma_unit(p2, l2); lemma_cauchy(onsphere(p1, l1), onsphere(p2, l2));
    let (a, b, c, h) = (cos(p1), cos(p2), cos(l2 - l1), hav(l2 - l1));
    assert(a * b * c == b * a - 2real * (h * a * b)) by(nonlinear_arith) requires c == 1real - 2real * h;
    assert(sin(p2) * sin(p1) == sin(p1) * sin(p2)) by(nonlinear_arith);
}
/// twice the angle of (sqrt(1 - h), sqrt h) has the cosine 1 - 2 h
pub proof fn lemma_half_angle(h: real) requires 0real <= h <= 1real
    ensures ({ let c = 2real * atan2(sqrt(h), sqrt(1real - h)); 0real <= c <= pi() && cos(c) == 1real - 2real * h })
{
    let (y, x) = (sqrt(h), sqrt(1real - h));
    ax_sqrt(h); ax_sqrt(1real - h); ax_atan2(y, x); ax_sqrt(1real); ax_pi();
    let t = atan2(y, x);
    assert(x * x + y * y == 1real);
    let o = sqrt(1real);
    assert(o == 1real) by(nonlinear_arith) requires o >= 0real, o * o == 1real;
    assert(cos(t) == x && sin(t) == y) by(nonlinear_arith) requires o == 1real, o * cos(t) == x, o * sin(t) == y;
    ax_sum(t, t);
    assert(2real * t == t + t);
}
/// an angle in [0, pi] is determined by its cosine: the central angle of two points is unique
pub proof fn lemma_unique(c: real, d: real, a: V3, b: V3) requires angle_between(c, a, b), angle_between(d, a, b) ensures c == d {
    if c < d { ax_cos_mono(c, d); } else if d < c { ax_cos_mono(d, c); }
}
/// what the statement says of the distance follows from the contract
pub proof fn lemma_corollaries(a: V3, b: V3, c: real, d: real, lat: real, lon: real) requires angle_between(c, a, b), angle_between(d, b, a)
    ensures c == d, 0real <= c <= pi(), angle_between(0real, onsphere(lat, lon), onsphere(lat, lon)), angle_between(pi(), onsphere(lat, lon), onsphere(-lat, lon + pi()))
{
    assert(dot(a, b) == dot(b, a)) by(nonlinear_arith);
    lemma_unique(c, d, a, b);
    ax_pi(); ax_zero_angle(); ax_pi_angle(); lemma_unit(lat, lon); ax_sum(lon, pi()); ax_odd(lat);
    let (p, q) = (onsphere(lat, lon), onsphere(-lat, lon + pi()));
    assert(cos(lon) * 0real == 0real && sin(lon) * 0real == 0real && sin(lon) * -1real == -sin(lon) && cos(lon) * -1real == -cos(lon));
    assert(q.x == -p.x) by(nonlinear_arith) requires q.x == cos(lat) * (-cos(lon)), p.x == cos(lat) * cos(lon);
    assert(q.y == -p.y) by(nonlinear_arith) requires q.y == cos(lat) * (-sin(lon)), p.y == cos(lat) * sin(lon);
    assert(dot(p, q) == -dot(p, p)) by(nonlinear_arith) requires q.x == -p.x, q.y == -p.y, q.z == -p.z;
}
/// the direction of q from p, in the frame (north, east) of p
pub proof fn lemma_frame(p1: real, l1: real, p2: real, l2: real) ensures
    dot(onsphere(p2, l2), east(l1)) == sin(l2 - l1) * cos(p2),
    dot(onsphere(p2, l2), north(p1, l1)) == cos(p1) * sin(p2) - sin(p1) * cos(p2) * cos(l2 - l1)
{
    lemma_difference(l1, l2);
    let (a, b, c, d, e, f, g, h) = (cos(p1), cos(p2), cos(l1), cos(l2), sin(l1), sin(l2), sin(p1), sin(p2));
    let (u, v) = (f * c - d * e, d * c + f * e);
    assert((b * d) * (-e) == -(d * e) * b) by(nonlinear_arith);
    assert((b * f) * c == (f * c) * b) by(nonlinear_arith);
    assert(u * b == (f * c) * b - (d * e) * b) by(nonlinear_arith) requires u == f * c - d * e;
    assert(-(d * e) * b == -((d * e) * b)) by(nonlinear_arith);
    assert(h * 0real == 0real);
    assert((b * d) * (-(g * c)) == -((g * b) * (d * c))) by(nonlinear_arith);
    assert((b * f) * (-(g * e)) == -((g * b) * (f * e))) by(nonlinear_arith);
    assert((g * b) * v == (g * b) * (d * c) + (g * b) * (f * e)) by(nonlinear_arith) requires v == d * c + f * e;
    assert(h * a == a * h) by(nonlinear_arith);
}
pub proof fn lemma_full_turn(t: real) ensures sin(t + 2real * pi()) == sin(t), cos(t + 2real * pi()) == cos(t) {
    ax_pi_angle(); ax_sum(pi(), pi()); ax_sum(t, pi() + pi());
    let (s, c) = (sin(t), cos(t));
    let (sp, cp) = (sin(pi() + pi()), cos(pi() + pi()));
    assert(pi() + pi() == 2real * pi());
    assert(sp == 0real && cp == 1real) by(nonlinear_arith) requires sp == 0real * -1real + -1real * 0real, cp == -1real * -1real - 0real * 0real;
    assert(s * 1real == s && c * 1real == c && c * 0real == 0real && s * 0real == 0real);
}
/// the remainder by a full turn of an angle in (0, 2 full turns)
pub open spec fn wrap(a: real) -> real { a - 2real * pi() * ((a / (2real * pi())).floor() as real) }
pub proof fn lemma_wrap(t: real) requires -pi() < t <= pi() ensures wrap(t + 2real * pi()) == (if t >= 0real { t } else { t + 2real * pi() }) {
    ax_pi();
    let (w, a) = (2real * pi(), t + 2real * pi());
    let q = a / w;
    assert(q * w == a) by(nonlinear_arith) requires q == a / w, w > 0real;
    if t >= 0real {
        assert(1real <= q && q < 2real) by(nonlinear_arith) requires q * w == a, w <= a, a < 2real * w, w > 0real;
        assert(q.floor() == 1);
        assert(w * 1real == w);
    } else {
        assert(0real <= q && q < 1real) by(nonlinear_arith) requires q * w == a, 0real < a, a < w, w > 0real;
        assert(q.floor() == 0);
        assert(w * 0real == 0real);
    }
}
pub proof fn lemma_azimuth(p: Point<S, 2>, q: Point<S, 2>, t: real)
    requires ({ let (n, e) = (dot(vec_of(q), north(rad(p.c(0).r()), rad(p.c(1).r()))), dot(vec_of(q), east(rad(p.c(1).r())))); t == wrap(atan2(e, n) + 2real * pi()) })
    ensures azimuth(t, p, q)
{
    let (n, e) = (dot(vec_of(q), north(rad(p.c(0).r()), rad(p.c(1).r()))), dot(vec_of(q), east(rad(p.c(1).r()))));
    let u = atan2(e, n);
    ax_pi(); ax_atan2(e, n); lemma_wrap(u); lemma_full_turn(u);
    lemma_sq_nonneg(n); lemma_sq_nonneg(e); ax_sqrt(n * n + e * e);
    assert(polar(sqrt(n * n + e * e), t, n, e));
}
/// due north is 0, due south pi, due east from the equator pi / 2, due west 3 pi / 2; and the azimuth is unique
pub proof fn lemma_compass(t: real, u: real, l: real, m: real, n: real, e: real)
    requires polar(l, t, n, e), polar(m, u, n, e), 0real <= t < 2real * pi(), 0real <= u < 2real * pi(), n * n + e * e > 0real
    ensures cos(t) == cos(u), sin(t) == sin(u)
{
    let (c, s, d, r) = (cos(t), sin(t), cos(u), sin(u));
    ax_pyth(t); ax_pyth(u);
    assert(l * l == n * n + e * e) by(nonlinear_arith) requires l * c == n, l * s == e, s * s + c * c == 1real;
    assert(m * m == n * n + e * e) by(nonlinear_arith) requires m * d == n, m * r == e, r * r + d * d == 1real;
    assert(l == m) by(nonlinear_arith) requires l * l == m * m, l >= 0real, m >= 0real;
    assert(l > 0real) by(nonlinear_arith) requires l * l > 0real, l >= 0real;
    assert(c == d) by(nonlinear_arith) requires l * c == l * d, l > 0real;
    assert(s == r) by(nonlinear_arith) requires l * s == l * r, l > 0real;
}
