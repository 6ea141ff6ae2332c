// ---- shim/det.rs: the determinant in dimensions 2 and 3, and its laws, proved ----
pub struct V3 { pub x: real, pub y: real, pub z: real }
pub open spec fn cross(u: V3, v: V3) -> V3 { V3 { x: u.y * v.z - u.z * v.y, y: u.z * v.x - u.x * v.z, z: u.x * v.y - u.y * v.x } }
pub open spec fn dot3(u: V3, v: V3) -> real { u.x * v.x + u.y * v.y + u.z * v.z }
pub open spec fn lin(a: V3, p: V3, q: V3, r: V3) -> V3 { V3 { x: a.x * p.x + a.y * q.x + a.z * r.x, y: a.x * p.y + a.y * q.y + a.z * r.y, z: a.x * p.z + a.y * q.z + a.z * r.z } }
pub open spec fn d3(u: V3, v: V3, w: V3) -> real { dot3(u, cross(v, w)) }
pub open spec fn row(a: RM, i: int) -> V3 { V3 { x: a(i, 0), y: a(i, 1), z: a(i, 2) } }
/// the determinant of the leading 2x2 or 3x3 block
pub open spec fn det(n: int, a: RM) -> real { if n == 2 { a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) } else { d3(row(a, 0), row(a, 1), row(a, 2)) } }


pub proof fn l_as(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub proof fn l_co(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn l_dl(c: real, x: real, y: real) ensures c * (x + y) == c * x + c * y, c * (x - y) == c * x - c * y { assert(c * (x + y) == c * x + c * y && c * (x - y) == c * x - c * y) by(nonlinear_arith); }
pub proof fn l_dr(x: real, y: real, c: real) ensures (x + y) * c == x * c + y * c, (x - y) * c == x * c - y * c { assert((x + y) * c == x * c + y * c && (x - y) * c == x * c - y * c) by(nonlinear_arith); }
pub proof fn l_ng(a: real, b: real) ensures (-a) * b == -(a * b), a * (-b) == -(a * b) { assert((-a) * b == -(a * b) && a * (-b) == -(a * b)) by(nonlinear_arith); }
/// every bracketing and order of a product of three
pub proof fn l_tri(a: real, b: real, c: real) ensures
    a * (b * c) == a * (c * b), a * (b * c) == b * (a * c), a * (b * c) == b * (c * a), a * (b * c) == c * (a * b), a * (b * c) == c * (b * a), (a * b) * c == a * (b * c)
{ l_co(b, c); l_co(a, c); l_co(a, b); l_as(a, b, c); l_as(b, a, c); l_co(c, a * b); l_co(c, b * a); }
pub proof fn lemma_lin_dot(a: V3, p: V3, q: V3, r: V3, c: V3) ensures dot3(lin(a, p, q, r), c) == a.x * dot3(p, c) + a.y * dot3(q, c) + a.z * dot3(r, c) {
    let (ax, ay, az, cx, cy, cz) = (a.x, a.y, a.z, c.x, c.y, c.z);
    let (px, py, pz, qx, qy, qz, rx, ry, rz) = (p.x, p.y, p.z, q.x, q.y, q.z, r.x, r.y, r.z);
    l_dr(ax*px + ay*qx, az*rx, cx); l_dr(ax*px, ay*qx, cx); l_as(ax, px, cx); l_as(ay, qx, cx); l_as(az, rx, cx);
    l_dr(ax*py + ay*qy, az*ry, cy); l_dr(ax*py, ay*qy, cy); l_as(ax, py, cy); l_as(ay, qy, cy); l_as(az, ry, cy);
    l_dr(ax*pz + ay*qz, az*rz, cz); l_dr(ax*pz, ay*qz, cz); l_as(ax, pz, cz); l_as(ay, qz, cz); l_as(az, rz, cz);
    l_dl(ax, px*cx + py*cy, pz*cz); l_dl(ax, px*cx, py*cy);
    l_dl(ay, qx*cx + qy*cy, qz*cz); l_dl(ay, qx*cx, qy*cy);
    l_dl(az, rx*cx + ry*cy, rz*cz); l_dl(az, rx*cx, ry*cy);
}
pub proof fn lemma_cyc3(u: V3, v: V3, w: V3) ensures d3(u, v, w) == d3(v, w, u), d3(u, v, w) == d3(w, u, v), d3(u, v, w) == -d3(v, u, w), d3(u, v, w) == -d3(u, w, v) {
    let (a, b, c, d, e, f, g, h, i) = (u.x, u.y, u.z, v.x, v.y, v.z, w.x, w.y, w.z);
    l_tri(a, e, i);    l_tri(a, f, h);    l_tri(b, f, g);    l_tri(b, d, i);    l_tri(c, d, h);    l_tri(c, e, g);
    l_dl(a, e*i, f*h);    l_dl(b, f*g, d*i);    l_dl(c, d*h, e*g);
    l_dl(d, h*c, i*b);    l_dl(e, i*a, g*c);    l_dl(f, g*b, h*a);
    l_dl(g, b*f, c*e);    l_dl(h, c*d, a*f);    l_dl(i, a*e, b*d);
    l_dl(d, b*i, c*h);    l_dl(e, c*g, a*i);    l_dl(f, a*h, b*g);
    l_dl(a, h*f, i*e);    l_dl(b, i*d, g*f);    l_dl(c, g*e, h*d);
}
pub proof fn lemma_rep(u: V3, v: V3) ensures d3(u, u, v) == 0real, d3(u, v, v) == 0real, d3(u, v, u) == 0real {
    lemma_cyc3(u, u, v); lemma_cyc3(u, v, v); lemma_cyc3(u, v, u);
}
pub proof fn lemma_d3_mul(a: V3, b: V3, c: V3, p: V3, q: V3, r: V3) ensures d3(lin(a, p, q, r), lin(b, p, q, r), lin(c, p, q, r)) == d3(a, b, c) * d3(p, q, r) {
    let (x, y, z) = (lin(a, p, q, r), lin(b, p, q, r), lin(c, p, q, r));
    let t = d3(p, q, r);
    // first row
    lemma_lin_dot(a, p, q, r, cross(y, z));
    assert(d3(x, y, z) == a.x * d3(p, y, z) + a.y * d3(q, y, z) + a.z * d3(r, y, z));
    lemma_pair(b, c, p, q, r);
    lemma_pair(b, c, q, r, p);
    lemma_pair(b, c, r, p, q);
    lemma_perm(b, p, q, r); lemma_perm(c, p, q, r); 
    lemma_cyc3(p, q, r);
    let (ax, ay, az, bx, by, bz, cx, cy, cz) = (a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z);
    assert(d3(p, y, z) == (by * cz - bz * cy) * t);
    lemma_pair2(b, c, p, q, r); lemma_pair3(b, c, p, q, r);
    assert(d3(q, y, z) == (bz * cx - bx * cz) * t);
    assert(d3(r, y, z) == (bx * cy - by * cx) * t);
    let (k1, k2, k3) = (by * cz - bz * cy, bz * cx - bx * cz, bx * cy - by * cx);
    l_as(ax, k1, t); l_as(ay, k2, t); l_as(az, k3, t); l_dr(ax * k1 + ay * k2, az * k3, t); l_dr(ax * k1, ay * k2, t);
}
pub proof fn lemma_perm(a: V3, p: V3, q: V3, r: V3) ensures lin(a, p, q, r) == lin(V3 { x: a.y, y: a.z, z: a.x }, q, r, p), lin(a, p, q, r) == lin(V3 { x: a.z, y: a.x, z: a.y }, r, p, q) {}
pub proof fn lemma_pair2(b: V3, c: V3, p: V3, q: V3, r: V3) ensures d3(q, lin(b, p, q, r), lin(c, p, q, r)) == (b.z * c.x - b.x * c.z) * d3(p, q, r) {
    lemma_perm(b, p, q, r); lemma_perm(c, p, q, r); lemma_cyc3(p, q, r);
    lemma_pair(V3 { x: b.y, y: b.z, z: b.x }, V3 { x: c.y, y: c.z, z: c.x }, q, r, p);
}
pub proof fn lemma_pair3(b: V3, c: V3, p: V3, q: V3, r: V3) ensures d3(r, lin(b, p, q, r), lin(c, p, q, r)) == (b.x * c.y - b.y * c.x) * d3(p, q, r) {
    lemma_perm(b, p, q, r); lemma_perm(c, p, q, r); lemma_cyc3(p, q, r);
    lemma_pair(V3 { x: b.z, y: b.x, z: b.y }, V3 { x: c.z, y: c.x, z: c.y }, r, p, q);
}
/// expand the second and third row
pub proof fn lemma_pair(b: V3, c: V3, p: V3, q: V3, r: V3) ensures d3(p, lin(b, p, q, r), lin(c, p, q, r)) == (b.y * c.z - b.z * c.y) * d3(p, q, r) {
    let (y, z) = (lin(b, p, q, r), lin(c, p, q, r));
    let t = d3(p, q, r);
    lemma_cyc3(p, y, z);
    lemma_lin_dot(b, p, q, r, cross(z, p));
    assert(d3(p, y, z) == b.x * d3(p, z, p) + b.y * d3(q, z, p) + b.z * d3(r, z, p));
    lemma_rep(p, z);
    // q, z, p = z, p, q
    lemma_cyc3(q, z, p); lemma_cyc3(r, z, p);
    lemma_lin_dot(c, p, q, r, cross(p, q)); lemma_lin_dot(c, p, q, r, cross(p, r));
    assert(d3(q, z, p) == d3(z, p, q));
    assert(d3(z, p, q) == c.x * d3(p, p, q) + c.y * d3(q, p, q) + c.z * d3(r, p, q));
    assert(d3(z, p, r) == c.x * d3(p, p, r) + c.y * d3(q, p, r) + c.z * d3(r, p, r));
    lemma_rep(p, q); lemma_rep(q, p); lemma_rep(p, r); lemma_rep(r, p); lemma_cyc3(r, p, q); lemma_cyc3(q, p, r); lemma_cyc3(p, q, r);
    assert(d3(r, p, q) == t && d3(q, p, r) == -t);
    assert(c.x * 0real == 0real && c.y * 0real == 0real && c.z * 0real == 0real && b.x * 0real == 0real);
    let (by, bz, cy, cz) = (b.y, b.z, c.y, c.z);
    assert(d3(q, z, p) == cz * t);
    assert(d3(r, z, p) == cy * (-t));
    l_ng(cy, t); l_ng(bz, cy * t); l_as(by, cz, t); l_as(bz, cy, t); l_dr(by * cz, bz * cy, t);
}
pub proof fn lemma_prod_row(a: RM, b: RM, i: int) requires 0 <= i < 3 ensures row(prod(3, a, b), i) == lin(row(a, i), row(b, 0), row(b, 1), row(b, 2)) {
    reveal_with_fuel(dotp, 4);
}
pub proof fn l_four(a: real, b: real, c: real, d: real) ensures (a * b) * (c * d) == (a * c) * (b * d), (a * b) * (c * d) == (c * b) * (a * d) { l_as(a, b, c * d); l_as(b, c, d); l_as(c, b, d); l_co(b, c); l_as(a, c, b * d); l_as(c, b, a * d); l_as(b, a, d); l_as(a, b, d); l_co(a, b); l_as(c, a, b * d); l_co(a, c); }
pub proof fn lemma_d2(c: real, d: real, e: real, f: real, p: real, q: real, r: real, s: real) ensures (c * p + d * r) * (e * q + f * s) - (c * q + d * s) * (e * p + f * r) == (c * f - d * e) * (p * s - q * r) {
    l_dr(c * p, d * r, e * q + f * s); l_dl(c * p, e * q, f * s); l_dl(d * r, e * q, f * s);
    l_dr(c * q, d * s, e * p + f * r); l_dl(c * q, e * p, f * r); l_dl(d * s, e * p, f * r);
    l_dr(c * f, d * e, p * s - q * r); l_dl(c * f, p * s, q * r); l_dl(d * e, p * s, q * r);
    l_four(c, p, e, q); l_four(c, q, e, p); l_co(p, q);
    l_four(d, r, f, s); l_four(d, s, f, r); l_co(r, s);
    l_four(c, p, f, s); l_four(c, q, f, r); l_four(d, r, e, q); l_co(r, q); l_four(d, s, e, p); l_co(s, p);
}
pub proof fn lemma_det_mul(n: int, a: RM, b: RM) requires n == 2 || n == 3 ensures det(n, prod(n, a, b)) == det(n, a) * det(n, b) {
    if n == 3 {
        lemma_prod_row(a, b, 0); lemma_prod_row(a, b, 1); lemma_prod_row(a, b, 2);
        lemma_d3_mul(row(a, 0), row(a, 1), row(a, 2), row(b, 0), row(b, 1), row(b, 2));
    } else {
        reveal_with_fuel(dotp, 3);
        let (c, d, e, f, p, q, r, s) = (a(0, 0), a(0, 1), a(1, 0), a(1, 1), b(0, 0), b(0, 1), b(1, 0), b(1, 1));
        lemma_d2(c, d, e, f, p, q, r, s);
    }
}
pub proof fn lemma_det_tr(n: int, a: RM) requires n == 2 || n == 3 ensures det(n, tr(a)) == det(n, a) {
    let (b, c, d, e, f, g, h, i, j) = (a(0, 0), a(0, 1), a(0, 2), a(1, 0), a(1, 1), a(1, 2), a(2, 0), a(2, 1), a(2, 2));
    l_tri(b, f, j);    l_tri(b, g, i);    l_tri(c, g, h);    l_tri(c, e, j);    l_tri(d, e, i);    l_tri(d, f, h);
    l_dl(b, f*j, g*i);    l_dl(c, g*h, e*j);    l_dl(d, e*i, f*h);    l_dl(b, f*j, i*g);    l_dl(e, i*d, c*j);    l_dl(h, c*g, f*d);
    l_co(c, e);
}
pub proof fn lemma_det_id(n: int) requires n == 2 || n == 3 ensures det(n, idm(n)) == 1real {
    assert(1real * 1real == 1real && 0real * 0real == 0real && 1real * 0real == 0real && 0real * 1real == 0real);
    let m = idm(n);
    assert(m(0, 0) == 1real && m(1, 1) == 1real && m(0, 1) == 0real && m(1, 0) == 0real);
    if n == 3 { assert(row(m, 0) == V3 { x: 1real, y: 0real, z: 0real }); assert(row(m, 1) == V3 { x: 0real, y: 1real, z: 0real }); assert(row(m, 2) == V3 { x: 0real, y: 0real, z: 1real }); }
}
pub proof fn lemma_det_flip(n: int, a: RM) requires n == 2 || n == 3 ensures det(n, flip(n, a)) == -det(n, a) {
    let (b, c, d, e, f, g, h, i, j) = (a(0, 0), a(0, 1), a(0, 2), a(1, 0), a(1, 1), a(1, 2), a(2, 0), a(2, 1), a(2, 2));
    if n == 2 { l_ng(b, f); l_ng(c, e); }
    else {
        l_ng(f, j); l_ng(g, i); l_ng(g, h); l_ng(e, j); l_ng(d, e * i - f * h);
        l_dl(b, f * j, g * i); l_dl(b, -(f * j), -(g * i)); l_ng(b, f * j); l_ng(b, g * i);
        l_dl(c, g * h, e * j); l_dl(c, -(g * h), -(e * j)); l_ng(c, g * h); l_ng(c, e * j);
    }
}
