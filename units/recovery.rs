// ---- units/recovery.rs: ICP recovers a motion whose images are the nearest neighbours ----
pub proof fn l_z(a: real) ensures a * 0real == 0real, 0real * a == 0real { assert(a * 0real == 0real && 0real * a == 0real) by(nonlinear_arith); }
pub type VF = spec_fn(int) -> real;
pub open spec fn dv(f: VF, g: VF, k: int) -> real decreases k { if k <= 0 { 0real } else { dv(f, g, k - 1) + f(k - 1) * g(k - 1) } }
pub open spec fn rowf(a: RM, i: int) -> VF { |j: int| a(i, j) }
pub open spec fn colf(a: RM, j: int) -> VF { |i: int| a(i, j) }
pub proof fn lemma_dotp_dv(a: RM, b: RM, i: int, j: int, k: int, f: VF, g: VF) requires forall|t: int| 0 <= t < k ==> a(i, t) == #[trigger] f(t) && b(t, j) == g(t) ensures dotp(a, b, i, j, k) == dv(f, g, k) decreases k {
    if k > 0 { lemma_dotp_dv(a, b, i, j, k - 1, f, g); assert(a(i, k - 1) == f(k - 1)); }
}
pub proof fn lemma_dv_ext(f: VF, g: VF, p: VF, q: VF, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] f(t) == p(t) && g(t) == q(t) ensures dv(f, g, k) == dv(p, q, k) decreases k {
    if k > 0 { lemma_dv_ext(f, g, p, q, k - 1); assert(f(k - 1) == p(k - 1)); }
}
pub proof fn lemma_dv_comm(f: VF, g: VF, k: int) ensures dv(f, g, k) == dv(g, f, k) decreases k { if k > 0 { lemma_dv_comm(f, g, k - 1); l_co(f(k - 1), g(k - 1)); } }
/// linear in the second argument, hence in the first
pub proof fn lemma_dv_lin(f: VF, g: VF, c: real, h: VF, q: VF, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] q(t) == g(t) + c * h(t) ensures dv(f, q, k) == dv(f, g, k) + c * dv(f, h, k) decreases k {
    if k > 0 {
        lemma_dv_lin(f, g, c, h, q, k - 1);
        let (x, y, z, e) = (f(k - 1), g(k - 1), h(k - 1), dv(f, h, k - 1));
        assert(q(k - 1) == y + c * z);
        l_dl(x, y, c * z); l_tri(x, c, z); l_dl(c, e, x * z);
    } else { assert(c * 0real == 0real); }
}
pub proof fn lemma_dv_lin1(f: VF, g: VF, c: real, h: VF, q: VF, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] q(t) == g(t) + c * h(t) ensures dv(q, f, k) == dv(g, f, k) + c * dv(h, f, k) {
    lemma_dv_lin(f, g, c, h, q, k); lemma_dv_comm(f, q, k); lemma_dv_comm(f, g, k); lemma_dv_comm(f, h, k);
}
pub proof fn lemma_dv_zero(f: VF, g: VF, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] g(t) == 0real ensures dv(f, g, k) == 0real decreases k {
    if k > 0 { lemma_dv_zero(f, g, k - 1); let x = f(k - 1); assert(g(k - 1) == 0real); assert(x * 0real == 0real); }
}
/// a sum of squares that is not positive has only zero terms
pub proof fn lemma_dv_sq(f: VF, k: int) ensures dv(f, f, k) >= 0real, dv(f, f, k) <= 0real ==> forall|t: int| 0 <= t < k ==> #[trigger] f(t) == 0real decreases k {
    if k > 0 {
        lemma_dv_sq(f, k - 1);
        let x = f(k - 1);
        assert(x * x >= 0real && (x * x <= 0real ==> x == 0real)) by(nonlinear_arith);
    }
}
/// an orthogonal matrix is undone by its transpose
pub proof fn lemma_undo(n: int, q: RM, d: VF, y: VF, c: int)
    requires 0 < n, orth(n, q), 0 <= c < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dv(rowf(q, k), d, n)
    ensures dv(colf(q, c), y, n) == d(c)
{
    let m: RM = |i: int, j: int| if 0 <= i < n && j == 0 { d(i) } else { 0real };
    lemma_assoc(n, tr(q), q, m);
    assert(within(n, m));
    lemma_id(n, m);
    let qm = prod(n, q, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == qm(k, 0) by { lemma_dotp_dv(q, m, k, 0, n, rowf(q, k), d); }
    lemma_dotp_dv(tr(q), qm, c, 0, n, colf(q, c), y);
    assert(prod(n, tr(q), qm)(c, 0) == m(c, 0));
}

// ---- the quadratic form of a covariance is a sum of squares ----
/// the deviation of point p of t from m
pub open spec fn dev<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, p: int) -> VF { |i: int| t[p].c(i).r() - m.c(i).r() }
pub open spec fn sqs<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, y: VF, k: int) -> real decreases k {
    if k <= 0 { 0real } else { sqs(t, m, y, k - 1) + dv(dev(t, m, k - 1), y, N as int) * dv(dev(t, m, k - 1), y, N as int) }
}
pub proof fn lemma_sqs<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, y: VF, k: int)
    ensures sqs(t, m, y, k) >= 0real, sqs(t, m, y, k) <= 0real ==> forall|p: int| 0 <= p < k ==> #[trigger] dv(dev(t, m, p), y, N as int) == 0real decreases k {
    if k > 0 {
        lemma_sqs(t, m, y, k - 1);
        let x = dv(dev(t, m, k - 1), y, N as int);
        assert(x * x >= 0real && (x * x <= 0real ==> x == 0real)) by(nonlinear_arith);
    }
}
pub open spec fn crow<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, i: int, k: int) -> VF { |j: int| cov(t, t, m, m, i, j, k) }
pub proof fn lemma_quad<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, y: VF, z: VF, k: int)
    requires forall|i: int| 0 <= i < N ==> #[trigger] z(i) == dv(crow(t, m, i, k), y, N as int)
    ensures dv(y, z, N as int) == sqs(t, m, y, k) decreases k {
    let n = N as int;
    if k > 0 {
        let z1: VF = |i: int| dv(crow(t, m, i, k - 1), y, n);
        lemma_quad(t, m, y, z1, k - 1);
        let d = dev(t, m, k - 1);
        let e = dv(d, y, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] z(i) == z1(i) + e * d(i) by {
            let (c0, c1) = (crow(t, m, i, k - 1), crow(t, m, i, k));
            assert forall|j: int| 0 <= j < n implies #[trigger] c1(j) == c0(j) + d(i) * d(j) by {}
            lemma_dv_lin1(y, c0, d(i), d, c1, n);
            l_co(d(i), e);
        }
        lemma_dv_lin(y, z1, e, d, z, n);
        lemma_dv_comm(y, d, n);
    } else {
        assert forall|i: int| 0 <= i < n implies #[trigger] z(i) == 0real by {
            let c = crow(t, m, i, k);
            lemma_dv_comm(c, y, n); lemma_dv_zero(y, c, n);
        }
        lemma_dv_zero(y, z, n);
    }
}
pub proof fn lemma_cov_sym<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, i: int, j: int, k: int) ensures cov(t, t, m, m, i, j, k) == cov(t, t, m, m, j, i, k) decreases k {
    if k > 0 { lemma_cov_sym(t, m, i, j, k - 1); l_co(t[k - 1].c(i).r() - m.c(i).r(), t[k - 1].c(j).r() - m.c(j).r()); }
}
pub open spec fn scatter<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>) -> RM { |i: int, j: int| if 0 <= i < N && 0 <= j < N { cov(t, t, m, m, i, j, t.len() as int) } else { 0real } }

// ---- the estimate for (rotation) * (scatter) is the rotation ----
pub proof fn lemma_diag_r(n: int, a: RM, s: RM, i: int, j: int, k: int) requires 0 <= j < n, k <= n ensures dotp(a, diag(n, s), i, j, k) == if j < k { a(i, j) * s(j, 0) } else { 0real } decreases k {
    if k > 0 { lemma_diag_r(n, a, s, i, j, k - 1); let x = a(i, k - 1); assert(x * 0real == 0real); }
}
/// what the factors of h = g p say of the columns of v: h v = u s, and p p v = v s s
pub proof fn lemma_columns(n: int, g: RM, p: RM, u: RM, s: RM, vt: RM)
    requires 0 < n, orth(n, g), within(n, g), within(n, p), tr(p) == p, factors(n, prod(n, g, p), u, s, vt)
    ensures
        forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] prod(n, g, prod(n, p, tr(vt)))(i, k) == u(i, k) * s(k, 0),
        forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] prod(n, p, prod(n, p, tr(vt)))(i, k) == vt(k, i) * s(k, 0) * s(k, 0),
{
    let (h, d, v) = (prod(n, g, p), diag(n, s), tr(vt));
    let dvt = prod(n, d, vt);
    assert(within(n, d));
    // h v = u d
    lemma_assoc(n, u, dvt, v); lemma_assoc(n, d, vt, v); lemma_id(n, d);
    let hv = prod(n, h, v);
    assert(hv == prod(n, u, d));
    lemma_assoc(n, g, p, v);
    // tr(h) u = v d
    lemma_tr_prod(n, u, dvt); lemma_tr_prod(n, d, vt);
    assert(tr(d) =~= d);
    let vd = prod(n, v, d);
    assert(tr(h) == prod(n, vd, tr(u)));
    lemma_assoc(n, vd, tr(u), u);
    assert(within(n, vd));
    lemma_id(n, vd);
    assert(prod(n, tr(h), u) == vd);
    // tr(h) h = p p
    lemma_tr_prod(n, g, p);
    lemma_assoc(n, p, tr(g), h); lemma_assoc(n, tr(g), g, p); lemma_id(n, p);
    assert(prod(n, tr(h), h) == prod(n, p, p));
    lemma_assoc(n, p, p, v); lemma_assoc(n, tr(h), h, v); lemma_assoc(n, tr(h), u, d);
    let ppv = prod(n, p, prod(n, p, v));
    assert(ppv == prod(n, vd, d));
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] prod(n, g, prod(n, p, tr(vt)))(i, k) == u(i, k) * s(k, 0) by { lemma_diag_r(n, u, s, i, k, n); }
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] ppv(i, k) == vt(k, i) * s(k, 0) * s(k, 0) by { lemma_diag_r(n, vd, s, i, k, n); lemma_diag_r(n, v, s, i, k, n); }
}
/// a positive singular value: g maps the column of v to that of u
pub proof fn lemma_column<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, g: RM, u: RM, s: RM, vt: RM, k: int, i: int)
    requires 0 < N, orth(N as int, g), within(N as int, g), factors(N as int, prod(N as int, g, scatter(t, m)), u, s, vt), 0 <= k < N, 0 <= i < N, s(k, 0) > 0real
    ensures prod(N as int, g, tr(vt))(i, k) == u(i, k)
{
    let n = N as int; let p = scatter(t, m); let l = t.len() as int;
    assert(tr(p) =~= p) by { assert forall|a: int, b: int| #[trigger] tr(p)(a, b) == p(a, b) by { lemma_cov_sym(t, m, a, b, l); } }
    lemma_columns(n, g, p, u, s, vt);
    let x = prod(n, p, tr(vt)); let c = s(k, 0);
    let (xk, vk): (VF, VF) = (colf(x, k), rowf(vt, k));
    let y: VF = |j: int| xk(j) + (-c) * vk(j);
    let z: VF = |a: int| dv(crow(t, m, a, l), y, n);
    assert forall|a: int| 0 <= a < n implies #[trigger] z(a) == 0real + (-c) * y(a) by {
        let r = crow(t, m, a, l);
        lemma_dv_lin(r, xk, -c, vk, y, n);
        lemma_dotp_dv(p, x, a, k, n, r, xk); lemma_dotp_dv(p, tr(vt), a, k, n, r, vk);
        assert(dv(r, xk, n) == prod(n, p, x)(a, k)); assert(dv(r, vk, n) == x(a, k));
        let (v, w) = (vt(k, a), x(a, k));
        assert(v * c * c + (-c) * w == (-c) * (w + (-c) * v)) by(nonlinear_arith);
    }
    lemma_quad(t, m, y, z, l); lemma_sqs(t, m, y, l);
    let o: VF = |a: int| 0real;
    lemma_dv_lin(y, o, -c, y, z, n); lemma_dv_zero(y, o, n); lemma_dv_sq(y, n);
    let e = dv(y, y, n);
    assert(e <= 0real) by(nonlinear_arith) requires (-c) * e >= 0real, c > 0real;
    // x = c v, so g x = c (g v), and g x = c u
    let gr: VF = rowf(g, i);
    assert forall|j: int| 0 <= j < n implies #[trigger] xk(j) == o(j) + c * vk(j) by { assert(y(j) == 0real); l_ng(c, vk(j)); }
    lemma_dv_lin(gr, o, c, vk, xk, n); lemma_dv_zero(gr, o, n);
    lemma_dotp_dv(g, x, i, k, n, gr, xk); lemma_dotp_dv(g, tr(vt), i, k, n, gr, vk);
    let (q, f) = (prod(n, g, tr(vt))(i, k), u(i, k));
    assert(prod(n, g, x)(i, k) == f * c);
    assert(q == f) by(nonlinear_arith) requires c * q == f * c, c > 0real;
}
/// a zero singular value: no point deviates along the column of v
pub proof fn lemma_null<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, g: RM, u: RM, s: RM, vt: RM, k: int)
    requires 0 < N, orth(N as int, g), within(N as int, g), factors(N as int, prod(N as int, g, scatter(t, m)), u, s, vt), 0 <= k < N, s(k, 0) == 0real
    ensures forall|p: int| 0 <= p < t.len() ==> #[trigger] dv(dev(t, m, p), rowf(vt, k), N as int) == 0real
{
    let n = N as int; let p = scatter(t, m); let l = t.len() as int;
    assert(tr(p) =~= p) by { assert forall|a: int, b: int| #[trigger] tr(p)(a, b) == p(a, b) by { lemma_cov_sym(t, m, a, b, l); } }
    lemma_columns(n, g, p, u, s, vt);
    let x = prod(n, p, tr(vt));
    let (xk, vk): (VF, VF) = (colf(x, k), rowf(vt, k));
    let y: VF = |i: int| prod(n, g, x)(i, k);
    assert forall|i: int| 0 <= i < n implies #[trigger] y(i) == 0real && y(i) == dv(rowf(g, i), xk, n) by {
        let f = u(i, k); assert(f * 0real == 0real);
        lemma_dotp_dv(g, x, i, k, n, rowf(g, i), xk);
    }
    assert forall|c: int| 0 <= c < n implies #[trigger] xk(c) == 0real by { lemma_undo(n, g, xk, y, c); lemma_dv_zero(colf(g, c), y, n); }
    assert forall|a: int| 0 <= a < n implies #[trigger] xk(a) == dv(crow(t, m, a, l), vk, n) by { lemma_dotp_dv(p, tr(vt), a, k, n, crow(t, m, a, l), vk); }
    lemma_quad(t, m, vk, xk, l); lemma_sqs(t, m, vk, l);
    lemma_dv_zero(vk, xk, n);
}
/// all points of t on one line (in the plane: all equal)
pub open spec fn on_line<const N: usize>(t: Seq<Point<S, N>>, o: VF, d: VF, l: VF) -> bool {
    (N == 2 ==> d(0) == 0real && d(1) == 0real) && forall|p: int, i: int| 0 <= p < t.len() && 0 <= i < N ==> #[trigger] t[p].c(i).r() == o(i) + l(p) * d(i)
}
pub open spec fn flat<const N: usize>(t: Seq<Point<S, N>>) -> bool { exists|o: VF, d: VF, l: VF| #[trigger] on_line(t, o, d, l) }
/// off a line, all but the last singular value are positive
pub proof fn lemma_rank<const N: usize>(t: Seq<Point<S, N>>, m: Point<S, N>, g: RM, u: RM, s: RM, vt: RM, k: int)
    requires N == 2 || N == 3, orth(N as int, g), within(N as int, g), factors(N as int, prod(N as int, g, scatter(t, m)), u, s, vt), descending(N as int, s), !flat(t), 0 <= k < N - 1
    ensures s(k, 0) > 0real
{
    let n = N as int;
    assert(s(k, 0) >= 0real && s(n - 2, 0) >= 0real && s(n - 1, 0) >= 0real);
    assert(s(n - 2, 0) <= s(k, 0)); assert(s(n - 1, 0) <= s(n - 2, 0));
    if s(n - 2, 0) == 0real {
        lemma_null(t, m, g, u, s, vt, n - 1); lemma_null(t, m, g, u, s, vt, n - 2);
        let o: VF = |i: int| m.c(i).r();
        let d: VF = |i: int| if n == 3 { vt(0, i) } else { 0real };
        let l: VF = |p: int| dv(rowf(vt, 0), dev(t, m, p), n);
        assert forall|p: int, i: int| 0 <= p < t.len() && 0 <= i < N implies #[trigger] t[p].c(i).r() == o(i) + l(p) * d(i) by {
            let e = dev(t, m, p);
            let y: VF = |a: int| dv(rowf(vt, a), e, n);
            lemma_undo(n, vt, e, y, i);
            lemma_dv_comm(rowf(vt, n - 1), e, n); lemma_dv_comm(rowf(vt, n - 2), e, n);
            assert(dv(e, rowf(vt, n - 1), n) == 0real); assert(dv(e, rowf(vt, n - 2), n) == 0real);
            assert(y(n - 1) == 0real && y(n - 2) == 0real);
            reveal_with_fuel(dv, 4);
            let (a, b, c) = (vt(0, i), vt(1, i), vt(2, i));
            l_z(a); l_z(b); l_z(c); l_z(l(p));
            l_co(a, y(0));
        }
        assert(on_line(t, o, d, l));
    }
}
/// u = g v in all but the last column: the repaired product is g
pub proof fn lemma_align(n: int, g: RM, u: RM, vt: RM)
    requires n == 2 || n == 3, proper(n, g), within(n, g), within(n, u), within(n, vt), orth(n, u), orth(n, vt), forall|i: int, k: int| 0 <= i < n && 0 <= k < n - 1 ==> #[trigger] prod(n, g, tr(vt))(i, k) == u(i, k)
    ensures repaired(n, u, vt) == g
{
    let gv = prod(n, g, tr(vt));
    assert(within(n, tr(vt)) && within(n, tr(u)) && within(n, gv));
    assert(orth(n, tr(vt)) && orth(n, tr(u))) by { assert(tr(tr(vt)) =~= vt && tr(tr(u)) =~= u); }
    lemma_orth_prod(n, g, tr(vt));
    let w = prod(n, tr(u), gv);
    lemma_orth_prod(n, tr(u), gv);
    let ww = prod(n, tr(w), w); let uu = prod(n, tr(u), u);
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n - 1 implies #[trigger] w(i, k) == (if i == k { 1real } else { 0real }) by {
        assert forall|a: int| 0 <= a < n implies #[trigger] tr(u)(i, a) * gv(a, k) == tr(u)(i, a) * u(a, k) by { assert(gv(a, k) == u(a, k)); }
        lemma_dotp_ext(tr(u), gv, tr(u), u, i, k, i, k, n);
        assert(w(i, k) == uu(i, k)); assert(uu(i, k) == idm(n)(i, k));
    }
    let z = w(n - 1, n - 1);
    assert forall|k: int| 0 <= k < n - 1 implies #[trigger] w(k, n - 1) == 0real by {
        assert(ww(k, n - 1) == idm(n)(k, n - 1));
        reveal_with_fuel(dotp, 4);
        assert(w(k, k) == 1real && w(n - 1, k) == 0real);
        if n == 3 { assert(w(1 - k, k) == 0real); let y = w(1 - k, n - 1); assert(0real * y == 0real); }
        let x = w(k, n - 1); assert(1real * x == x); assert(0real * z == 0real);
    }
    assert(z * z == 1real) by {
        assert(ww(n - 1, n - 1) == idm(n)(n - 1, n - 1));
        reveal_with_fuel(dotp, 4);
        assert(w(0, n - 1) == 0real && (n == 3 ==> w(1, n - 1) == 0real)); assert(0real * 0real == 0real);
    }
    assert(z == 1real || z == -1real) by(nonlinear_arith) requires z * z == 1real;
    // g v = u w
    lemma_assoc(n, u, tr(u), gv); lemma_id(n, gv);
    assert(gv == prod(n, u, w));
    lemma_assoc(n, g, tr(vt), vt); lemma_id(n, g);
    assert(g == prod(n, gv, vt));
    lemma_det_mul(n, u, vt); lemma_det_mul(n, flip(n, u), vt); lemma_det_flip(n, u);
    let (d, e) = (det(n, u), det(n, vt));
    assert((-d) * e == -(d * e)) by(nonlinear_arith);
    if z == 1real {
        assert forall|i: int, k: int| #[trigger] w(i, k) == idm(n)(i, k) by { if 0 <= i < n && 0 <= k < n { if k < n - 1 { } else if i < n - 1 { } else { } } }
        assert(w =~= idm(n)); lemma_id(n, u);
    } else {
        assert forall|i: int, k: int| #[trigger] w(i, k) == flip(n, idm(n))(i, k) by { if 0 <= i < n && 0 <= k < n { if k < n - 1 { } else if i < n - 1 { } else { } } }
        assert(w =~= flip(n, idm(n)));
        lemma_flip_id(n, u);
    }
}
pub proof fn lemma_flip_id(n: int, u: RM) requires n == 2 || n == 3, within(n, u) ensures prod(n, u, flip(n, idm(n))) == flip(n, u) {
    let (x, y) = (prod(n, u, flip(n, idm(n))), flip(n, u));
    let f = flip(n, idm(n));
    lemma_id(n, u);
    assert forall|i: int, j: int| #[trigger] x(i, j) == y(i, j) by {
        if 0 <= i < n && 0 <= j < n {
            let c = if j == n - 1 { -1real } else { 1real };
            assert(prod(n, u, idm(n))(i, j) == u(i, j));
            let (ui, fj, dj, o): (VF, VF, VF, VF) = (|a: int| u(i, a), |a: int| f(a, j), |a: int| idm(n)(a, j), |a: int| 0real);
            assert forall|a: int| 0 <= a < n implies #[trigger] fj(a) == o(a) + c * dj(a) by { let q = dj(a); assert(1real * q == q && -1real * q == -q); }
            lemma_dv_lin(ui, o, c, dj, fj, n); lemma_dv_zero(ui, o, n);
            lemma_dotp_dv(u, f, i, j, n, ui, fj); lemma_dotp_dv(u, idm(n), i, j, n, ui, dj);
            let q = u(i, j); assert(1real * q == q && -1real * q == -q);
        }
    }
    assert(x =~= y);
}

// ---- a rigidly moved cloud: the covariance with its image is (rotation) * (scatter) ----
/// the motion x -> g x + w
pub open spec fn carried<const N: usize>(g: RM, w: VF, p: Point<S, N>, i: int) -> real { mv(g, p, i) + w(i) }
/// q is where the motion takes p
pub open spec fn image<const N: usize>(g: RM, w: VF, p: Point<S, N>, q: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] q.c(i).r() == carried(g, w, p, i) }
pub open spec fn cf<const N: usize>(p: Point<S, N>) -> VF { |i: int| p.c(i).r() }
pub proof fn lemma_mv_dv<const N: usize>(g: RM, p: Point<S, N>, i: int) ensures mv(g, p, i) == dv(rowf(g, i), cf(p), N as int) { lemma_dotp_dv(g, col(p), i, 0, N as int, rowf(g, i), cf(p)); }
pub open spec fn csumf<const N: usize>(a: Seq<Point<S, N>>, k: int) -> VF { |i: int| csum(a, i, k) }
pub proof fn lemma_csum_image<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, g: RM, w: VF, i: int, k: int)
    requires 0 <= i < N, 0 <= k <= t.len(), cl.len() == t.len(), forall|p: int| 0 <= p < t.len() ==> image(g, w, #[trigger] t[p], cl[p])
    ensures csum(cl, i, k) == dv(rowf(g, i), csumf(t, k), N as int) + (k as real) * w(i) decreases k
{
    let n = N as int; let r = rowf(g, i);
    if k > 0 {
        lemma_csum_image(t, cl, g, w, i, k - 1);
        assert(image(g, w, t[k - 1], cl[k - 1]));
        assert(cl[k - 1].c(i).r() == carried(g, w, t[k - 1], i));
        lemma_mv_dv(g, t[k - 1], i);
        let (c0, c1, p) = (csumf(t, k - 1), csumf(t, k), cf(t[k - 1]));
        assert forall|j: int| 0 <= j < n implies #[trigger] c1(j) == c0(j) + 1real * p(j) by { let x = p(j); assert(1real * x == x); }
        lemma_dv_lin(r, c0, 1real, p, c1, n);
        let (x, y, k1) = (dv(r, p, n), w(i), (k - 1) as real);
        assert(1real * x == x && 1real * y == y);
        l_dr(k1, 1real, y);
        assert(k as real == k1 + 1real);
    } else {
        lemma_dv_zero(r, csumf(t, k), n);
        let y = w(i); assert(0real * y == 0real);
    }
}
/// the motion takes the mean to the mean
pub proof fn lemma_mean_image<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, ma: Point<S, N>, mb: Point<S, N>, g: RM, w: VF)
    requires t.len() > 0, cl.len() == t.len(), forall|p: int| 0 <= p < t.len() ==> image(g, w, #[trigger] t[p], cl[p]), is_mean(t, ma), is_mean(cl, mb)
    ensures image(g, w, ma, mb)
{
    let n = N as int; let l = t.len() as int; let lr = l as real;
    assert forall|i: int| 0 <= i < N implies #[trigger] mb.c(i).r() == carried(g, w, ma, i) by {
        lemma_csum_image(t, cl, g, w, i, l); lemma_mv_dv(g, ma, i);
        let (r, c, m, o): (VF, VF, VF, VF) = (rowf(g, i), csumf(t, l), cf(ma), |j: int| 0real);
        assert forall|j: int| 0 <= j < n implies #[trigger] c(j) == o(j) + lr * m(j) by {
            assert(!ma.c(j).nan());
            let (x, y) = (m(j), c(j));
            assert(x == y / lr);
            assert(lr * x == y) by(nonlinear_arith) requires x == y / lr, lr > 0real;
        }
        lemma_dv_lin(r, o, lr, m, c, n); lemma_dv_zero(r, o, n);
        assert(!mb.c(i).nan());
        let (x, y, z, v) = (mb.c(i).r(), csum(cl, i, l), dv(r, m, n), w(i));
        assert(x == y / lr && y == lr * z + lr * v);
        assert(x == z + v) by(nonlinear_arith) requires x == y / lr, y == lr * z + lr * v, lr > 0real;
    }
}
pub proof fn lemma_dev_image<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, ma: Point<S, N>, mb: Point<S, N>, g: RM, w: VF, p: int, j: int)
    requires 0 <= p < t.len(), cl.len() == t.len(), image(g, w, t[p], cl[p]), image(g, w, ma, mb), 0 <= j < N
    ensures cl[p].c(j).r() - mb.c(j).r() == dv(rowf(g, j), dev(t, ma, p), N as int)
{
    lemma_mv_dv(g, t[p], j); lemma_mv_dv(g, ma, j);
    assert(cl[p].c(j).r() == carried(g, w, t[p], j)); assert(mb.c(j).r() == carried(g, w, ma, j));
    let (d, x, y) = (dev(t, ma, p), cf(t[p]), cf(ma));
    assert forall|i: int| 0 <= i < N implies #[trigger] d(i) == x(i) + (-1real) * y(i) by { let z = y(i); assert((-1real) * z == -z); }
    lemma_dv_lin(rowf(g, j), x, -1real, y, d, N as int);
    let z = dv(rowf(g, j), y, N as int); assert((-1real) * z == -z);
}
pub proof fn lemma_cov_image<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, ma: Point<S, N>, mb: Point<S, N>, g: RM, w: VF, i: int, j: int, k: int)
    requires 0 <= i < N, 0 <= j < N, 0 <= k <= t.len(), cl.len() == t.len(), forall|p: int| 0 <= p < t.len() ==> image(g, w, #[trigger] t[p], cl[p]), image(g, w, ma, mb)
    ensures cov(t, cl, ma, mb, i, j, k) == dv(rowf(g, j), crow(t, ma, i, k), N as int) decreases k
{
    let n = N as int; let r = rowf(g, j);
    if k > 0 {
        lemma_cov_image(t, cl, ma, mb, g, w, i, j, k - 1);
        assert(image(g, w, t[k - 1], cl[k - 1]));
        lemma_dev_image(t, cl, ma, mb, g, w, k - 1, j);
        let (c0, c1, d) = (crow(t, ma, i, k - 1), crow(t, ma, i, k), dev(t, ma, k - 1));
        assert forall|a: int| 0 <= a < n implies #[trigger] c1(a) == c0(a) + d(i) * d(a) by {}
        lemma_dv_lin(r, c0, d(i), d, c1, n);
    } else { lemma_dv_zero(r, crow(t, ma, i, k), n); }
}
/// Kabsch: the estimate for the covariance of a cloud with its image is the rotation
pub proof fn lemma_kabsch<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, ma: Point<S, N>, mb: Point<S, N>, c: SMatrix<S, N, N>, g: RM, w: VF, m: RM)
    requires N == 2 || N == 3, t.len() > 0, cl.len() == t.len(), forall|p: int| 0 <= p < t.len() ==> image(g, w, #[trigger] t[p], cl[p]), is_mean(t, ma), is_mean(cl, mb),
        is_cov(t, cl, ma, mb, c, t.len() as int), proper(N as int, g), within(N as int, g), !flat(t), estimate(N as int, rm(c), m)
    ensures m == g, image(g, w, ma, mb)
{
    let n = N as int; let l = t.len() as int;
    lemma_mean_image(t, cl, ma, mb, g, w);
    let p = scatter(t, ma); let h = prod(n, g, p);
    assert forall|i: int, j: int| #[trigger] rm(c)(i, j) == h(i, j) by { if 0 <= i < n && 0 <= j < n {
        assert(!c.data.0[j][i].nan());
        lemma_cov_image(t, cl, ma, mb, g, w, j, i, l);
        let e = crow(t, ma, j, l);
        assert forall|a: int| 0 <= a < n implies g(i, a) == #[trigger] rowf(g, i)(a) && p(a, j) == e(a) by { lemma_cov_sym(t, ma, a, j, l); }
        lemma_dotp_dv(g, p, i, j, n, rowf(g, i), e);
    } }
    assert(rm(c) =~= h);
    let (u, s, vt) = choose|u: RM, s: RM, vt: RM| #[trigger] factors(n, h, u, s, vt) && descending(n, s) && m == repaired(n, u, vt);
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n - 1 implies #[trigger] prod(n, g, tr(vt))(i, k) == u(i, k) by {
        lemma_rank(t, ma, g, u, s, vt, k); lemma_column(t, ma, g, u, s, vt, k, i);
    }
    lemma_align(n, g, u, vt);
}

// ---- two iterations ----
/// the motion takes p to a point of b, strictly nearer to p than any other point of b
pub open spec fn partner<const N: usize>(b: Seq<Point<S, N>>, g: RM, w: VF, p: Point<S, N>) -> bool {
    exists|q: Point<S, N>| b.contains(q) && #[trigger] image(g, w, p, q) && forall|l: int| 0 <= l < b.len() ==> image(g, w, p, #[trigger] b[l]) || dsq(p, q) < dsq(p, b[l])
}
pub open spec fn partnered<const N: usize>(t: Seq<Point<S, N>>, b: Seq<Point<S, N>>, g: RM, w: VF) -> bool { forall|i: int| 0 <= i < t.len() ==> partner(b, g, w, #[trigger] t[i]) }
/// the transform is the motion
pub open spec fn is_motion<const N: usize>(m: Isometry<S, Rot, N>, g: RM, w: VF) -> bool { forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N ==> s_is(#[trigger] iso_apply(m, p).c(i), carried(g, w, p, i)) }
pub open spec fn same<const N: usize>(p: Point<S, N>, q: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] p.c(i).r() == q.c(i).r() }
/// the points of the state are the source under the transform of the state
pub open spec fn synced<const N: usize>(a: Seq<Point<S, N>>, s: St<N>) -> bool { s.pts.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] s.pts[i], iso_apply(s.iso, a[i])) }
pub open spec fn motion_after<const N: usize>(s: Isometry<S, Rot, N>, t: Isometry<S, Rot, N>, g: RM, w: VF) -> bool { forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N ==> s_is(#[trigger] iso_apply(t, p).c(i), carried(g, w, iso_apply(s, p), i)) }
pub proof fn lemma_same_image<const N: usize>(g: RM, w: VF, p: Point<S, N>, q: Point<S, N>, i: int) requires same(p, q) ensures carried(g, w, p, i) == carried(g, w, q, i) {
    lemma_mv_dv(g, p, i); lemma_mv_dv(g, q, i);
    assert forall|j: int| 0 <= j < N implies #[trigger] cf(p)(j) == cf(q)(j) by { assert(p.c(j).r() == q.c(j).r()); }
    lemma_dv_comm(rowf(g, i), cf(p), N as int); lemma_dv_comm(rowf(g, i), cf(q), N as int);
    lemma_dv_ext(cf(p), rowf(g, i), cf(q), rowf(g, i), N as int);
}
/// exact squared distance: zero just for equal coordinates, else positive
pub proof fn lemma_dsq_zero<const N: usize>(p: Point<S, N>, q: Point<S, N>, k: int) requires k <= N
    ensures dsqr(p, q, k) >= 0real, dsqr(p, q, k) <= 0real ==> forall|i: int| 0 <= i < k ==> #[trigger] p.c(i).r() == q.c(i).r(),
        (forall|i: int| 0 <= i < k ==> #[trigger] p.c(i).r() == q.c(i).r()) ==> dsqr(p, q, k) == 0real decreases k {
    if k > 0 {
        lemma_dsq_zero(p, q, k - 1);
        let x = p.c(k - 1).r() - q.c(k - 1).r();
        assert(x * x >= 0real && (x * x <= 0real ==> x == 0real) && (x == 0real ==> x * x == 0real)) by(nonlinear_arith);
        ax_exact(x); ax_exact(x * x); ax_exact(dsqr(p, q, k - 1) + x * x);
    }
}
/// an iteration from points whose images under the motion are their nearest neighbours: the motion, without error
pub proof fn lemma_hit<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, s: St<N>, t: St<N>, r: Result<S, ICPError<S, N>>, g: RM, w: VF)
    requires N == 2 || N == 3, iter(a, b, cfg, s, t, r), a.len() > 0, clean(a), synced(a, s), partnered(s.pts, b, g, w), proper(N as int, g), within(N as int, g), !flat(s.pts)
    ensures motion_after(s.iso, t.iso, g, w), exists|e: S| s_is(e, 0real) && r is Ok == #[trigger] converged(cfg, s.prev, e) && (r is Ok ==> r->Ok_0 == e) && (r is Err ==> t.prev == e),
        synced(a, t), t.pts.len() == a.len()
{
    reveal(iter);
    let (cl, c, ma, mb, e) = choose|cl: Seq<Point<S, N>>, c: SMatrix<S, N, N>, ma: Point<S, N>, mb: Point<S, N>, e: S| {
        &&& #[trigger] step(a, b, cfg, s, t, cl, c, ma, mb, e)
        &&& r == if converged(cfg, s.prev, e) { Ok(e) } else { Err(ICPError::IterationDidNotConverge((ma, mb))) }
        &&& !converged(cfg, s.prev, e) ==> t.prev == e
    };
    assert forall|p: int| 0 <= p < s.pts.len() implies image(g, w, #[trigger] s.pts[p], cl[p]) by {
        assert(near(b, s.pts[p], cl[p]));
        assert(partner(b, g, w, s.pts[p]));
        let q = choose|q: Point<S, N>| b.contains(q) && #[trigger] image(g, w, s.pts[p], q) && forall|l: int| 0 <= l < b.len() ==> image(g, w, s.pts[p], #[trigger] b[l]) || dsq(s.pts[p], q) < dsq(s.pts[p], b[l]);
        let j = choose|j: int| 0 <= j < b.len() && b[j] == q;
        let l = choose|l: int| 0 <= l < b.len() && b[l] == cl[p];
        assert(dsq(s.pts[p], cl[p]) <= dsq(s.pts[p], b[j]));
        assert(image(g, w, s.pts[p], b[l]) || dsq(s.pts[p], q) < dsq(s.pts[p], b[l]));
    }
    let m = choose|m: RM| #[trigger] proper(N as int, m) && estimate(N as int, rm(c), m) && after(s.iso, ma, mb, m, t.iso);
    lemma_kabsch(s.pts, cl, ma, mb, c, g, w, m);
    assert forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N implies s_is(#[trigger] iso_apply(t.iso, p).c(i), carried(g, w, iso_apply(s.iso, p), i)) by {
        assert(s_is(iso_apply(t.iso, p).c(i), motion(m, ma, mb, iso_apply(s.iso, p), i)));
        assert(mb.c(i).r() == carried(g, w, ma, i));
    }
    assert forall|p: int| 0 <= p < a.len() implies same(#[trigger] t.pts[p], cl[p]) && t.pts[p] == iso_apply(t.iso, a[p]) by {
        assert(!pnan(a[p]));
        assert(image(g, w, s.pts[p], cl[p])); assert(same(s.pts[p], iso_apply(s.iso, a[p])));
        assert forall|i: int| 0 <= i < N implies #[trigger] t.pts[p].c(i).r() == cl[p].c(i).r() by {
            lemma_same_image(g, w, s.pts[p], iso_apply(s.iso, a[p]), i);
            assert(s_is(iso_apply(t.iso, a[p]).c(i), carried(g, w, iso_apply(s.iso, a[p]), i)));
            assert(cl[p].c(i).r() == carried(g, w, s.pts[p], i));
        }
    }
    lemma_sse_zero(t.pts, cl, a.len() as int);
    assert(s_is(e, 0real));
    assert(r is Ok == converged(cfg, s.prev, e));
}
pub proof fn lemma_sse_zero<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, k: int) requires forall|p: int| 0 <= p < k ==> same(#[trigger] t[p], cl[p]) ensures sse(t, cl, k) == 0real decreases k {
    if k > 0 { lemma_sse_zero(t, cl, k - 1); assert(same(t[k - 1], cl[k - 1])); lemma_dsq_zero(t[k - 1], cl[k - 1], N as int); }
}
pub open spec fn zerov() -> VF { |i: int| 0real }
pub proof fn lemma_idm_carried<const N: usize>(p: Point<S, N>, i: int) requires 0 <= i < N ensures carried(idm(N as int), zerov(), p, i) == p.c(i).r() { lemma_id_l(N as int, col(p), i, 0, N as int); }
pub proof fn lemma_idm_proper(n: int) requires n == 2 || n == 3 ensures proper(n, idm(n)), within(n, idm(n)) { assert(within(n, idm(n))); assert(tr(idm(n)) =~= idm(n)); lemma_id(n, idm(n)); lemma_det_id(n); }
/// a moved cloud is flat only if the cloud is
pub proof fn lemma_flat<const N: usize>(a: Seq<Point<S, N>>, t: Seq<Point<S, N>>, g: RM, w: VF)
    requires N == 2 || N == 3, orth(N as int, g), t.len() == a.len(), forall|p: int| 0 <= p < a.len() ==> image(g, w, #[trigger] a[p], t[p]), flat(t)
    ensures flat(a)
{
    let n = N as int;
    let (o, d, l) = choose|o: VF, d: VF, l: VF| #[trigger] on_line(t, o, d, l);
    let ow: VF = |i: int| o(i) + (-1real) * w(i);
    let o2: VF = |c: int| dv(colf(g, c), ow, n);
    let d2: VF = |c: int| dv(colf(g, c), d, n);
    if N == 2 { lemma_dv_zero(colf(g, 0), d, n); lemma_dv_zero(colf(g, 1), d, n); }
    assert forall|p: int, c: int| 0 <= p < a.len() && 0 <= c < N implies #[trigger] a[p].c(c).r() == o2(c) + l(p) * d2(c) by {
        let x = cf(a[p]);
        let y: VF = |k: int| dv(rowf(g, k), x, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == ow(k) + l(p) * d(k) by {
            assert(image(g, w, a[p], t[p])); assert(t[p].c(k).r() == carried(g, w, a[p], k)); lemma_mv_dv(g, a[p], k);
            let z = w(k); assert((-1real) * z == -z);
        }
        lemma_undo(n, g, x, y, c);
        lemma_dv_lin(colf(g, c), ow, l(p), d, y, n);
    }
    assert(on_line(a, o2, d2, l));
}
pub open spec fn positive_eps() -> bool { !s_eps().nan() && s_eps().r() > 0real }
/// the clouds are related by the motion (g, w), small enough that nearest neighbours are the true counterparts; the source is not on one line (in the plane: not one point)
pub open spec fn related<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, g: RM, w: VF) -> bool { proper(N as int, g) && within(N as int, g) && partnered(a, b, g, w) && !flat(a) }
/// ICP has the iterations it needs: one to find the motion, and one to see that the error no longer changes, unless an absolute threshold sees it at once
pub open spec fn affords(cfg: ICPConfiguration<S>) -> bool { !cfg.mse_interval_threshold.nan() && (cfg.max_iterations >= 2 || cfg.mse_absolute_threshold is Some) }
pub open spec fn is_recovery<const N: usize>(r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>, g: RM, w: VF) -> bool { r matches Ok(s) && is_motion(s.transform, g, w) && s_is(s.mse, 0real) && s.iteration_num <= 1 }
pub open spec fn recovers<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>) -> bool {
    affords(cfg) ==> forall|g: RM, w: VF| #[trigger] related(a, b, g, w) ==> is_recovery(r, g, w)
}
pub proof fn lemma_start<const N: usize>(a: Seq<Point<S, N>>, s: St<N>) requires s.pts == a, clean(a), is_identity(s.iso) ensures synced(a, s) {
    assert forall|i: int| 0 <= i < a.len() implies same(#[trigger] s.pts[i], iso_apply(s.iso, a[i])) by {
        assert(!pnan(a[i]));
        assert forall|k: int| 0 <= k < N implies #[trigger] s.pts[i].c(k).r() == iso_apply(s.iso, a[i]).c(k).r() by { assert(s_is(iso_apply(s.iso, a[i]).c(k), a[i].c(k).r())); }
    }
}
pub proof fn lemma_compose<const N: usize>(s: Isometry<S, Rot, N>, t: Isometry<S, Rot, N>, g: RM, w: VF) requires motion_after(s, t, g, w), is_identity(s) ensures is_motion(t, g, w) {
    assert forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N implies s_is(#[trigger] iso_apply(t, p).c(i), carried(g, w, p, i)) by {
        let q = iso_apply(s, p);
        assert(s_is(iso_apply(t, p).c(i), carried(g, w, q, i)));
        assert forall|k: int| 0 <= k < N implies #[trigger] q.c(k).r() == p.c(k).r() by { assert(s_is(iso_apply(s, p).c(k), p.c(k).r())); }
        lemma_same_image(g, w, q, p, i);
    }
}
pub proof fn lemma_stay<const N: usize>(s: Isometry<S, Rot, N>, t: Isometry<S, Rot, N>, g: RM, w: VF) requires motion_after(s, t, idm(N as int), zerov()), is_motion(s, g, w) ensures is_motion(t, g, w) {
    assert forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N implies s_is(#[trigger] iso_apply(t, p).c(i), carried(g, w, p, i)) by {
        let q = iso_apply(s, p);
        assert(s_is(iso_apply(t, p).c(i), carried(idm(N as int), zerov(), q, i)));
        lemma_idm_carried(q, i);
        assert(s_is(iso_apply(s, p).c(i), carried(g, w, p, i)));
    }
}
/// points that have arrived are their own nearest neighbours
pub proof fn lemma_arrived<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, t: St<N>, g: RM, w: VF)
    requires clean(a), synced(a, t), is_motion(t.iso, g, w), partnered(a, b, g, w)
    ensures partnered(t.pts, b, idm(N as int), zerov()), forall|p: int| 0 <= p < a.len() ==> image(g, w, #[trigger] a[p], t.pts[p])
{
    let (id, z) = (idm(N as int), zerov());
    assert forall|p: int| 0 <= p < a.len() implies image(g, w, #[trigger] a[p], t.pts[p]) by {
        assert(!pnan(a[p])); assert(same(t.pts[p], iso_apply(t.iso, a[p])));
        assert forall|i: int| 0 <= i < N implies #[trigger] t.pts[p].c(i).r() == carried(g, w, a[p], i) by { assert(s_is(iso_apply(t.iso, a[p]).c(i), carried(g, w, a[p], i))); assert(t.pts[p].c(i).r() == iso_apply(t.iso, a[p]).c(i).r()); }
    }
    assert forall|p: int| 0 <= p < t.pts.len() implies partner(b, id, z, #[trigger] t.pts[p]) by {
        assert(partner(b, g, w, a[p]));
        let q = choose|q: Point<S, N>| b.contains(q) && #[trigger] image(g, w, a[p], q) && forall|l: int| 0 <= l < b.len() ==> image(g, w, a[p], #[trigger] b[l]) || dsq(a[p], q) < dsq(a[p], b[l]);
        let x = t.pts[p];
        assert(image(g, w, a[p], x));
        assert forall|i: int| 0 <= i < N implies #[trigger] q.c(i).r() == carried(id, z, x, i) && x.c(i).r() == q.c(i).r() by { lemma_idm_carried(x, i); assert(x.c(i).r() == carried(g, w, a[p], i)); }
        lemma_dsq_zero(x, q, N as int);
        assert forall|l: int| 0 <= l < b.len() implies image(id, z, x, #[trigger] b[l]) || dsq(x, q) < dsq(x, b[l]) by {
            lemma_dsq_zero(x, b[l], N as int);
            if dsq(x, b[l]) <= 0real { assert forall|i: int| 0 <= i < N implies #[trigger] b[l].c(i).r() == carried(id, z, x, i) by { lemma_idm_carried(x, i); assert(x.c(i).r() == b[l].c(i).r()); } }
        }
        assert(image(id, z, x, q));
    }
}
/// the states of a run and its outcome, for clouds related by a motion
pub proof fn lemma_recovered<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>)
    requires N == 2 || N == 3, refusal(a, b, cfg) is None, clean(a), run(a, b, cfg, tr), outcome(a, b, cfg, tr, r)
    ensures recovers(a, b, cfg, r)
{
    ax_eps();
    if affords(cfg) {
        assert forall|g: RM, w: VF| #[trigger] related(a, b, g, w) implies is_recovery(r, g, w) by { lemma_recovered_by(a, b, cfg, tr, r, g, w); }
    }
}
pub proof fn lemma_recovered_by<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>, g: RM, w: VF)
    requires N == 2 || N == 3, refusal(a, b, cfg) is None, clean(a), run(a, b, cfg, tr), outcome(a, b, cfg, tr, r), affords(cfg), related(a, b, g, w), positive_eps()
    ensures is_recovery(r, g, w)
{
    let s0 = tr[0];
    lemma_start(a, s0);
    if tr.len() == 1 {
        // the first iteration succeeded: the outcome is a success, as at least one iteration was allowed
        assert(r is Ok);
        let s = r->Ok_0;
        let (t, q) = choose|t: St<N>, q: Result<S, ICPError<S, N>>| #[trigger] iter(a, b, cfg, tr.last(), t, q) && q == Result::<S, ICPError<S, N>>::Ok(s.mse) && t.iso == s.transform;
        lemma_hit(a, b, cfg, s0, t, q, g, w);
        lemma_compose(s0.iso, t.iso, g, w);
    } else {
        assert(fails(a, b, cfg, tr, 0));
        let x = choose|e: ICPError<S, N>| #[trigger] iter(a, b, cfg, tr[0], tr[1], Err(e));
        let s1 = tr[1];
        lemma_hit(a, b, cfg, s0, s1, Err(x), g, w);
        // an absolute threshold would have stopped here: so at least two iterations were allowed
        assert(cfg.max_iterations >= 2) by {
            if cfg.mse_absolute_threshold is Some { let th = cfg.mse_absolute_threshold->0; assert(!s_le(th, s_eps()) && !th.nan()); assert forall|e: S| s_is(e, 0real) implies #[trigger] converged(cfg, s0.prev, e) by { assert(s_lt(e, th)); } }
        }
        lemma_compose(s0.iso, s1.iso, g, w);
        lemma_arrived(a, b, s1, g, w);
        if flat(s1.pts) { lemma_flat(a, s1.pts, g, w); }
        lemma_idm_proper(N as int);
        assert(s_is(s1.prev, 0real));
        assert(!s_le(cfg.mse_interval_threshold, s_eps()));
        assert forall|e: S| s_is(e, 0real) implies #[trigger] converged(cfg, s1.prev, e) by {}
        if tr.len() > 2 {
            assert(fails(a, b, cfg, tr, 1));
            let y = choose|e: ICPError<S, N>| #[trigger] iter(a, b, cfg, tr[1], tr[2], Err(e));
            lemma_hit(a, b, cfg, s1, tr[2], Err(y), idm(N as int), zerov());
        }
        assert(r is Ok);
        let s = r->Ok_0;
        let (t, q) = choose|t: St<N>, q: Result<S, ICPError<S, N>>| #[trigger] iter(a, b, cfg, tr.last(), t, q) && q == Result::<S, ICPError<S, N>>::Ok(s.mse) && t.iso == s.transform;
        lemma_hit(a, b, cfg, s1, t, q, idm(N as int), zerov());
        lemma_stay(s1.iso, t.iso, g, w);
    }
}
