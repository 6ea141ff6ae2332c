// ---- shim/mat.rs: real matrices, and nalgebra's matrix product, determinant and SVD over them (exact arithmetic) ----
pub type RM = spec_fn(int, int) -> real;
pub open spec fn rm<const RR: usize, const CC: usize>(m: SMatrix<S, RR, CC>) -> RM { |i: int, j: int| if 0 <= i < RR && 0 <= j < CC { m.data.0[j][i].r() } else { 0real } }
pub open spec fn mclean<const RR: usize, const CC: usize>(m: SMatrix<S, RR, CC>) -> bool { forall|i: int, j: int| 0 <= i < RR && 0 <= j < CC ==> !(#[trigger] m.data.0[j][i]).nan() }
/// sum over t < k of a(i, t) b(t, j)
pub open spec fn dotp(a: RM, b: RM, i: int, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { dotp(a, b, i, j, k - 1) + a(i, k - 1) * b(k - 1, j) } }
pub open spec fn prod3(n: int, m: int, l: int, a: RM, b: RM) -> RM { |i: int, j: int| if 0 <= i < n && 0 <= j < l { dotp(a, b, i, j, m) } else { 0real } }
pub open spec fn prod(n: int, a: RM, b: RM) -> RM { prod3(n, n, n, a, b) }
pub open spec fn tr(a: RM) -> RM { |i: int, j: int| a(j, i) }
pub open spec fn idm(n: int) -> RM { |i: int, j: int| if i == j && 0 <= i < n { 1real } else { 0real } }
pub open spec fn diag(n: int, s: RM) -> RM { |i: int, j: int| if i == j && 0 <= i < n { s(i, 0) } else { 0real } }
pub open spec fn orth(n: int, a: RM) -> bool { prod(n, a, tr(a)) == idm(n) && prod(n, tr(a), a) == idm(n) }
/// the last column negated
pub open spec fn flip(n: int, a: RM) -> RM { |i: int, j: int| if j == n - 1 { -a(i, j) } else { a(i, j) } }
/// an orthogonal matrix of determinant 1
pub open spec fn proper(n: int, a: RM) -> bool { orth(n, a) && det(n, a) == 1real }
/// m = u diag(s) vt with u, vt orthogonal and s >= 0
pub open spec fn factors(n: int, m: RM, u: RM, s: RM, vt: RM) -> bool {
    within(n, u) && within(n, vt) && orth(n, u) && orth(n, vt) && m == prod(n, u, prod(n, diag(n, s), vt)) && forall|i: int| 0 <= i < n ==> #[trigger] s(i, 0) >= 0real
}
pub open spec fn descending(n: int, s: RM) -> bool { forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] s(j, 0) <= #[trigger] s(i, 0) }
#[verifier::accept_recursive_types(P)]
pub struct SVD<P, const N: usize> { pub u: Option<SMatrix<P, N, N>>, pub v_t: Option<SMatrix<P, N, N>>, pub singular_values: SMatrix<P, N, 1> }
pub open spec fn svd_of<const N: usize>(m: SMatrix<S, N, N>, cu: bool, cv: bool, sorted: bool, r: SVD<S, N>) -> bool {
    &&& (r.u is Some <==> cu) && (r.v_t is Some <==> cv) && mclean(r.singular_values)
    &&& cu ==> mclean(r.u->0)
    &&& cv ==> mclean(r.v_t->0)
    &&& cu && cv ==> factors(N as int, rm(m), rm(r.u->0), rm(r.singular_values), rm(r.v_t->0))
    &&& sorted ==> descending(N as int, rm(r.singular_values))
}
impl<const N: usize> SMatrix<S, N, N> {
    /// nalgebra: the singular values in descending order
    #[verifier::external_body]
    pub fn svd(self, cu: bool, cv: bool) -> (r: SVD<S, N>) requires mclean(self) ensures svd_of(self, cu, cv, true, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn svd_unordered(self, cu: bool, cv: bool) -> (r: SVD<S, N>) requires mclean(self) ensures svd_of(self, cu, cv, false, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn determinant(&self) -> (r: S) ensures mclean(*self) && (N == 2 || N == 3) ==> s_is(r, det(N as int, rm(*self))) { unimplemented!() }
    #[verifier::external_body]
    pub fn transpose(&self) -> (r: Self) ensures forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] r.data.0[j][i] == self.data.0[i][j] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_column_len(&self, j: usize) -> (r: usize) requires j < N ensures r == N { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mat_at(&self, i: usize, j: usize) -> (r: &S) requires i < N, j < N ensures *r == self.data.0[j as int][i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mat_set(&mut self, i: usize, j: usize, v: S) requires i < N, j < N
        ensures forall|a: int, b: int| 0 <= a < N && 0 <= b < N ==> #[trigger] final(self).data.0[b][a] == (if a == i && b == j { v } else { old(self).data.0[b][a] }) { unimplemented!() }
}
pub uninterp spec fn m_mul<const RR: usize, const KK: usize, const CC: usize>(a: SMatrix<S, RR, KK>, b: SMatrix<S, KK, CC>) -> SMatrix<S, RR, CC>;
pub broadcast axiom fn ax_m_mul<const RR: usize, const KK: usize, const CC: usize>(a: SMatrix<S, RR, KK>, b: SMatrix<S, KK, CC>) requires mclean(a), mclean(b)
    ensures #![trigger m_mul(a, b)] mclean(m_mul(a, b)), rm(m_mul(a, b)) == prod3(RR as int, KK as int, CC as int, rm(a), rm(b));
} // verus!
macro_rules! vx_matmul { ($a:ty, $b:ty, $o:ty, |$x:ident, $y:ident| $e:expr) => { verus! {
    impl<const RR: usize, const KK: usize, const CC: usize> vstd::std_specs::ops::MulSpecImpl<$b> for $a {
        open spec fn obeys_mul_spec() -> bool { true }
        open spec fn mul_req(self, o: $b) -> bool { true }
        open spec fn mul_spec(self, o: $b) -> $o { let $x = self; let $y = o; $e }
    }
    impl<const RR: usize, const KK: usize, const CC: usize> core::ops::Mul<$b> for $a { type Output = $o; #[verifier::external_body] fn mul(self, o: $b) -> $o { unimplemented!() } }
} } }
vx_matmul!(SMatrix<S, RR, KK>, SMatrix<S, KK, CC>, SMatrix<S, RR, CC>, |x, y| m_mul(x, y));
vx_matmul!(&SMatrix<S, RR, KK>, SMatrix<S, KK, CC>, SMatrix<S, RR, CC>, |x, y| m_mul(*x, y));
vx_matmul!(SMatrix<S, RR, KK>, &SMatrix<S, KK, CC>, SMatrix<S, RR, CC>, |x, y| m_mul(x, *y));
vx_matmul!(&SMatrix<S, RR, KK>, &SMatrix<S, KK, CC>, SMatrix<S, RR, CC>, |x, y| m_mul(*x, *y));
vx_binop!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, SMatrix<S, N, N>, Point<S, N>, Point<S, N>, |x, y| pt(m_mul(x, y.coords)));
verus! {
// ---- linear algebra, proved ----
pub proof fn lemma_dotp_ext(a: RM, b: RM, c: RM, d: RM, i: int, j: int, p: int, q: int, k: int)
    requires forall|t: int| 0 <= t < k ==> #[trigger] a(i, t) * b(t, j) == c(p, t) * d(t, q)
    ensures dotp(a, b, i, j, k) == dotp(c, d, p, q, k)
    decreases k
{ if k > 0 { lemma_dotp_ext(a, b, c, d, i, j, p, q, k - 1); assert(a(i, k - 1) * b(k - 1, j) == c(p, k - 1) * d(k - 1, q)); } }
pub open spec fn scale(k: real, f: spec_fn(int) -> real) -> spec_fn(int) -> real { |t: int| k * f(t) }
pub open spec fn sum(f: spec_fn(int) -> real, k: int) -> real decreases k { if k <= 0 { 0real } else { sum(f, k - 1) + f(k - 1) } }
pub proof fn lemma_dotp_sum(a: RM, b: RM, i: int, j: int, k: int) ensures dotp(a, b, i, j, k) == sum(|t: int| a(i, t) * b(t, j), k) decreases k {
    if k > 0 { lemma_dotp_sum(a, b, i, j, k - 1); }
}
pub proof fn lemma_sum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] f(t) == g(t) ensures sum(f, k) == sum(g, k) decreases k {
    if k > 0 { lemma_sum_ext(f, g, k - 1); assert(f(k - 1) == g(k - 1)); }
}
pub proof fn lemma_sum_scale(c: real, f: spec_fn(int) -> real, k: int) ensures sum(|t: int| c * f(t), k) == c * sum(f, k), sum(|t: int| f(t) * c, k) == sum(f, k) * c decreases k {
    if k > 0 {
        lemma_sum_scale(c, f, k - 1);
        let (x, y) = (sum(f, k - 1), f(k - 1));
        assert(c * (x + y) == c * x + c * y) by(nonlinear_arith);
        assert((x + y) * c == x * c + y * c) by(nonlinear_arith);
    } else { assert(c * 0real == 0real && 0real * c == 0real); }
}
pub proof fn lemma_sum_add(f: spec_fn(int) -> real, g: spec_fn(int) -> real, k: int) ensures sum(|t: int| f(t) + g(t), k) == sum(f, k) + sum(g, k) decreases k {
    if k > 0 { lemma_sum_add(f, g, k - 1); }
}
/// exchange of a finite double sum
pub proof fn lemma_sum_swap(h: spec_fn(int, int) -> real, n: int, m: int) ensures sum(|s: int| sum(|t: int| h(s, t), m), n) == sum(|t: int| sum(|s: int| h(s, t), n), m) decreases n {
    let l = |s: int| sum(|t: int| h(s, t), m);
    let r = |t: int| sum(|s: int| h(s, t), n);
    if n > 0 {
        lemma_sum_swap(h, n - 1, m);
        let r1 = |t: int| sum(|s: int| h(s, t), n - 1);
        let e = |t: int| h(n - 1, t);
        lemma_sum_add(r1, e, m);
        assert forall|t: int| 0 <= t < m implies #[trigger] r(t) == (|t: int| r1(t) + e(t))(t) by { let c = |s: int| h(s, t); assert(sum(c, n) == sum(c, n - 1) + c(n - 1)); }
        lemma_sum_ext(r, |t: int| r1(t) + e(t), m);
        assert(l(n - 1) == sum(e, m));
    } else {
        lemma_zero(m);
        assert forall|t: int| 0 <= t < m implies #[trigger] r(t) == (|t: int| 0real)(t) by {}
        lemma_sum_ext(r, |t: int| 0real, m);
    }
}
pub proof fn lemma_zero(m: int) ensures sum(|t: int| 0real, m) == 0real decreases m { if m > 0 { lemma_zero(m - 1); } }
pub proof fn lemma_assoc(n: int, a: RM, b: RM, c: RM) ensures prod(n, prod(n, a, b), c) == prod(n, a, prod(n, b, c)) {
    let (x, y) = (prod(n, prod(n, a, b), c), prod(n, a, prod(n, b, c)));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] x(i, j) == y(i, j) by {
        let (ab, bc) = (prod(n, a, b), prod(n, b, c));
        let h = |s: int, t: int| (a(i, s) * b(s, t)) * c(t, j);
        lemma_dotp_sum(ab, c, i, j, n); lemma_dotp_sum(a, bc, i, j, n);
        lemma_sum_swap(h, n, n);
        let (f, g) = (|t: int| ab(i, t) * c(t, j), |t: int| sum(|s: int| h(s, t), n));
        assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(t) by {
            let e = |s: int| a(i, s) * b(s, t);
            lemma_dotp_sum(a, b, i, t, n); lemma_sum_scale(c(t, j), e, n);
            lemma_sum_ext(|s: int| h(s, t), |s: int| e(s) * c(t, j), n);
        }
        lemma_sum_ext(f, g, n);
        let (f2, g2) = (|s: int| a(i, s) * bc(s, j), |s: int| sum(|t: int| h(s, t), n));
        assert forall|s: int| 0 <= s < n implies #[trigger] f2(s) == g2(s) by {
            let e = |t: int| b(s, t) * c(t, j);
            lemma_dotp_sum(b, c, s, j, n); lemma_sum_scale(a(i, s), e, n);
            let (v, w) = (|t: int| h(s, t), |t: int| a(i, s) * e(t));
            assert forall|t: int| 0 <= t < n implies #[trigger] v(t) == w(t) by { let (p, q, r) = (a(i, s), b(s, t), c(t, j)); assert((p * q) * r == p * (q * r)) by(nonlinear_arith); }
            lemma_sum_ext(v, w, n);
        }
        lemma_sum_ext(f2, g2, n);
    }
    assert(x =~= y);
}
pub open spec fn within(n: int, a: RM) -> bool { forall|i: int, j: int| !(0 <= i < n && 0 <= j < n) ==> #[trigger] a(i, j) == 0real }
pub proof fn lemma_id(n: int, a: RM) requires within(n, a) ensures prod(n, a, idm(n)) == a, prod(n, idm(n), a) == a {
    let (x, y) = (prod(n, a, idm(n)), prod(n, idm(n), a));
    assert forall|i: int, j: int| #[trigger] x(i, j) == a(i, j) by { if 0 <= i < n && 0 <= j < n { lemma_id_r(n, a, i, j, n); } }
    assert forall|i: int, j: int| #[trigger] y(i, j) == a(i, j) by { if 0 <= i < n && 0 <= j < n { lemma_id_l(n, a, i, j, n); } }
    assert(x =~= a); assert(y =~= a);
}
pub proof fn lemma_id_r(n: int, a: RM, i: int, j: int, k: int) requires 0 <= j < n, k <= n ensures dotp(a, idm(n), i, j, k) == if j < k { a(i, j) } else { 0real } decreases k {
    if k > 0 { lemma_id_r(n, a, i, j, k - 1); let x = a(i, k - 1); assert(x * 1real == x && x * 0real == 0real); }
}
pub proof fn lemma_id_l(n: int, a: RM, i: int, j: int, k: int) requires 0 <= i < n, k <= n ensures dotp(idm(n), a, i, j, k) == if i < k { a(i, j) } else { 0real } decreases k {
    if k > 0 { lemma_id_l(n, a, i, j, k - 1); let x = a(k - 1, j); assert(1real * x == x && 0real * x == 0real); }
}
pub proof fn lemma_tr_prod(n: int, a: RM, b: RM) ensures tr(prod(n, a, b)) == prod(n, tr(b), tr(a)) {
    let (x, y) = (tr(prod(n, a, b)), prod(n, tr(b), tr(a)));
    assert forall|i: int, j: int| #[trigger] x(i, j) == y(i, j) by { if 0 <= i < n && 0 <= j < n {
        assert forall|t: int| 0 <= t < n implies #[trigger] a(j, t) * b(t, i) == tr(b)(i, t) * tr(a)(t, j) by { let (p, q) = (a(j, t), b(t, i)); assert(p * q == q * p) by(nonlinear_arith); }
        lemma_dotp_ext(a, b, tr(b), tr(a), j, i, i, j, n);
    } }
    assert(x =~= y);
}
pub proof fn lemma_orth_prod(n: int, a: RM, b: RM) requires orth(n, a), orth(n, b), within(n, a), within(n, b) ensures orth(n, prod(n, a, b)) {
    let m = prod(n, a, b);
    lemma_tr_prod(n, a, b);
    lemma_assoc(n, a, b, prod(n, tr(b), tr(a))); lemma_assoc(n, b, tr(b), tr(a));
    assert(within(n, tr(a)) && within(n, tr(b)));
    lemma_id(n, tr(a)); lemma_id(n, b);
    lemma_assoc(n, tr(b), tr(a), m); lemma_assoc(n, tr(a), a, b);
}
pub proof fn lemma_orth_det(n: int, a: RM) requires orth(n, a), n == 2 || n == 3 ensures det(n, a) == 1real || det(n, a) == -1real {
    lemma_det_mul(n, a, tr(a)); lemma_det_tr(n, a); lemma_det_id(n);
    let d = det(n, a);
    assert(d == 1real || d == -1real) by(nonlinear_arith) requires d * d == 1real;
}
pub open spec fn sg(n: int, j: int) -> real { if j == n - 1 { -1real } else { 1real } }
pub proof fn lemma_flip_cols(n: int, a: RM, i: int, j: int, k: int) ensures dotp(tr(flip(n, a)), flip(n, a), i, j, k) == sg(n, i) * sg(n, j) * dotp(tr(a), a, i, j, k) decreases k {
    let c = sg(n, i) * sg(n, j);
    if k > 0 {
        lemma_flip_cols(n, a, i, j, k - 1);
        let (x, y, z) = (a(k - 1, i), a(k - 1, j), dotp(tr(a), a, i, j, k - 1));
        assert((sg(n, i) * x) * (sg(n, j) * y) == c * (x * y)) by(nonlinear_arith) requires c == sg(n, i) * sg(n, j);
        assert(c * (z + x * y) == c * z + c * (x * y)) by(nonlinear_arith);
        assert(-1real * x == -x && 1real * x == x && -1real * y == -y && 1real * y == y);
    } else { assert(c * 0real == 0real); }
}
pub proof fn lemma_flip_orth(n: int, a: RM) requires orth(n, a), within(n, a) ensures orth(n, flip(n, a)), within(n, flip(n, a)) {
    let f = flip(n, a);
    let (x, y) = (prod(n, f, tr(f)), prod(n, tr(f), f));
    assert forall|i: int, j: int| #[trigger] x(i, j) == prod(n, a, tr(a))(i, j) by { if 0 <= i < n && 0 <= j < n {
        assert forall|t: int| 0 <= t < n implies #[trigger] f(i, t) * tr(f)(t, j) == a(i, t) * tr(a)(t, j) by { let (p, q) = (a(i, t), a(j, t)); assert((-p) * (-q) == p * q) by(nonlinear_arith); }
        lemma_dotp_ext(f, tr(f), a, tr(a), i, j, i, j, n);
    } }
    assert(x =~= prod(n, a, tr(a)));
    assert forall|i: int, j: int| #[trigger] y(i, j) == idm(n)(i, j) by { if 0 <= i < n && 0 <= j < n {
        lemma_flip_cols(n, a, i, j, n);
        assert(prod(n, tr(a), a)(i, j) == idm(n)(i, j));
        assert(-1real * -1real * 1real == 1real && 1real * 1real * 1real == 1real && sg(n, i) * sg(n, j) * 0real == 0real);
    } }
    assert(y =~= idm(n));
}
