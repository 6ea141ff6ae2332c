// ---- units/dist.rs: squared distance (rounded model) ----
pub broadcast axiom fn ax_rnd_idem(x: real) ensures #[trigger] rnd(rnd(x)) == rnd(x);
/// sum over the first k coordinates of the squared coordinate difference, every operation rounded
pub open spec fn dsqr<const N: usize>(p: Point<S, N>, q: Point<S, N>, k: int) -> real
    decreases k
{
    if k <= 0 { 0real } else { rnd(dsqr(p, q, k - 1) + sqd(p, q, k - 1)) }
}
pub open spec fn sqd<const N: usize>(p: Point<S, N>, q: Point<S, N>, i: int) -> real {
    rnd(rnd(p.c(i).r() - q.c(i).r()) * rnd(p.c(i).r() - q.c(i).r()))
}
pub open spec fn dsq<const N: usize>(p: Point<S, N>, q: Point<S, N>) -> real { dsqr(p, q, N as int) }
pub proof fn lemma_sq(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by(nonlinear_arith); }
pub proof fn lemma_sq_mono(x: real, y: real) requires 0real <= x, x <= y ensures x * x <= y * y { assert(x * x <= y * y) by(nonlinear_arith) requires 0real <= x, x <= y; }
pub proof fn lemma_sqd_nonneg<const N: usize>(p: Point<S, N>, q: Point<S, N>, i: int) ensures sqd(p, q, i) >= 0real
{
    broadcast use ax_rnd_zero, ax_rnd_mono;
    let e = rnd(p.c(i).r() - q.c(i).r());
    lemma_sq(e);
    assert(rnd(e * e) >= rnd(0real));
}
/// every partial sum is representable, and at least each of its terms
pub proof fn lemma_dsq_ge<const N: usize>(p: Point<S, N>, q: Point<S, N>, k: int, d: int)
    requires 0 <= k
    ensures dsqr(p, q, k) >= 0real, rnd(dsqr(p, q, k)) == dsqr(p, q, k), 0 <= d < k ==> dsqr(p, q, k) >= sqd(p, q, d)
    decreases k
{
    broadcast use ax_rnd_zero, ax_rnd_mono, ax_rnd_idem;
    if k > 0 {
        lemma_dsq_ge(p, q, k - 1, d);
        lemma_sqd_nonneg(p, q, k - 1);
        lemma_sqd_nonneg(p, q, d);
        let a = dsqr(p, q, k - 1); let b = sqd(p, q, k - 1);
        assert(a + b >= a); assert(a + b >= b);
        assert(rnd(a + b) >= rnd(a)); assert(rnd(a + b) >= rnd(b));
        assert(rnd(b) == b);
    }
}
