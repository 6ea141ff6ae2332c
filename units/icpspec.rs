// ---- units/icpspec.rs: one iteration of ICP ----
pub struct Matrix {}
impl Matrix {
    #[verifier::external_body]
    pub fn from_data<const RR: usize, const CC: usize>(d: ArrayStorage<S, RR, CC>) -> (r: SMatrix<S, RR, CC>) ensures r.data == d { unimplemented!() }
    #[verifier::external_body]
    pub fn from_array_storage<const RR: usize, const CC: usize>(d: ArrayStorage<S, RR, CC>) -> (r: SMatrix<S, RR, CC>) ensures r.data == d { unimplemented!() }
}
pub struct IsometryAbstractor<P, const N: usize> { x: [P; N] }
impl<const N: usize> IsometryAbstractor<S, N> {
    /// discharged in unit iso, for each of the two dimensions that have an implementation
    #[verifier::external_body] // discharged in unit iso
    pub fn update_transform(m: &Isometry<S, Rot, N>, ma: Point<S, N>, mb: Point<S, N>, c: &SMatrix<S, N, N>) -> (r: Isometry<S, Rot, N>)
        requires N == 2 || N == 3, mclean(*c), !pnan(ma), !pnan(mb), iso_clean(*m)
        ensures rigid_update(*m, ma, mb, *c, r), iso_clean(r)
    { unimplemented!() }
}
pub open spec fn is_identity<const N: usize>(m: Isometry<S, Rot, N>) -> bool { forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N ==> s_is(#[trigger] iso_apply(m, p).c(i), p.c(i).r()) }
pub uninterp spec fn iso_identity<const N: usize>() -> Isometry<S, Rot, N>;
impl<const N: usize> Isometry<S, Rot, N> {
    #[verifier::external_body]
    pub fn identity() -> (r: Self) ensures r == iso_identity::<N>(), is_identity(r) { unimplemented!() }
}
/// no transform that ICP computes maps a number to NaN
pub proof fn lemma_identity_clean<const N: usize>(m: Isometry<S, Rot, N>) requires is_identity(m) ensures iso_clean(m) {
    assert forall|p: Point<S, N>| !pnan(p) implies !pnan(#[trigger] iso_apply(m, p)) by { let q = iso_apply(m, p); assert forall|i: int| 0 <= i < N implies !(#[trigger] q.c(i)).nan() by { assert(s_is(iso_apply(m, p).c(i), p.c(i).r())); } }
}

pub open spec fn s_lt(a: S, b: S) -> bool { !a.nan() && !b.nan() && a.r() < b.r() }
/// q is a nearest point of b to p
pub open spec fn near<const N: usize>(b: Seq<Point<S, N>>, p: Point<S, N>, q: Point<S, N>) -> bool { b.contains(q) && forall|i: int| 0 <= i < b.len() ==> dsq(p, q) <= dsq(p, #[trigger] b[i]) }
pub open spec fn pairs<const N: usize>(b: Seq<Point<S, N>>, t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, k: int) -> bool { cl.len() == k && forall|i: int| 0 <= i < k ==> near(b, t[i], #[trigger] cl[i]) }
/// entry (i, j) of the covariance over the first k pairs
pub open spec fn cov<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, ma: Point<S, N>, mb: Point<S, N>, i: int, j: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { cov(t, cl, ma, mb, i, j, k - 1) + (t[k - 1].c(i).r() - ma.c(i).r()) * (cl[k - 1].c(j).r() - mb.c(j).r()) }
}
pub open spec fn is_cov<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, ma: Point<S, N>, mb: Point<S, N>, c: SMatrix<S, N, N>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> !(#[trigger] c.data.0[i][j]).nan() && c.data.0[i][j].r() == cov(t, cl, ma, mb, i, j, k)
}
pub open spec fn sse<const N: usize>(t: Seq<Point<S, N>>, cl: Seq<Point<S, N>>, k: int) -> real decreases k { if k <= 0 { 0real } else { sse(t, cl, k - 1) + dsq(t[k - 1], cl[k - 1]) } }
pub open spec fn moved<const N: usize>(a: Seq<Point<S, N>>, m: Isometry<S, Rot, N>, v: Seq<Point<S, N>>, k: int) -> bool { v.len() == a.len() && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == iso_apply(m, a[i]) }
pub open spec fn converged(cfg: ICPConfiguration<S>, prev: S, e: S) -> bool {
    ||| cfg.mse_absolute_threshold matches Some(t) && s_lt(e, t)
    ||| (!cfg.mse_interval_threshold.nan() && (if prev.r() < e.r() { e.r() - prev.r() } else { prev.r() - e.r() }) < cfg.mse_interval_threshold.r())
}
pub struct St<const N: usize> { pub pts: Seq<Point<S, N>>, pub iso: Isometry<S, Rot, N>, pub prev: S }
/// what one iteration does to the state (points under the current transform, transform, previous error)
pub open spec fn step<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, s: St<N>, t: St<N>, cl: Seq<Point<S, N>>, c: SMatrix<S, N, N>, ma: Point<S, N>, mb: Point<S, N>, e: S) -> bool {
    &&& pairs(b, s.pts, cl, s.pts.len() as int)
    &&& is_mean(s.pts, ma) && is_mean(cl, mb) && is_cov(s.pts, cl, ma, mb, c, s.pts.len() as int)
    &&& rigid_update(s.iso, ma, mb, c, t.iso)
    &&& moved(a, t.iso, t.pts, a.len() as int)
    &&& !e.nan() && e.r() == sse(t.pts, cl, a.len() as int)
}
#[verifier::opaque]
pub open spec fn iter<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, s: St<N>, t: St<N>, r: Result<S, ICPError<S, N>>) -> bool {
    exists|cl: Seq<Point<S, N>>, c: SMatrix<S, N, N>, ma: Point<S, N>, mb: Point<S, N>, e: S| {
        &&& #[trigger] step(a, b, cfg, s, t, cl, c, ma, mb, e)
        &&& r == if converged(cfg, s.prev, e) { Ok(e) } else { Err(ICPError::IterationDidNotConverge((ma, mb))) }
        &&& !converged(cfg, s.prev, e) ==> t.prev == e
    }
}
pub proof fn lemma_iter<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, s: St<N>, t: St<N>, cl: Seq<Point<S, N>>, c: SMatrix<S, N, N>, ma: Point<S, N>, mb: Point<S, N>, e: S, r: Result<S, ICPError<S, N>>)
    requires step(a, b, cfg, s, t, cl, c, ma, mb, e), !converged(cfg, s.prev, e) ==> t.prev == e,
        r == if converged(cfg, s.prev, e) { Ok(e) } else { Err(ICPError::IterationDidNotConverge((ma, mb))) }
    ensures iter(a, b, cfg, s, t, r)
{ reveal(iter); }
pub proof fn lemma_dsq_sym<const N: usize>(p: Point<S, N>, q: Point<S, N>, k: int) ensures dsqr(p, q, k) == dsqr(q, p, k) decreases k {
    if k > 0 {
        lemma_dsq_sym(p, q, k - 1);
        let x = p.c(k - 1).r() - q.c(k - 1).r(); let y = q.c(k - 1).r() - p.c(k - 1).r();
        assert(x * x == y * y) by(nonlinear_arith) requires x == -y;
        assert(rnd(x) == x && rnd(y) == y) by { ax_exact(x); ax_exact(y); }
    }
}
pub proof fn lemma_dsq_eq<const N: usize>(p: Point<S, N>, q: Point<S, N>, t: Point<S, N>, k: int) requires peq(p, q), k <= N ensures dsqr(t, p, k) == dsqr(t, q, k) decreases k {
    if k > 0 { lemma_dsq_eq(p, q, t, k - 1); assert(s_eq(p.c(k - 1), q.c(k - 1))); }
}
/// a nearest stored point of a tree holding exactly b is a nearest point of b
pub proof fn lemma_tree_near<const N: usize>(s: Seq<Point<S, N>>, b: Seq<Point<S, N>>, p: Point<S, N>, q: Point<S, N>)
    requires holds_exactly(s, b), s.contains(q), forall|i: int| 0 <= i < s.len() ==> dsq(q, p) <= dsq(#[trigger] s[i], p)
    ensures near(b, p, q)
{
    assert(b.contains(q));
    assert forall|i: int| 0 <= i < b.len() implies dsq(p, q) <= dsq(p, #[trigger] b[i]) by {
        assert(stored(s, b[i]));
        let k = choose|k: int| 0 <= k < s.len() && peq(#[trigger] s[k], b[i]);
        assert(dsq(q, p) <= dsq(s[k], p));
        lemma_dsq_sym(q, p, N as int); lemma_dsq_sym(s[k], p, N as int);
        lemma_dsq_eq(s[k], b[i], p, N as int);
    }
}
