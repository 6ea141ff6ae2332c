// ---- units/isomspec.rs: the transform update of ICP ----
/// the rotation estimate u vt; when that is a reflection, the last column of u is negated first
pub open spec fn repaired(n: int, u: RM, vt: RM) -> RM { if det(n, prod(n, u, vt)) < 0real { prod(n, flip(n, u), vt) } else { prod(n, u, vt) } }
/// m is the estimate for the covariance c: the singular values descend, so the last column belongs to the least variance
pub open spec fn estimate(n: int, c: RM, m: RM) -> bool { exists|u: RM, s: RM, vt: RM| #[trigger] factors(n, c, u, s, vt) && descending(n, s) && m == repaired(n, u, vt) }
pub proof fn lemma_repaired(n: int, u: RM, vt: RM) requires n == 2 || n == 3, orth(n, u), orth(n, vt), within(n, u), within(n, vt) ensures proper(n, repaired(n, u, vt)) {
    lemma_orth_prod(n, u, vt); lemma_flip_orth(n, u); lemma_orth_prod(n, flip(n, u), vt);
    lemma_orth_det(n, prod(n, u, vt));
    lemma_det_mul(n, u, vt); lemma_det_mul(n, flip(n, u), vt); lemma_det_flip(n, u);
    let (d, e) = (det(n, u), det(n, vt));
    assert((-d) * e == -(d * e)) by(nonlinear_arith);
}

pub struct Rotation<P, const N: usize> { pub m: SMatrix<P, N, N> }
impl<const N: usize> Rotation<S, N> {
    #[verifier::external_body]
    pub fn from_matrix_unchecked(m: SMatrix<S, N, N>) -> (r: Self) ensures r.m == m { unimplemented!() }
}
pub open spec fn col<const N: usize>(p: Point<S, N>) -> RM { rm(p.coords) }
/// m p, coordinate i
pub open spec fn mv<const N: usize>(m: RM, p: Point<S, N>, i: int) -> real { dotp(m, col(p), i, 0, N as int) }
/// the rotation that acts as the matrix m
pub open spec fn acts<const N: usize>(q: Rot, m: RM) -> bool { forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N ==> s_is(#[trigger] rot_apply::<N>(q, p).c(i), mv(m, p, i)) }
pub type UnitComplex = Rot;
pub type UnitQuaternion = Rot;
impl Rot {
    #[verifier::external_body]
    pub fn from_rotation_matrix<const N: usize>(r: &Rotation<S, N>) -> (q: Rot) requires mclean(r.m), proper(N as int, rm(r.m)) ensures acts::<N>(q, rm(r.m)) { unimplemented!() }
}
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<SMatrix<S, N, 1>> for Translation<S, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SMatrix<S, N, 1>) -> Self { Translation { vector: v } }
}
impl<const N: usize> From<SMatrix<S, N, 1>> for Translation<S, N> { #[verifier::external_body] fn from(v: SMatrix<S, N, 1>) -> Self { unimplemented!() } }
pub uninterp spec fn iso_mul<const N: usize>(a: Isometry<S, Rot, N>, b: Isometry<S, Rot, N>) -> Isometry<S, Rot, N>;
/// the composition applies the right factor first
pub broadcast axiom fn ax_iso_mul<const N: usize>(a: Isometry<S, Rot, N>, b: Isometry<S, Rot, N>, p: Point<S, N>)
    requires iso_clean(a), iso_clean(b), !pnan(p)
    ensures #![trigger iso_apply(iso_mul(a, b), p)] forall|i: int| 0 <= i < N ==> s_is(#[trigger] iso_apply(iso_mul(a, b), p).c(i), iso_apply(a, iso_apply(b, p)).c(i).r());
pub open spec fn iso_clean<const N: usize>(a: Isometry<S, Rot, N>) -> bool { forall|p: Point<S, N>| !pnan(p) ==> !pnan(#[trigger] iso_apply(a, p)) }
impl<const N: usize> Isometry<S, Rot, N> {
    #[verifier::external_body]
    pub fn from_parts(t: Translation<S, N>, q: Rot) -> (r: Self) ensures r.rotation == q, r.translation == t { unimplemented!() }
}
} // verus!
vx_ops!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, Isometry<S, Rot, N>, Isometry<S, Rot, N>, Isometry<S, Rot, N>, |x, y| iso_mul(x, y));
verus! {
/// the motion with rotation m that takes a onto b: x -> m x - m a + b
pub open spec fn motion<const N: usize>(m: RM, a: Point<S, N>, b: Point<S, N>, x: Point<S, N>, i: int) -> real { mv(m, x, i) + (b.c(i).r() - mv(m, a, i)) }
pub proof fn lemma_aligned<const N: usize>(m: RM, a: Point<S, N>, b: Point<S, N>, i: int) ensures motion(m, a, b, a, i) == b.c(i).r() {}
/// r is the old transform followed by a proper rigid motion that takes a onto b, whose rotation is the estimate for the covariance
pub open spec fn rigid_update<const N: usize>(old: Isometry<S, Rot, N>, a: Point<S, N>, b: Point<S, N>, c: SMatrix<S, N, N>, r: Isometry<S, Rot, N>) -> bool {
    exists|m: RM| #[trigger] proper(N as int, m) && estimate(N as int, rm(c), m) && after(old, a, b, m, r)
}
pub open spec fn after<const N: usize>(old: Isometry<S, Rot, N>, a: Point<S, N>, b: Point<S, N>, m: RM, r: Isometry<S, Rot, N>) -> bool {
    forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N ==> s_is(#[trigger] iso_apply(r, p).c(i), motion(m, a, b, iso_apply(old, p), i))
}
/// the translation b - m a
pub open spec fn shift<const N: usize>(m: RM, a: Point<S, N>, b: Point<S, N>, t: SMatrix<S, N, 1>) -> bool { forall|i: int| 0 <= i < N ==> s_is(#[trigger] t.v(i), b.c(i).r() - mv(m, a, i)) }
pub proof fn lemma_clean<const N: usize>(d: Isometry<S, Rot, N>, m: RM, a: Point<S, N>, b: Point<S, N>) requires acts::<N>(d.rotation, m), shift(m, a, b, d.translation.vector) ensures iso_clean(d) {
    broadcast use {ax_scalar, ax_exact, ax_vec};
    assert forall|p: Point<S, N>| !pnan(p) implies !pnan(#[trigger] iso_apply(d, p)) by {
        let q = iso_apply(d, p);
        assert forall|i: int| 0 <= i < N implies !(#[trigger] q.c(i)).nan() by { assert(!rot_apply::<N>(d.rotation, p).c(i).nan()); assert(!d.translation.vector.v(i).nan()); }
    }
}
pub proof fn lemma_after<const N: usize>(old: Isometry<S, Rot, N>, d: Isometry<S, Rot, N>, m: RM, a: Point<S, N>, b: Point<S, N>)
    requires acts::<N>(d.rotation, m), shift(m, a, b, d.translation.vector), iso_clean(old)
    ensures after(old, a, b, m, iso_mul(d, old))
{
    broadcast use {ax_scalar, ax_exact, ax_vec, ax_iso_mul};
    lemma_clean(d, m, a, b);
    let r = iso_mul(d, old);
    assert forall|p: Point<S, N>, i: int| !pnan(p) && 0 <= i < N implies s_is(#[trigger] iso_apply(r, p).c(i), motion(m, a, b, iso_apply(old, p), i)) by {
        let q = iso_apply(old, p);
        assert(!pnan(q));
        assert(s_is(rot_apply::<N>(d.rotation, q).c(i), mv(m, q, i)));
        assert(s_is(d.translation.vector.v(i), b.c(i).r() - mv(m, a, i)));
        assert(iso_apply(d, q).c(i) == s_add(rot_apply::<N>(d.rotation, q).c(i), d.translation.vector.v(i)));
    }
}
pub proof fn lemma_mv<const N: usize>(m: SMatrix<S, N, N>, p: Point<S, N>, i: int) requires mclean(m), !pnan(p), 0 <= i < N ensures s_is(m_mul(m, p.coords).data.0[0][i], mv(rm(m), p, i)) {
    broadcast use ax_m_mul;
    assert(mclean(p.coords)) by { assert forall|a: int, b: int| 0 <= a < N && 0 <= b < 1 implies !(#[trigger] p.coords.data.0[b][a]).nan() by { assert(b == 0); assert(!p.c(a).nan()); } }
    assert(rm(m_mul(m, p.coords))(i, 0) == prod3(N as int, N as int, 1, rm(m), rm(p.coords))(i, 0));
}
pub proof fn lemma_update<const N: usize>(old: Isometry<S, Rot, N>, a: Point<S, N>, b: Point<S, N>) requires N == 2 || N == 3, iso_clean(old)
    ensures
        forall|u: SMatrix<S, N, N>, vt: SMatrix<S, N, N>| orth(N as int, rm(u)) && orth(N as int, rm(vt)) ==> proper(N as int, #[trigger] repaired(N as int, rm(u), rm(vt))),
        forall|d: Isometry<S, Rot, N>, m: RM| #[trigger] acts::<N>(d.rotation, m) && shift(m, a, b, d.translation.vector) ==> after(old, a, b, m, #[trigger] iso_mul(d, old)),
        forall|m: SMatrix<S, N, N>, p: Point<S, N>, i: int| mclean(m) && !pnan(p) && 0 <= i < N ==> s_is(#[trigger] m_mul(m, p.coords).data.0[0][i], mv(rm(m), p, i)),
{
    assert forall|m: SMatrix<S, N, N>, p: Point<S, N>, i: int| mclean(m) && !pnan(p) && 0 <= i < N implies s_is(#[trigger] m_mul(m, p.coords).data.0[0][i], mv(rm(m), p, i)) by { lemma_mv(m, p, i); }
    assert forall|u: SMatrix<S, N, N>, vt: SMatrix<S, N, N>| orth(N as int, rm(u)) && orth(N as int, rm(vt)) implies proper(N as int, #[trigger] repaired(N as int, rm(u), rm(vt))) by { lemma_repaired(N as int, rm(u), rm(vt)); }
    assert forall|d: Isometry<S, Rot, N>, m: RM| #[trigger] acts::<N>(d.rotation, m) && shift(m, a, b, d.translation.vector) implies after(old, a, b, m, #[trigger] iso_mul(d, old)) by { lemma_after(old, d, m, a, b); }
}
pub proof fn lemma_update_clean<const N: usize>(old: Isometry<S, Rot, N>, a: Point<S, N>, b: Point<S, N>, c: SMatrix<S, N, N>, r: Isometry<S, Rot, N>) requires rigid_update(old, a, b, c, r) ensures iso_clean(r) {
    let m = choose|m: RM| #[trigger] proper(N as int, m) && estimate(N as int, rm(c), m) && after(old, a, b, m, r);
    assert forall|p: Point<S, N>| !pnan(p) implies !pnan(#[trigger] iso_apply(r, p)) by { let q = iso_apply(r, p); assert forall|i: int| 0 <= i < N implies !(#[trigger] q.c(i)).nan() by { assert(s_is(iso_apply(r, p).c(i), motion(m, a, b, iso_apply(old, p), i))); } }
}
