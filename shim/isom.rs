// ---- shim/isom.rs: nalgebra isometries: a rotation followed by a translation ----
/// one opaque type stands for every rotation representation
#[verifier::external_body]
pub struct Rot(u8);
pub type R = Rot;
impl Copy for Rot {}
impl Clone for Rot { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::accept_recursive_types(P)]
pub struct Translation<P, const N: usize> { pub vector: SMatrix<P, N, 1> }
#[verifier::accept_recursive_types(P)]
#[verifier::reject_recursive_types_in_ground_variants(Q)]
pub struct Isometry<P, Q, const N: usize> { pub rotation: Q, pub translation: Translation<P, N> }
impl<P: Copy, const N: usize> Copy for Translation<P, N> {}
impl<P: Copy, const N: usize> Clone for Translation<P, N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<P: Copy, Q: Copy, const N: usize> Copy for Isometry<P, Q, N> {}
impl<P: Copy, Q: Copy, const N: usize> Clone for Isometry<P, Q, N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// the rotation applied to a point
pub uninterp spec fn rot_apply<const N: usize>(q: Rot, p: Point<S, N>) -> Point<S, N>;
pub uninterp spec fn rot_inv(q: Rot) -> Rot;
pub open spec fn iso_apply<const N: usize>(m: Isometry<S, Rot, N>, p: Point<S, N>) -> Point<S, N> { pt(v_add(rot_apply::<N>(m.rotation, p).coords, m.translation.vector)) }
impl<const N: usize> Isometry<S, Rot, N> {
    #[verifier::external_body]
    pub fn transform_point(&self, p: &Point<S, N>) -> (r: Point<S, N>) ensures r == iso_apply(*self, *p) { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_transform_point(&self, p: &Point<S, N>) -> (r: Point<S, N>) ensures r == rot_apply::<N>(rot_inv(self.rotation), pt(v_sub(p.coords, self.translation.vector))) { unimplemented!() }
}
impl<const N: usize> vstd::std_specs::ops::MulSpecImpl<Point<S, N>> for Isometry<S, Rot, N> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Point<S, N>) -> bool { true }
    open spec fn mul_spec(self, o: Point<S, N>) -> Point<S, N> { iso_apply(self, o) }
}
impl<const N: usize> core::ops::Mul<Point<S, N>> for Isometry<S, Rot, N> { type Output = Point<S, N>; #[verifier::external_body] fn mul(self, o: Point<S, N>) -> Point<S, N> { unimplemented!() } }
impl<'a, const N: usize> vstd::std_specs::ops::MulSpecImpl<&'a Point<S, N>> for Isometry<S, Rot, N> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'a Point<S, N>) -> bool { true }
    open spec fn mul_spec(self, o: &'a Point<S, N>) -> Point<S, N> { iso_apply(self, *o) }
}
impl<'a, const N: usize> core::ops::Mul<&'a Point<S, N>> for Isometry<S, Rot, N> { type Output = Point<S, N>; #[verifier::external_body] fn mul(self, o: &'a Point<S, N>) -> Point<S, N> { unimplemented!() } }
impl Rot {
    #[verifier::external_body]
    pub fn transform_point<const N: usize>(&self, p: &Point<S, N>) -> (r: Point<S, N>) ensures r == rot_apply::<N>(*self, *p) { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_transform_point<const N: usize>(&self, p: &Point<S, N>) -> (r: Point<S, N>) ensures r == rot_apply::<N>(rot_inv(*self), *p) { unimplemented!() }
}
impl<const N: usize> Translation<S, N> {
    #[verifier::external_body]
    pub fn transform_point(&self, p: &Point<S, N>) -> (r: Point<S, N>) ensures r == pt(v_add(p.coords, self.vector)) { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_transform_point(&self, p: &Point<S, N>) -> (r: Point<S, N>) ensures r == pt(v_sub(p.coords, self.vector)) { unimplemented!() }
}
