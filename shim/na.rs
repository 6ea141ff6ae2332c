// ---- shim/na.rs: nalgebra points, vectors, matrices ----
#[verifier::accept_recursive_types(P)]
pub struct ArrayStorage<P, const RR: usize, const CC: usize>(pub [[P; RR]; CC]);
#[verifier::accept_recursive_types(P)]
pub struct SMatrix<P, const RR: usize, const CC: usize> { pub data: ArrayStorage<P, RR, CC> }
pub type SVector<P, const N: usize> = SMatrix<P, N, 1>;
pub type Vector2<P> = SMatrix<P, 2, 1>;
#[verifier::accept_recursive_types(P)]
pub struct Point<P, const N: usize> { pub coords: SVector<P, N> }
pub type Point2<P> = Point<P, 2>;
pub type Point3<P> = Point<P, 3>;
impl<P: Copy, const RR: usize, const CC: usize> Copy for ArrayStorage<P, RR, CC> {}
impl<P: Copy, const RR: usize, const CC: usize> Clone for ArrayStorage<P, RR, CC> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<P: Copy, const RR: usize, const CC: usize> Copy for SMatrix<P, RR, CC> {}
impl<P: Copy, const RR: usize, const CC: usize> Clone for SMatrix<P, RR, CC> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<P: Copy, const N: usize> Copy for Point<P, N> {}
impl<P: Copy, const N: usize> Clone for Point<P, N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }

impl<P, const N: usize> Point<P, N> {
    /// i-th coordinate
    #[verifier::inline]
    pub open spec fn c(self, i: int) -> P { self.coords.data.0[0][i] }
}
impl<P, const N: usize> SMatrix<P, N, 1> {
    #[verifier::inline]
    pub open spec fn v(self, i: int) -> P { self.data.0[0][i] }
}
pub open spec fn pnan<const N: usize>(p: Point<S, N>) -> bool { exists|i: int| 0 <= i < N && (#[trigger] p.c(i)).nan() }
pub open spec fn peq<const N: usize>(p: Point<S, N>, q: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> s_eq(#[trigger] p.c(i), q.c(i)) }

impl<P, const RR: usize> vstd::std_specs::core::IndexSpecImpl<usize> for SMatrix<P, RR, 1> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < RR }
}
impl<P, const RR: usize> core::ops::Index<usize> for SMatrix<P, RR, 1> {
    type Output = P;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &P) ensures *r == self.data.0[0][i as int] { unimplemented!() }
}
impl<P, const RR: usize> vstd::std_specs::core::IndexSpecImpl<usize> for Point<P, RR> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < RR }
}
impl<P, const RR: usize> core::ops::Index<usize> for Point<P, RR> {
    type Output = P;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &P) ensures *r == self.coords.data.0[0][i as int] { unimplemented!() }
}
impl<P, const N: usize> VxSeq for SMatrix<P, N, 1> {
    type Item = P;
    open spec fn vx_view(&self) -> Seq<P> { self.data.0[0]@ }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { N }
    #[verifier::external_body]
    fn vx_at(&self, i: usize) -> (r: &P) { unimplemented!() }
}
impl<P, const N: usize> VxSeq for Point<P, N> {
    type Item = P;
    open spec fn vx_view(&self) -> Seq<P> { self.coords.data.0[0]@ }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { N }
    #[verifier::external_body]
    fn vx_at(&self, i: usize) -> (r: &P) { unimplemented!() }
}
impl<P, const N: usize> VxSet<P> for Point<P, N> {
    open spec fn vx_sview(&self) -> Seq<P> { self.coords.data.0[0]@ }
    #[verifier::external_body]
    fn vx_set(&mut self, i: usize, v: P) { unimplemented!() }
}
impl<const N: usize> vstd::std_specs::cmp::PartialEqSpecImpl<Point<S, N>> for Point<S, N> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Point<S, N>) -> bool { peq(*self, *o) }
}
impl<const N: usize> PartialEq for Point<S, N> { #[verifier::external_body] fn eq(&self, o: &Point<S, N>) -> bool { unimplemented!() } }
impl<P, const N: usize> vstd::std_specs::convert::FromSpecImpl<[P; N]> for Point<P, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: [P; N]) -> Self { Point { coords: SMatrix { data: ArrayStorage([a]) } } }
}
impl<P, const N: usize> From<[P; N]> for Point<P, N> { #[verifier::external_body] fn from(a: [P; N]) -> Self { unimplemented!() } }

impl RangeInclusive<S> {
    #[verifier::external_body]
    pub fn contains(&self, x: &S) -> (r: bool) ensures !self.lo.nan() && !self.hi.nan() && !x.nan() ==> r == (self.lo.r() <= x.r() && x.r() <= self.hi.r()) { unimplemented!() }
}
