// ---- shim/nalin.rs: vector and point arithmetic of nalgebra, coordinate by coordinate ----
pub uninterp spec fn v_add<const RR: usize, const CC: usize>(a: SMatrix<S, RR, CC>, b: SMatrix<S, RR, CC>) -> SMatrix<S, RR, CC>;
pub uninterp spec fn v_sub<const RR: usize, const CC: usize>(a: SMatrix<S, RR, CC>, b: SMatrix<S, RR, CC>) -> SMatrix<S, RR, CC>;
pub uninterp spec fn v_mul<const N: usize>(a: SMatrix<S, N, 1>, k: S) -> SMatrix<S, N, 1>;
pub uninterp spec fn v_div<const N: usize>(a: SMatrix<S, N, 1>, k: S) -> SMatrix<S, N, 1>;
pub uninterp spec fn v_fill<const N: usize>(k: S) -> SMatrix<S, N, 1>;
pub open spec fn pt<const N: usize>(v: SMatrix<S, N, 1>) -> Point<S, N> { Point { coords: v } }
pub broadcast axiom fn ax_v_add<const RR: usize, const CC: usize>(a: SMatrix<S, RR, CC>, b: SMatrix<S, RR, CC>, i: int, j: int) requires 0 <= i < RR, 0 <= j < CC ensures #[trigger] v_add(a, b).data.0[j][i] == s_add(a.data.0[j][i], b.data.0[j][i]);
pub broadcast axiom fn ax_v_sub<const RR: usize, const CC: usize>(a: SMatrix<S, RR, CC>, b: SMatrix<S, RR, CC>, i: int, j: int) requires 0 <= i < RR, 0 <= j < CC ensures #[trigger] v_sub(a, b).data.0[j][i] == s_sub(a.data.0[j][i], b.data.0[j][i]);
pub broadcast axiom fn ax_v_mul<const N: usize>(a: SMatrix<S, N, 1>, k: S, i: int) requires 0 <= i < N ensures #[trigger] v_mul(a, k).data.0[0][i] == s_mul(a.v(i), k);
pub broadcast axiom fn ax_v_div<const N: usize>(a: SMatrix<S, N, 1>, k: S, i: int) requires 0 <= i < N ensures #[trigger] v_div(a, k).data.0[0][i] == s_div(a.v(i), k);
pub broadcast axiom fn ax_v_fill<const N: usize>(k: S, i: int) requires 0 <= i < N ensures #[trigger] v_fill::<N>(k).data.0[0][i] == k;
pub broadcast group ax_vec { ax_v_add, ax_v_sub, ax_v_mul, ax_v_div, ax_v_fill }
macro_rules! vx_binop { ($tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $a:ty, $b:ty, $o:ty, |$x:ident, $y:ident| $e:expr) => { verus! {
    impl<const N: usize> vstd::std_specs::ops::$sp<$b> for $a {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, o: $b) -> bool { true }
        open spec fn $ss(self, o: $b) -> $o { let $x = self; let $y = o; $e }
    }
    impl<const N: usize> core::ops::$tr<$b> for $a { type Output = $o; #[verifier::external_body] fn $m(self, o: $b) -> $o { unimplemented!() } }
} } }
macro_rules! vx_ops { ($tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $a:ty, $b:ty, $o:ty, |$x:ident, $y:ident| $e:expr) => {
    vx_binop!($tr, $m, $sp, $ob, $rq, $ss, $a, $b, $o, |$x, $y| $e);
    vx_binop!($tr, $m, $sp, $ob, $rq, $ss, &$a, $b, $o, |$x, $y| { let $x = *$x; $e });
    vx_binop!($tr, $m, $sp, $ob, $rq, $ss, $a, &$b, $o, |$x, $y| { let $y = *$y; $e });
    vx_binop!($tr, $m, $sp, $ob, $rq, $ss, &$a, &$b, $o, |$x, $y| { let $x = *$x; let $y = *$y; $e });
} }
macro_rules! vx_mop { ($tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $a:ty, $b:ty, |$x:ident, $y:ident| $e:expr) => { verus! {
    impl<const RR: usize, const CC: usize> vstd::std_specs::ops::$sp<$b> for $a {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, o: $b) -> bool { true }
        open spec fn $ss(self, o: $b) -> SMatrix<S, RR, CC> { let $x = self; let $y = o; $e }
    }
    impl<const RR: usize, const CC: usize> core::ops::$tr<$b> for $a { type Output = SMatrix<S, RR, CC>; #[verifier::external_body] fn $m(self, o: $b) -> SMatrix<S, RR, CC> { unimplemented!() } }
} } }
macro_rules! vx_mops { ($tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $f:ident) => {
    vx_mop!($tr, $m, $sp, $ob, $rq, $ss, SMatrix<S, RR, CC>, SMatrix<S, RR, CC>, |x, y| $f(x, y));
    vx_mop!($tr, $m, $sp, $ob, $rq, $ss, &SMatrix<S, RR, CC>, SMatrix<S, RR, CC>, |x, y| $f(*x, y));
    vx_mop!($tr, $m, $sp, $ob, $rq, $ss, SMatrix<S, RR, CC>, &SMatrix<S, RR, CC>, |x, y| $f(x, *y));
    vx_mop!($tr, $m, $sp, $ob, $rq, $ss, &SMatrix<S, RR, CC>, &SMatrix<S, RR, CC>, |x, y| $f(*x, *y));
} }
} // verus!
vx_mops!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, v_add);
vx_mops!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, v_sub);
vx_ops!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, Point<S, N>, SMatrix<S, N, 1>, Point<S, N>, |x, y| pt(v_add(x.coords, y)));
vx_ops!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, Point<S, N>, SMatrix<S, N, 1>, Point<S, N>, |x, y| pt(v_sub(x.coords, y)));
vx_ops!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, Point<S, N>, Point<S, N>, SMatrix<S, N, 1>, |x, y| v_sub(x.coords, y.coords));
vx_binop!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, SMatrix<S, N, 1>, S, SMatrix<S, N, 1>, |x, y| v_mul(x, y));
vx_binop!(Div, div, DivSpecImpl, obeys_div_spec, div_req, div_spec, SMatrix<S, N, 1>, S, SMatrix<S, N, 1>, |x, y| v_div(x, y));
vx_binop!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, Point<S, N>, S, Point<S, N>, |x, y| pt(v_mul(x.coords, y)));
vx_binop!(Div, div, DivSpecImpl, obeys_div_spec, div_req, div_spec, Point<S, N>, S, Point<S, N>, |x, y| pt(v_div(x.coords, y)));
verus! {
impl<const N: usize> From<SMatrix<S, N, 1>> for Point<S, N> { #[verifier::external_body] fn from(v: SMatrix<S, N, 1>) -> Self { unimplemented!() } }
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<SMatrix<S, N, 1>> for Point<S, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SMatrix<S, N, 1>) -> Self { pt(v) }
}
impl<const N: usize> Point<S, N> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == pt(v_fill::<N>(s_zero())), !s_zero().nan(), s_zero().r() == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn origin() -> (r: Self) ensures r == pt(v_fill::<N>(s_zero())), !s_zero().nan(), s_zero().r() == 0real { unimplemented!() }
}
impl<const N: usize> SMatrix<S, N, 1> {
    #[verifier::external_body]
    pub fn zeros() -> (r: Self) ensures r == v_fill::<N>(s_zero()), !s_zero().nan(), s_zero().r() == 0real { unimplemented!() }
}
