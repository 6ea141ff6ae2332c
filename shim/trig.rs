// ---- shim/trig.rs: real trigonometry and the floating-point functions over it ----
// The functions are the real ones followed by the rounding of the scalar; the axioms are textbook facts about them.
pub uninterp spec fn pi() -> real;
pub uninterp spec fn sin(x: real) -> real;
pub uninterp spec fn cos(x: real) -> real;
pub uninterp spec fn tan(x: real) -> real;
pub uninterp spec fn sqrt(x: real) -> real;
/// the angle of the direction (x, y), in (-pi, pi]
pub uninterp spec fn atan2(y: real, x: real) -> real;
pub uninterp spec fn asin(x: real) -> real;
pub uninterp spec fn acos(x: real) -> real;
pub open spec fn rad(x: real) -> real { x * pi() / 180real }
pub axiom fn ax_pi() ensures 3.14159real < pi() < 3.1416real;
pub axiom fn ax_zero_angle() ensures sin(0real) == 0real, cos(0real) == 1real;
pub axiom fn ax_pi_angle() ensures sin(pi()) == 0real, cos(pi()) == -1real;
pub axiom fn ax_pyth(a: real) ensures sin(a) * sin(a) + cos(a) * cos(a) == 1real;
pub axiom fn ax_sum(a: real, b: real) ensures sin(a + b) == sin(a) * cos(b) + cos(a) * sin(b), cos(a + b) == cos(a) * cos(b) - sin(a) * sin(b);
pub axiom fn ax_odd(a: real) ensures sin(-a) == -sin(a), cos(-a) == cos(a);
/// the cosine decreases strictly on [0, pi]
pub axiom fn ax_cos_mono(a: real, b: real) requires 0real <= a < b <= pi() ensures cos(a) > cos(b);
pub axiom fn ax_sqrt(x: real) requires x >= 0real ensures sqrt(x) >= 0real, sqrt(x) * sqrt(x) == x;
pub axiom fn ax_atan2(y: real, x: real) ensures
    -pi() < atan2(y, x) <= pi(),
    sqrt(x * x + y * y) * cos(atan2(y, x)) == x,
    sqrt(x * x + y * y) * sin(atan2(y, x)) == y,
    y >= 0real ==> atan2(y, x) >= 0real,
    y > 0real ==> atan2(y, x) > 0real,
    y < 0real ==> atan2(y, x) < 0real,
    x >= 0real && y >= 0real ==> atan2(y, x) <= pi() / 2real,
    x == 0real && y == 0real ==> atan2(y, x) == 0real;
pub axiom fn ax_asin(x: real) requires -1real <= x <= 1real ensures -pi() / 2real <= asin(x) <= pi() / 2real, sin(asin(x)) == x, x >= 0real ==> asin(x) >= 0real;
pub axiom fn ax_acos(x: real) requires -1real <= x <= 1real ensures 0real <= acos(x) <= pi(), cos(acos(x)) == x;

pub open spec fn s_un(r: S, a: S, x: real) -> bool { (a.nan() ==> r.nan()) && (!a.nan() ==> s_is(r, rnd(x))) }
pub uninterp spec fn s_rem(a: S, b: S) -> S;
/// `%` truncates towards zero
pub broadcast axiom fn ax_rem(a: S, b: S) requires !a.nan(), !b.nan(), b.r() > 0real, a.r() >= 0real
    ensures #![trigger s_rem(a, b)] s_is(s_rem(a, b), a.r() - b.r() * ((a.r() / b.r()).floor() as real));
impl vstd::std_specs::ops::RemSpecImpl<S> for S {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: S) -> bool { true }
    open spec fn rem_spec(self, o: S) -> S { s_rem(self, o) }
}
impl core::ops::Rem for S { type Output = S; #[verifier::external_body] fn rem(self, o: S) -> S { unimplemented!() } }
pub trait Float: Sized {
    fn to_radians(self) -> Self; fn sin(self) -> Self; fn cos(self) -> Self; fn sqrt(self) -> Self; fn atan2(self, x: Self) -> Self;
    fn asin(self) -> Self; fn acos(self) -> Self; fn powi(self, n: i32) -> Self; fn sin_cos(self) -> (Self, Self); fn mul_add(self, a: Self, b: Self) -> Self; fn abs(self) -> Self;
}
impl Float for S {
    #[verifier::external_body] fn abs(self) -> (r: S) ensures r == s_abs(self) { unimplemented!() }
    #[verifier::external_body] fn to_radians(self) -> (r: S) ensures s_un(r, self, rad(self.r())) { unimplemented!() }
    #[verifier::external_body] fn sin(self) -> (r: S) ensures s_un(r, self, sin(self.r())) { unimplemented!() }
    #[verifier::external_body] fn cos(self) -> (r: S) ensures s_un(r, self, cos(self.r())) { unimplemented!() }
    /// NaN for negative numbers
    #[verifier::external_body] fn sqrt(self) -> (r: S) ensures !self.nan() && self.r() >= 0real ==> s_is(r, rnd(sqrt(self.r()))), self.nan() || self.r() < 0real ==> r.nan() { unimplemented!() }
    #[verifier::external_body] fn atan2(self, x: S) -> (r: S) ensures !self.nan() && !x.nan() ==> s_is(r, rnd(atan2(self.r(), x.r()))), self.nan() || x.nan() ==> r.nan() { unimplemented!() }
    #[verifier::external_body] fn asin(self) -> (r: S) ensures !self.nan() && -1real <= self.r() <= 1real ==> s_is(r, rnd(asin(self.r()))), self.nan() || self.r() < -1real || self.r() > 1real ==> r.nan() { unimplemented!() }
    #[verifier::external_body] fn acos(self) -> (r: S) ensures !self.nan() && -1real <= self.r() <= 1real ==> s_is(r, rnd(acos(self.r()))), self.nan() || self.r() < -1real || self.r() > 1real ==> r.nan() { unimplemented!() }
    #[verifier::external_body] fn powi(self, n: i32) -> (r: S) ensures n == 2 ==> s_un(r, self, self.r() * self.r()), n == 1 ==> r == self { unimplemented!() }
    #[verifier::external_body] fn sin_cos(self) -> (r: (S, S)) ensures s_un(r.0, self, sin(self.r())), s_un(r.1, self, cos(self.r())) { unimplemented!() }
    #[verifier::external_body] fn mul_add(self, a: S, b: S) -> (r: S) ensures !self.nan() && !a.nan() && !b.nan() ==> s_is(r, rnd(self.r() * a.r() + b.r())) { unimplemented!() }
}
pub trait RealField: Sized { fn two_pi() -> Self; fn pi() -> Self; fn frac_pi_2() -> Self; }
impl RealField for S {
    #[verifier::external_body] fn two_pi() -> (r: S) ensures s_is(r, rnd(2real * pi())) { unimplemented!() }
    #[verifier::external_body] fn pi() -> (r: S) ensures s_is(r, rnd(pi())) { unimplemented!() }
    #[verifier::external_body] fn frac_pi_2() -> (r: S) ensures s_is(r, rnd(pi() / 2real)) { unimplemented!() }
}
/// num_traits::clamp
#[verifier::external_body]
pub fn clamp(x: S, lo: S, hi: S) -> (r: S)
    requires !lo.nan(), !hi.nan(), lo.r() <= hi.r()
    ensures x.nan() ==> r.nan(), !x.nan() ==> r == (if x.r() < lo.r() { lo } else if x.r() > hi.r() { hi } else { x }) { unimplemented!() }
