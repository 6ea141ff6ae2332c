// ---- shim/scalar.rs: the abstract scalar ----
// S stands for every scalar type variable (T, O, F). A value is NaN or has a mathematical value r().
// All arithmetic is "correctly rounded": result = rnd(exact result) for one monotone, odd, idempotent
// rounding function rnd. (rnd = identity in the exact model.)  No infinities, no overflow (assumed).
#[verifier::external_body]
pub struct S(u8);
impl Copy for S {}
impl Clone for S { #[verifier::external_body] fn clone(&self) -> (r: S) ensures r == *self { *self } }
impl S {
    pub uninterp spec fn nan(self) -> bool;
    pub uninterp spec fn r(self) -> real;
    #[verifier::external_body]
    pub fn default() -> (r: S) ensures !r.nan(), r.r() == 0real { unimplemented!() }
}
pub type T = S;
pub type O = S;
pub type F = S;
pub uninterp spec fn rnd(x: real) -> real;
pub broadcast axiom fn ax_rnd_mono(x: real, y: real) requires x <= y ensures #[trigger] rnd(x) <= #[trigger] rnd(y);
pub broadcast axiom fn ax_rnd_neg(x: real) ensures #[trigger] rnd(-x) == -rnd(x);
pub broadcast axiom fn ax_rnd_repr(a: S) requires !a.nan() ensures #[trigger] rnd(a.r()) == a.r();
pub broadcast axiom fn ax_rnd_zero() ensures #[trigger] rnd(0real) == 0real;
pub uninterp spec fn s_add(a: S, b: S) -> S;
pub uninterp spec fn s_sub(a: S, b: S) -> S;
pub uninterp spec fn s_mul(a: S, b: S) -> S;
pub uninterp spec fn s_div(a: S, b: S) -> S;
pub uninterp spec fn s_floor(a: S) -> S;
pub broadcast axiom fn ax_floor(a: S) requires !a.nan() ensures #![trigger s_floor(a)] !s_floor(a).nan(), s_floor(a).r() == (a.r().floor() as real);
pub uninterp spec fn s_neg(a: S) -> S;
pub uninterp spec fn s_abs(a: S) -> S;
pub broadcast axiom fn ax_add(a: S, b: S) requires !a.nan(), !b.nan() ensures #![trigger s_add(a,b)] !s_add(a,b).nan(), s_add(a,b).r() == rnd(a.r() + b.r());
pub broadcast axiom fn ax_sub(a: S, b: S) requires !a.nan(), !b.nan() ensures #![trigger s_sub(a,b)] !s_sub(a,b).nan(), s_sub(a,b).r() == rnd(a.r() - b.r());
pub broadcast axiom fn ax_mul(a: S, b: S) requires !a.nan(), !b.nan() ensures #![trigger s_mul(a,b)] !s_mul(a,b).nan(), s_mul(a,b).r() == rnd(a.r() * b.r());
pub broadcast axiom fn ax_div(a: S, b: S) requires !a.nan(), !b.nan(), b.r() != 0real ensures #![trigger s_div(a,b)] !s_div(a,b).nan(), s_div(a,b).r() == rnd(a.r() / b.r());
pub broadcast axiom fn ax_neg(a: S) requires !a.nan() ensures #![trigger s_neg(a)] !s_neg(a).nan(), s_neg(a).r() == -a.r();
pub broadcast axiom fn ax_abs(a: S) requires !a.nan() ensures #![trigger s_abs(a)] !s_abs(a).nan(), s_abs(a).r() == (if a.r() < 0real { -a.r() } else { a.r() });
pub broadcast group ax_scalar { ax_rnd_repr, ax_rnd_zero, ax_add, ax_sub, ax_mul, ax_div, ax_neg, ax_abs }

/// a is a number with this value
pub open spec fn s_is(a: S, x: real) -> bool { !a.nan() && a.r() == x }
pub open spec fn s_eq(a: S, b: S) -> bool { !a.nan() && !b.nan() && a.r() == b.r() }
pub open spec fn s_cmp(a: S, b: S) -> Option<Ordering> {
    if a.nan() || b.nan() { None } else if a.r() < b.r() { Some(Ordering::Less) }
    else if a.r() == b.r() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<S> for S {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &S) -> bool { s_eq(*self, *o) }
}
impl PartialEq for S { #[verifier::external_body] fn eq(&self, o: &S) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<S> for S {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &S) -> Option<Ordering> { s_cmp(*self, *o) }
}
impl PartialOrd for S { #[verifier::external_body] fn partial_cmp(&self, o: &S) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<S> for S {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: S) -> bool { true }
    open spec fn add_spec(self, o: S) -> S { s_add(self, o) }
}
impl core::ops::Add for S { type Output = S; #[verifier::external_body] fn add(self, o: S) -> S { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<S> for S {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: S) -> bool { true }
    open spec fn sub_spec(self, o: S) -> S { s_sub(self, o) }
}
impl core::ops::Sub for S { type Output = S; #[verifier::external_body] fn sub(self, o: S) -> S { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<S> for S {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: S) -> bool { true }
    open spec fn mul_spec(self, o: S) -> S { s_mul(self, o) }
}
impl core::ops::Mul for S { type Output = S; #[verifier::external_body] fn mul(self, o: S) -> S { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<S> for S {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: S) -> bool { true }
    open spec fn div_spec(self, o: S) -> S { s_div(self, o) }
}
impl core::ops::Div for S { type Output = S; #[verifier::external_body] fn div(self, o: S) -> S { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for S {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> S { s_neg(self) }
}
impl core::ops::Neg for S { type Output = S; #[verifier::external_body] fn neg(self) -> S { unimplemented!() } }

pub uninterp spec fn s_zero() -> S;
pub uninterp spec fn s_one() -> S;
pub uninterp spec fn s_max() -> S;
pub uninterp spec fn s_min() -> S;
pub uninterp spec fn s_eps() -> S;
pub uninterp spec fn s_of(n: int) -> S;
pub broadcast axiom fn ax_zero() ensures !(#[trigger] s_zero()).nan(), s_zero().r() == 0real;
pub broadcast axiom fn ax_one() ensures !(#[trigger] s_one()).nan(), s_one().r() == 1real;
pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; }
impl Zero for S {
    #[verifier::external_body] fn zero() -> (r: S) ensures r == s_zero(), !r.nan(), r.r() == 0real { unimplemented!() }
    #[verifier::external_body] fn is_zero(&self) -> (r: bool) ensures r == s_eq(*self, s_zero()) { unimplemented!() }
}
impl Zero for usize {
    fn zero() -> (r: usize) ensures r == 0 { 0 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
}
pub trait One: Sized { fn one() -> Self; }
impl One for S { #[verifier::external_body] fn one() -> (r: S) ensures r == s_one(), !r.nan(), r.r() == 1real { unimplemented!() } }
pub trait Bounded: Sized { fn max_value() -> Self; fn min_value() -> Self; }
impl Bounded for S {
    #[verifier::external_body] fn max_value() -> (r: S) ensures r == s_max(), !r.nan() { unimplemented!() }
    #[verifier::external_body] fn min_value() -> (r: S) ensures r == s_min(), !r.nan() { unimplemented!() }
}
pub trait ComplexField: Sized { fn abs(self) -> Self; }
impl ComplexField for S { #[verifier::external_body] fn abs(self) -> (r: S) ensures r == s_abs(self) { unimplemented!() } }
impl S {
    #[verifier::external_body]
    pub fn min(self, o: S) -> (r: S) ensures (r == self || r == o), !self.nan() && !o.nan() ==> r.r() <= self.r() && r.r() <= o.r() { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: S) -> (r: S) ensures (r == self || r == o), !self.nan() && !o.nan() ==> r.r() >= self.r() && r.r() >= o.r() { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (r: S) ensures r == s_floor(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(&self) -> (r: bool) ensures r == self.nan() { unimplemented!() }
    #[verifier::external_body]
    pub fn default_epsilon() -> (r: S) ensures r == s_eps() { unimplemented!() }
    #[verifier::external_body]
    pub fn epsilon() -> (r: S) ensures r == s_eps() { unimplemented!() }
    /// no infinities in the model
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == !self.nan() { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: S) ensures r == s_abs(self) { unimplemented!() }
}
pub trait AsPrimitive<X>: Sized { spec fn as_spec(self) -> X; fn as_(self) -> (r: X) ensures r == self.as_spec(); }
impl AsPrimitive<S> for S { open spec fn as_spec(self) -> S { self } #[verifier::external_body] fn as_(self) -> S { unimplemented!() } }
impl AsPrimitive<S> for usize { open spec fn as_spec(self) -> S { s_of(self as int) } #[verifier::external_body] fn as_(self) -> S { unimplemented!() } }
/// float to isize: exact on integers in range
impl AsPrimitive<isize> for S { open spec fn as_spec(self) -> isize { s_isize(self) } #[verifier::external_body] fn as_(self) -> isize { unimplemented!() } }
pub uninterp spec fn s_isize(a: S) -> isize;
pub broadcast axiom fn ax_isize(a: S, n: int) requires !a.nan(), a.r() == n as real, isize::MIN <= n <= isize::MAX ensures #![trigger s_isize(a), s_of_i(n)] s_isize(a) == n;
pub open spec fn s_of_i(n: int) -> bool { true }
/// conversion of a count to the scalar type is exact (counts are representable: assumed)
pub broadcast axiom fn ax_of(n: int) requires 0 <= n ensures !(#[trigger] s_of(n)).nan(), s_of(n).r() == n as real;
/// every finite value is at most MAX and at least MIN
pub axiom fn ax_max(a: S) requires !a.nan() ensures !s_max().nan(), a.r() <= s_max().r();
pub axiom fn ax_eps() ensures !s_eps().nan(), s_eps().r() > 0real;
pub axiom fn ax_min(a: S) requires !a.nan() ensures !s_min().nan(), a.r() >= s_min().r();
impl VxSum for S { #[verifier::external_body] fn vx_sum_zero() -> (r: S) ensures s_is(r, 0real) { unimplemented!() } }
