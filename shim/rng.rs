// ---- shim/rng.rs: a deterministic generator: the state and each draw are functions of the state before ----
pub struct RngState { pub id: int }
#[verifier::external_body]
pub struct SmallRng { k: u8 }
pub uninterp spec fn rng_seed(s: u64) -> RngState;
pub uninterp spec fn rng_val(st: RngState, x: RangeInclusive<S>) -> S;
pub uninterp spec fn rng_next(st: RngState, x: RangeInclusive<S>) -> RngState;
impl SmallRng {
    pub uninterp spec fn st(&self) -> RngState;
    #[verifier::external_body]
    pub fn seed_from_u64(s: u64) -> (r: Self) ensures r.st() == rng_seed(s) { unimplemented!() }
    /// panics on an empty range
    #[verifier::external_body]
    pub fn gen_range(&mut self, x: RangeInclusive<S>) -> (r: S)
        requires !x.lo.nan(), !x.hi.nan(), x.lo.r() <= x.hi.r()
        ensures r == rng_val(old(self).st(), x), final(self).st() == rng_next(old(self).st(), x), !r.nan(), x.lo.r() <= r.r() <= x.hi.r() { unimplemented!() }
}
impl Clone for RangeInclusive<S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
