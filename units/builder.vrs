//@include head.rs seq.rs scalar.rs
/// a floating-point literal of the source, by its value; `as_` to the scalar type keeps it (as the single-precision value the source type gives)
pub struct Lit { pub n: u64, pub d: u64 }
pub fn vx_lit(n: u64, d: u64) -> (r: Lit) ensures r == (Lit { n, d }) { Lit { n, d } }
pub uninterp spec fn s_lit(l: Lit) -> S;
impl AsPrimitive<S> for Lit { open spec fn as_spec(self) -> S { s_lit(self) } #[verifier::external_body] fn as_(self) -> S { unimplemented!() } }
//@type ICPConfiguration
//@type ICPConfigurationBuilder | _internal => internal
impl ICPConfiguration<S> {
    /// #[derive(Clone)] on fields that are Copy
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ICPConfigurationBuilder<S> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

impl ICPConfiguration<S> {
//@fn ICPConfiguration::builder props=C23 ty=ICPConfiguration
@subst _internal => internal
@sig pub fn builder() -> (r: ICPConfigurationBuilder<S>)
@spec
    ensures r.internal == (ICPConfiguration { use_kd_tree: false, max_iterations: 20, mse_absolute_threshold: None, mse_interval_threshold: s_lit(Lit { n: 1, d: 100 }) })
//@end
}
impl ICPConfigurationBuilder<S> {
//@fn ICPConfigurationBuilder::with_kd_tree props=C23 ty=ICPConfigurationBuilder
@params use_kd_tree
@subst _internal => internal
@sig pub fn with_kd_tree(&self, use_kd_tree: bool) -> (r: Self)
@spec
    ensures r.internal == (ICPConfiguration { use_kd_tree, ..self.internal })
//@end
//@fn ICPConfigurationBuilder::with_max_iterations props=C23 ty=ICPConfigurationBuilder
@params max_iterations
@subst _internal => internal
@sig pub fn with_max_iterations(&self, max_iterations: usize) -> (r: Self)
@spec
    ensures r.internal == (ICPConfiguration { max_iterations, ..self.internal })
//@end
//@fn ICPConfigurationBuilder::with_absolute_mse_threshold props=C23 ty=ICPConfigurationBuilder
@params mse_absolute_threshold
@subst _internal => internal
@sig pub fn with_absolute_mse_threshold(&self, mse_absolute_threshold: Option<S>) -> (r: Self)
@spec
    ensures r.internal == (ICPConfiguration { mse_absolute_threshold, ..self.internal })
//@end
//@fn ICPConfigurationBuilder::with_mse_interval_threshold props=C23 ty=ICPConfigurationBuilder
@params mse_interval_threshold
@subst _internal => internal
@sig pub fn with_mse_interval_threshold(&self, mse_interval_threshold: S) -> (r: Self)
@spec
    ensures r.internal == (ICPConfiguration { mse_interval_threshold, ..self.internal })
//@end
//@fn ICPConfigurationBuilder::build props=C23 ty=ICPConfigurationBuilder
@subst _internal => internal
@sig pub fn build(&self) -> (r: ICPConfiguration<S>)
@spec
    ensures r == self.internal
//@end
}
/// every chain of setters: the last value given to an option is the one built, whatever was set in between
fn any_history(b: &ICPConfigurationBuilder<S>, k: bool, m: usize, a: Option<S>, i: S)
{
    let c1 = b.with_kd_tree(k).with_max_iterations(m).with_absolute_mse_threshold(a).with_mse_interval_threshold(i).build();
    let c2 = b.with_mse_interval_threshold(i).with_absolute_mse_threshold(a).with_max_iterations(m).with_kd_tree(k).build();
    assert(c1 == c2);
    assert(c1 == (ICPConfiguration { use_kd_tree: k, max_iterations: m, mse_absolute_threshold: a, mse_interval_threshold: i }));
    let d = b.with_kd_tree(!k);
    let c3 = d.with_kd_tree(k).build();
    assert(c3 == (ICPConfiguration { use_kd_tree: k, ..b.internal }));
    let c4 = b.build();
    let c5 = b.build();
    assert(c4 == c5);
}
} // verus!
fn main() {}
