// ---- shim/vmap.rs: the voxel map (std HashMap or BTreeMap): a map from keys to the vectors pushed under them ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
pub type BTreeMap<K, V> = HashMap<K, V>;
impl<const N: usize, P> HashMap<[isize; N], Vec<P>> {
    pub uninterp spec fn m(&self) -> Map<Seq<isize>, Seq<P>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<isize>, Seq<P>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<Seq<isize>, Seq<P>>::empty() { unimplemented!() }
    /// entry(k).or_default().push(p)
    #[verifier::external_body]
    pub fn vx_entry_push(&mut self, k: [isize; N], p: P)
        ensures final(self).m() == old(self).m().insert(k@, (if old(self).m().dom().contains(k@) { old(self).m()[k@] } else { Seq::<P>::empty() }).push(p)) { unimplemented!() }
    /// every value once, in some order of the keys
    #[verifier::external_body]
    pub fn into_values(self) -> (r: Vec<Vec<P>>) ensures exists|ks: Seq<Seq<isize>>| #[trigger] listed(self.m(), ks, r@) { unimplemented!() }
}
pub open spec fn listed<P>(m: Map<Seq<isize>, Seq<P>>, ks: Seq<Seq<isize>>, vs: Seq<Vec<P>>) -> bool {
    &&& ks.len() == vs.len()
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]) && vs[i]@ == m[ks[i]]
    &&& forall|k: Seq<isize>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && ks[i] == k
}
