// ---- shim/seq.rs: sequences, containers and the loop helpers emitted by vx (model independent) ----
pub trait VxSeq {
    type Item;
    spec fn vx_view(&self) -> Seq<Self::Item>;
    fn vx_len(&self) -> (r: usize) ensures r == self.vx_view().len();
    fn vx_at(&self, i: usize) -> (r: &Self::Item) requires i < self.vx_view().len(), ensures *r == self.vx_view()[i as int];
}
impl<P> VxSeq for [P] {
    type Item = P;
    open spec fn vx_view(&self) -> Seq<P> { self@ }
    fn vx_len(&self) -> (r: usize) { self.len() }
    fn vx_at(&self, i: usize) -> (r: &P) { &self[i] }
}
impl<P> VxSeq for Vec<P> {
    type Item = P;
    open spec fn vx_view(&self) -> Seq<P> { self@ }
    fn vx_len(&self) -> (r: usize) { self.len() }
    fn vx_at(&self, i: usize) -> (r: &P) { &self[i] }
}
impl<P, const N: usize> VxSeq for [P; N] {
    type Item = P;
    open spec fn vx_view(&self) -> Seq<P> { self@ }
    fn vx_len(&self) -> (r: usize) { N }
    fn vx_at(&self, i: usize) -> (r: &P) { &self[i] }
}
impl<P> VxSeq for VecDeque<P> {
    type Item = P;
    open spec fn vx_view(&self) -> Seq<P> { self@ }
    fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_at(&self, i: usize) -> (r: &P) { &self[i] }
}
pub trait VxInto {
    type It;
    spec fn vx_iview(&self) -> Seq<Self::It>;
    fn vx_ilen(&self) -> (r: usize) ensures r == self.vx_iview().len();
    fn vx_get(&self, i: usize) -> (r: Self::It) requires i < self.vx_iview().len(), ensures r == self.vx_iview()[i as int];
}
impl<'a, P> VxInto for &'a [P] {
    type It = &'a P;
    open spec fn vx_iview(&self) -> Seq<&'a P> { Seq::new(self@.len(), |i:int| &self@[i]) }
    fn vx_ilen(&self) -> (r: usize) { self.len() }
    fn vx_get(&self, i: usize) -> (r: &'a P) { &self[i] }
}
impl<'a, P> VxInto for &'a Vec<P> {
    type It = &'a P;
    open spec fn vx_iview(&self) -> Seq<&'a P> { Seq::new(self@.len(), |i:int| &self@[i]) }
    fn vx_ilen(&self) -> (r: usize) { self.len() }
    fn vx_get(&self, i: usize) -> (r: &'a P) { &self[i] }
}
impl<P> VxInto for Vec<P> {
    type It = P;
    open spec fn vx_iview(&self) -> Seq<P> { self@ }
    #[verifier::external_body]
    fn vx_ilen(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: P) { unimplemented!() }
}
impl<P> VxInto for VecDeque<P> {
    type It = P;
    open spec fn vx_iview(&self) -> Seq<P> { self@ }
    #[verifier::external_body]
    fn vx_ilen(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: P) { unimplemented!() }
}

pub trait VxSet<P> {
    spec fn vx_sview(&self) -> Seq<P>;
    fn vx_set(&mut self, i: usize, v: P) requires i < old(self).vx_sview().len(),
        ensures final(self).vx_sview() == old(self).vx_sview().update(i as int, v);
}
impl<P> VxSet<P> for Vec<P> {
    open spec fn vx_sview(&self) -> Seq<P> { self@ }
    fn vx_set(&mut self, i: usize, v: P) { self[i] = v; }
}
impl<P> VxSet<P> for [P] {
    open spec fn vx_sview(&self) -> Seq<P> { self@ }
    fn vx_set(&mut self, i: usize, v: P) { self[i] = v; }
}
impl<P, const N: usize> VxSet<P> for [P; N] {
    open spec fn vx_sview(&self) -> Seq<P> { self@ }
    fn vx_set(&mut self, i: usize, v: P) { self[i] = v; }
}

/// array::from_fn
#[verifier::reject_recursive_types(P)]
pub struct VxArr<P, const M: usize> { pub v: Vec<P> }
#[verifier::external_body]
pub fn vx_arr_begin<P, const M: usize>() -> (r: VxArr<P, M>) ensures r.v@.len() == 0 { unimplemented!() }
impl<P, const M: usize> VxArr<P, M> {
    pub fn vx_cap(&self) -> (r: usize) ensures r == M { M }
    pub fn vx_push(&mut self, p: P) ensures final(self).v@ == old(self).v@.push(p) { self.v.push(p); }
    #[verifier::external_body]
    pub fn vx_finish(self) -> (r: [P; M]) requires self.v@.len() == M, ensures r@ == self.v@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_from<P, const M: usize>(a: [P; M]) -> (r: Vec<P>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_repeat<P: Copy>(a: P, n: usize) -> (r: Vec<P>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == a { unimplemented!() }

pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_add_len(a: usize, b: usize) -> (r: usize) requires a + b <= usize::MAX, ensures r == a + b { a + b }
#[verifier::external_body]
pub fn vx_to_owned<P: Copy>(p: &P) -> (r: P) ensures r == *p { *p }
pub trait VxDefault: Sized { fn vx_default() -> Self; }
impl VxDefault for bool { fn vx_default() -> (r: bool) ensures r == false { false } }
pub trait VxSum: Sized { fn vx_sum_zero() -> Self; }
impl VxSum for usize { fn vx_sum_zero() -> (r: usize) ensures r == 0 { 0 } }

pub struct RangeInclusive<P> { pub lo: P, pub hi: P }
/// the number of steps of a..b
pub fn vx_range_len(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { (b - a) as usize } else { 0usize }) { if a < b { b - a } else { 0 } }
/// Option::as_deref of a vector or a box
pub trait VxDeref { type Target: ?Sized; spec fn vx_same(&self, t: &Self::Target) -> bool; }
impl<P> VxDeref for std::vec::Vec<P> { type Target = [P]; open spec fn vx_same(&self, t: &[P]) -> bool { t@ == self@ } }
impl<X> VxDeref for std::boxed::Box<X> { type Target = X; open spec fn vx_same(&self, t: &X) -> bool { *t == **self } }
#[verifier::external_body]
pub fn vx_as_deref<D: VxDeref>(o: &Option<D>) -> (r: Option<&D::Target>)
    ensures r.is_some() == o.is_some(), o.is_some() ==> o.unwrap().vx_same(r.unwrap())
{ unimplemented!() }
/// usize::from(bool)
pub fn vx_usize_of(b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize }) { if b { 1 } else { 0 } }
pub fn vx_range_incl<P>(lo: P, hi: P) -> (r: RangeInclusive<P>) ensures r.lo == lo, r.hi == hi { RangeInclusive { lo, hi } }
impl<P> RangeInclusive<P> {
    pub fn start(&self) -> (r: &P) ensures *r == self.lo { &self.lo }
    pub fn end(&self) -> (r: &P) ensures *r == self.hi { &self.hi }
    pub fn into_inner(self) -> (r: (P, P)) ensures r.0 == self.lo, r.1 == self.hi { (self.lo, self.hi) }
}
pub assume_specification<P: Clone> [<[P]>::to_vec] (s: &[P]) -> (r: std::vec::Vec<P>) ensures r@ == s@;
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_unreachable() requires false { unimplemented!() }
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a == Ordering::Equal { b } else { a });
pub assume_specification [Ordering::is_eq] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification [Ordering::is_ne] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification [Ordering::is_lt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification [Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
