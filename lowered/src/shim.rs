//! Executable meanings of the `vx_*` operations that tools/vx introduces when it lowers iterator chains, over
//! the real nalgebra and rand types. The deductive shims in /verif/shim give the same operations their contracts.
#![allow(dead_code)]
pub use nalgebra::{Scalar, 
    ArrayStorage, ComplexField, Const, Isometry, Matrix, Point, Point2, Rotation, SMatrix, UnitComplex, UnitQuaternion, Vector, Vector2,
};
pub use num_traits::{clamp, Bounded, One, Zero};
pub use rand::{rngs::SmallRng, Rng, SeedableRng};
pub use std::cmp::Ordering;
pub use std::collections::VecDeque;
pub use std::ops::{Neg, RangeInclusive};

pub trait VxSeq {
    type Item;
    fn vx_len(&self) -> usize;
    fn vx_at(&self, i: usize) -> &Self::Item;
}
impl<P> VxSeq for [P] {
    type Item = P;
    fn vx_len(&self) -> usize { self.len() }
    fn vx_at(&self, i: usize) -> &P { &self[i] }
}
impl<P> VxSeq for Vec<P> {
    type Item = P;
    fn vx_len(&self) -> usize { self.len() }
    fn vx_at(&self, i: usize) -> &P { &self[i] }
}
impl<P, const M: usize> VxSeq for [P; M] {
    type Item = P;
    fn vx_len(&self) -> usize { M }
    fn vx_at(&self, i: usize) -> &P { &self[i] }
}
impl<P> VxSeq for VecDeque<P> {
    type Item = P;
    fn vx_len(&self) -> usize { self.len() }
    fn vx_at(&self, i: usize) -> &P { &self[i] }
}
impl<const M: usize> VxSeq for Point<f64, M> {
    type Item = f64;
    fn vx_len(&self) -> usize { M }
    fn vx_at(&self, i: usize) -> &f64 { &self[i] }
}
impl<const R: usize, const C: usize> VxSeq for SMatrix<f64, R, C> {
    type Item = f64;
    fn vx_len(&self) -> usize { R * C }
    fn vx_at(&self, i: usize) -> &f64 { &self[i] }
}
pub trait VxInto {
    type It;
    fn vx_ilen(&self) -> usize;
    fn vx_get(&self, i: usize) -> Self::It;
}
impl<'a, P> VxInto for &'a [P] {
    type It = &'a P;
    fn vx_ilen(&self) -> usize { self.len() }
    fn vx_get(&self, i: usize) -> &'a P { &self[i] }
}
impl<'a, P> VxInto for &'a Vec<P> {
    type It = &'a P;
    fn vx_ilen(&self) -> usize { self.len() }
    fn vx_get(&self, i: usize) -> &'a P { &self[i] }
}
impl<P: Clone> VxInto for Vec<P> {
    type It = P;
    fn vx_ilen(&self) -> usize { self.len() }
    fn vx_get(&self, i: usize) -> P { self[i].clone() }
}
impl<P: Clone> VxInto for VecDeque<P> {
    type It = P;
    fn vx_ilen(&self) -> usize { self.len() }
    fn vx_get(&self, i: usize) -> P { self[i].clone() }
}
pub trait VxSet<P> {
    fn vx_set(&mut self, i: usize, v: P);
}
impl<P> VxSet<P> for [P] {
    fn vx_set(&mut self, i: usize, v: P) { self[i] = v; }
}
impl<P> VxSet<P> for Vec<P> {
    fn vx_set(&mut self, i: usize, v: P) { self[i] = v; }
}
impl<P, const M: usize> VxSet<P> for [P; M] {
    fn vx_set(&mut self, i: usize, v: P) { self[i] = v; }
}
impl<const M: usize> VxSet<f64> for Point<f64, M> {
    fn vx_set(&mut self, i: usize, v: f64) { self[i] = v; }
}
pub struct VxArr<P, const M: usize>(Vec<P>);
pub fn vx_arr_begin<P, const M: usize>() -> VxArr<P, M> { VxArr(Vec::new()) }
impl<P, const M: usize> VxArr<P, M> {
    pub fn vx_cap(&self) -> usize { M }
    pub fn vx_push(&mut self, p: P) { self.0.push(p) }
    pub fn vx_finish(self) -> [P; M] { self.0.try_into().ok().unwrap() }
}
pub fn vx_vec_from<P, const M: usize>(a: [P; M]) -> Vec<P> { Vec::from(a) }
pub fn vx_vec_repeat<P: Copy>(a: P, n: usize) -> Vec<P> { vec![a; n] }
pub fn vx_min(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
pub fn vx_add_len(a: usize, b: usize) -> usize { a.checked_add(b).unwrap() }
pub fn vx_to_owned<P: Copy>(p: &P) -> P { *p }
pub fn vx_range_incl<P>(a: P, b: P) -> RangeInclusive<P> { a..=b }
pub fn vx_lit(n: i64, d: i64) -> f32 { (n as f64 / d as f64) as f32 }
pub fn vx_assert(b: bool) { assert!(b) }
pub fn vx_unreachable() -> ! { unreachable!() }
pub trait VxDefault { fn vx_default() -> Self; }
impl VxDefault for bool { fn vx_default() -> bool { false } }
pub trait VxSum { fn vx_sum_zero() -> Self; }
impl VxSum for usize { fn vx_sum_zero() -> usize { 0 } }
/// the zero of `Sum for f64`
impl VxSum for f64 { fn vx_sum_zero() -> f64 { core::iter::empty::<f64>().sum() } }
pub trait VxSort<P> { fn vx_sort_by<C: Fn(&P, &P) -> Ordering>(&mut self, c: C); }
/// the stable sort, by insertion
impl<P> VxSort<P> for [P] {
    fn vx_sort_by<C: Fn(&P, &P) -> Ordering>(&mut self, c: C) {
        for i in 1..self.len() {
            let mut j = i;
            while j > 0 && c(&self[j - 1], &self[j]) == Ordering::Greater {
                self.swap(j - 1, j);
                j -= 1;
            }
        }
    }
}
pub trait VxMat {
    fn vx_column_len(&self, j: usize) -> usize;
    fn vx_mat_at(&self, i: usize, j: usize) -> &f64;
    fn vx_mat_set(&mut self, i: usize, j: usize, v: f64);
}
impl<const R: usize, const C: usize> VxMat for SMatrix<f64, R, C> {
    fn vx_column_len(&self, j: usize) -> usize { assert!(j < C); R }
    fn vx_mat_at(&self, i: usize, j: usize) -> &f64 { &self[(i, j)] }
    fn vx_mat_set(&mut self, i: usize, j: usize, v: f64) { self[(i, j)] = v }
}
/// a map keyed by voxel; values in order of first insertion
pub struct HashMap<K, V>(Vec<(K, V)>);
impl<K: PartialEq, P> HashMap<K, Vec<P>> {
    pub fn new() -> Self { HashMap(Vec::new()) }
    pub fn with_capacity(_: usize) -> Self { HashMap(Vec::new()) }
    pub fn vx_entry_push(&mut self, k: K, p: P) {
        match self.0.iter().position(|e| e.0 == k) {
            Some(i) => self.0[i].1.push(p),
            None => self.0.push((k, vec![p])),
        }
    }
    pub fn into_values(self) -> Vec<Vec<P>> { self.0.into_iter().map(|e| e.1).collect() }
}
pub trait AsPrimitive<X> { fn as_(self) -> X; }
impl AsPrimitive<f64> for f64 { fn as_(self) -> f64 { self } }
impl AsPrimitive<isize> for f64 { fn as_(self) -> isize { self as isize } }
impl AsPrimitive<usize> for f64 { fn as_(self) -> usize { self as usize } }
impl AsPrimitive<f64> for f32 { fn as_(self) -> f64 { self as f64 } }
impl AsPrimitive<f64> for usize { fn as_(self) -> f64 { self as f64 } }
pub trait Float: Sized { fn sin(self) -> Self; fn cos(self) -> Self; fn atan2(self, o: Self) -> Self; fn floor(self) -> Self; fn sqrt(self) -> Self; fn abs(self) -> Self; }
impl Float for f64 {
    fn sin(self) -> f64 { num_traits::Float::sin(self) }
    fn cos(self) -> f64 { num_traits::Float::cos(self) }
    fn atan2(self, o: f64) -> f64 { num_traits::Float::atan2(self, o) }
    fn floor(self) -> f64 { num_traits::Float::floor(self) }
    fn sqrt(self) -> f64 { num_traits::Float::sqrt(self) }
    fn abs(self) -> f64 { num_traits::Float::abs(self) }
}
pub trait Consts { fn two_pi() -> Self; fn pi() -> Self; fn default_epsilon() -> Self; }
impl Consts for f64 {
    fn two_pi() -> f64 { <f64 as nalgebra::RealField>::two_pi() }
    fn pi() -> f64 { <f64 as nalgebra::RealField>::pi() }
    fn default_epsilon() -> f64 { f64::EPSILON }
}
