#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {
// types of the signatures, opaque: a wrapper only passes values on
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Point<T, const N: usize> { x: [T; N] }
pub type Point2<T> = Point<T, 2>;
pub type Point3<T> = Point<T, 3>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnitComplex<T> { x: T }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnitQuaternion<T> { x: T }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ICPConfiguration<T> { x: T }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(R)]
pub struct ICPResult<T, R, const N: usize> { x: [T; N], r: R }
pub trait AbstractIsometry<T, const N: usize> { type RotType; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IsometryAbstractor<T, const N: usize> { x: [T; N] }
impl<T> AbstractIsometry<T, 2> for IsometryAbstractor<T, 2> { type RotType = UnitComplex<T>; }
impl<T> AbstractIsometry<T, 3> for IsometryAbstractor<T, 3> { type RotType = UnitQuaternion<T>; }

// the generic functions: uninterpreted, so that only the same function of the same arguments gives the same result
pub uninterp spec fn s_icp<T, const N: usize>(points_a: &[Point<T, N>], points_b: &[Point<T, N>], config: ICPConfiguration<T>) -> ICPResult<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N> where IsometryAbstractor<T, N>: AbstractIsometry<T, N>;
#[verifier::external_body]
pub fn generic_icp<T, const N: usize>(points_a: &[Point<T, N>], points_b: &[Point<T, N>], config: ICPConfiguration<T>) -> (r: ICPResult<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N>) where IsometryAbstractor<T, N>: AbstractIsometry<T, N>
    ensures r == s_icp::<T, N>(points_a, points_b, config) { unimplemented!() }
pub uninterp spec fn s_graham_scan<O, T>(points: &[Point2<T>], assume_sorted: bool, voxel_size: Option<O>) -> Option<Vec<Point2<T>>>;
#[verifier::external_body]
pub fn generic_graham_scan<O, T>(points: &[Point2<T>], assume_sorted: bool, voxel_size: Option<O>) -> (r: Option<Vec<Point2<T>>>)
    ensures r == s_graham_scan::<O, T>(points, assume_sorted, voxel_size) { unimplemented!() }
pub uninterp spec fn s_jarvis_march<O, T>(points: &[Point2<T>], voxel_size: Option<O>) -> Option<Vec<Point2<T>>>;
#[verifier::external_body]
pub fn generic_jarvis_march<O, T>(points: &[Point2<T>], voxel_size: Option<O>) -> (r: Option<Vec<Point2<T>>>)
    ensures r == s_jarvis_march::<O, T>(points, voxel_size) { unimplemented!() }
pub uninterp spec fn s_plot_bresenham_line<F, T, const N: usize>(start_point: Point<F, N>, end_point: Point<F, N>) -> Vec<Point<T, N>>;
#[verifier::external_body]
pub fn generic_plot_bresenham_line<F, T, const N: usize>(start_point: Point<F, N>, end_point: Point<F, N>) -> (r: Vec<Point<T, N>>)
    ensures r == s_plot_bresenham_line::<F, T, N>(start_point, end_point) { unimplemented!() }
pub uninterp spec fn s_is_single_point_in_polygon<T>(point: &Point2<T>, polygon: &[Point2<T>]) -> bool;
#[verifier::external_body]
pub fn generic_is_single_point_in_polygon<T>(point: &Point2<T>, polygon: &[Point2<T>]) -> (r: bool)
    ensures r == s_is_single_point_in_polygon::<T>(point, polygon) { unimplemented!() }
pub uninterp spec fn s_are_multiple_points_in_polygon<T>(points: &[Point2<T>], polygon: &[Point2<T>]) -> Option<Vec<bool>>;
#[verifier::external_body]
pub fn generic_are_multiple_points_in_polygon<T>(points: &[Point2<T>], polygon: &[Point2<T>]) -> (r: Option<Vec<bool>>)
    ensures r == s_are_multiple_points_in_polygon::<T>(points, polygon) { unimplemented!() }
pub uninterp spec fn s_calculate_haversine_distance<T>(point_a: Point2<T>, point_b: Point2<T>, sphere_radius: T) -> T;
#[verifier::external_body]
pub fn generic_calculate_haversine_distance<T>(point_a: Point2<T>, point_b: Point2<T>, sphere_radius: T) -> (r: T)
    ensures r == s_calculate_haversine_distance::<T>(point_a, point_b, sphere_radius) { unimplemented!() }
pub uninterp spec fn s_calculate_sphere_bearing<T>(point_a: Point2<T>, point_b: Point2<T>) -> T;
#[verifier::external_body]
pub fn generic_calculate_sphere_bearing<T>(point_a: Point2<T>, point_b: Point2<T>) -> (r: T)
    ensures r == s_calculate_sphere_bearing::<T>(point_a, point_b) { unimplemented!() }

