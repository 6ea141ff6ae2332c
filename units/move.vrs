//@include head.rs seq.rs scalar.rs na.rs nalin.rs isom.rs rng.rs
//@broadcast ax_scalar, ax_vec

//@fn transform_point_cloud props=C08
@params source_points isometry_matrix
@sig fn transform_point_cloud<const N: usize>(source_points: &[Point<S, N>], isometry_matrix: Isometry<S, R, N>) -> (r: Vec<Point<S, N>>)
@spec
    ensures moved(source_points@, isometry_matrix, r@, source_points@.len() as int)
@loop 0
    moved(source_points@, isometry_matrix, acc0@, i0 as int),
//@end
pub open spec fn moved<const N: usize>(a: Seq<Point<S, N>>, m: Isometry<S, R, N>, v: Seq<Point<S, N>>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == iso_apply(m, a[i]) }

//@const the_seed u64 seed_from_u64\s*\(\s*([0-9][0-9_a-fA-Fxu]*)\s*\)
/// state of the generator before the draw for coordinate d of point i
pub open spec fn draw<const N: usize>(x: Seq<RangeInclusive<S>>, i: int, d: int) -> RngState decreases i, d
{
    if d > 0 { rng_next(draw::<N>(x, i, d - 1), x[d - 1]) } else if i > 0 { draw::<N>(x, i - 1, N as int) } else { rng_seed(the_seed()) }
}
/// the cloud is a function of the arguments, in range
pub open spec fn drawn<const N: usize>(x: Seq<RangeInclusive<S>>, v: Seq<Point<S, N>>, k: int) -> bool {
    v.len() == k && forall|i: int, d: int| #![trigger v[i].c(d)] 0 <= i < k && 0 <= d < N ==> v[i].c(d) == rng_val(draw::<N>(x, i, d), x[d]) && !v[i].c(d).nan() && x[d].lo.r() <= v[i].c(d).r() <= x[d].hi.r()
}
pub open spec fn row<const N: usize>(x: Seq<RangeInclusive<S>>, v: Seq<S>, i: int, k: int) -> bool {
    v.len() == k && forall|d: int| 0 <= d < k ==> #[trigger] v[d] == rng_val(draw::<N>(x, i, d), x[d]) && !v[d].nan() && x[d].lo.r() <= v[d].r() <= x[d].hi.r()
}
/// two calls with the same arguments agree
pub proof fn lemma_same_cloud<const N: usize>(x: Seq<RangeInclusive<S>>, v1: Seq<Point<S, N>>, v2: Seq<Point<S, N>>, k: int)
    requires drawn(x, v1, k), drawn(x, v2, k)
    ensures v1.len() == v2.len(), forall|i: int, d: int| #![trigger v1[i].c(d)] 0 <= i < k && 0 <= d < N ==> v1[i].c(d) == v2[i].c(d)
{}
//@fn generate_point_cloud props=C09
@params num_points ranges
@sig fn generate_point_cloud<const N: usize>(num_points: usize, ranges: [RangeInclusive<S>; N]) -> (r: Vec<Point<S, N>>)
@spec
    requires forall|d: int| 0 <= d < N ==> !(#[trigger] ranges[d]).lo.nan() && !ranges[d].hi.nan() && ranges[d].lo.r() <= ranges[d].hi.r()
    ensures drawn(ranges@, r@, num_points as int)
@loop 0
    drawn(ranges@, acc0@, i0 as int), rng.st() == draw::<N>(ranges@, i0 as int, 0),
@loop 1
    row::<N>(ranges@, b1.v@, j0 as int, i1 as int), rng.st() == draw::<N>(ranges@, j0 as int, i1 as int),
//@end
} // verus!
fn main() {}
