// ---- units/center.rs: sums and means of coordinates ----
/// sum of the i-th coordinate of the first k points
pub open spec fn csum<const N: usize>(a: Seq<Point<S, N>>, i: int, k: int) -> real decreases k { if k <= 0 { 0real } else { csum(a, i, k - 1) + a[k - 1].c(i).r() } }
pub open spec fn is_mean<const N: usize>(a: Seq<Point<S, N>>, p: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> !(#[trigger] p.c(i)).nan() && p.c(i).r() == csum(a, i, a.len() as int) / (a.len() as real) }
pub open spec fn is_sum<const N: usize>(a: Seq<Point<S, N>>, p: Point<S, N>, k: int) -> bool { forall|i: int| 0 <= i < N ==> !(#[trigger] p.c(i)).nan() && p.c(i).r() == csum(a, i, k) }
pub open spec fn is_origin<const N: usize>(p: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> !(#[trigger] p.c(i)).nan() && p.c(i).r() == 0real }
pub open spec fn clean<const N: usize>(a: Seq<Point<S, N>>) -> bool { forall|i: int| 0 <= i < a.len() ==> !pnan(#[trigger] a[i]) }
