//@include head.rs seq.rs scalar.rs na.rs nalin.rs isom.rs
//@type KDNode
//@type KDTree
//@type ICPConfiguration
//@type ICPError
//@broadcast ax_scalar

/// what the functions called make of their arguments: some function of them, for any arithmetic (no global state, no randomness)
pub uninterp spec fn near_tree<const N: usize>(t: KDTree<S, N>, p: Point<S, N>) -> Option<Point<S, N>>;
pub uninterp spec fn near_scan<const N: usize>(p: Point<S, N>, b: Seq<Point<S, N>>) -> Option<Point<S, N>>;
pub uninterp spec fn cov_of<const N: usize>(pts: Seq<Point<S, N>>, prs: Seq<Point<S, N>>) -> (SMatrix<S, N, N>, Point<S, N>, Point<S, N>);
pub uninterp spec fn upd<const N: usize>(m: Isometry<S, Rot, N>, ma: Point<S, N>, mb: Point<S, N>, c: SMatrix<S, N, N>) -> Isometry<S, Rot, N>;
pub uninterp spec fn sse_of<const N: usize>(pts: Seq<Point<S, N>>, prs: Seq<Point<S, N>>) -> S;
pub struct IsometryAbstractor<T, const N: usize> { pub t: T }
impl<const N: usize> IsometryAbstractor<S, N> {
    #[verifier::external_body]
    pub fn update_transform(m: &Isometry<S, Rot, N>, ma: Point<S, N>, mb: Point<S, N>, c: &SMatrix<S, N, N>) -> (r: Isometry<S, Rot, N>)
        ensures r == upd(*m, ma, mb, *c)
    { unimplemented!() }
}
impl<const N: usize> KDTree<S, N> {
//@fn KDTree::nearest assume=here
@params self target
@sig fn nearest(&self, target: &Point<S, N>) -> (r: Option<Point<S, N>>)
@spec
    ensures r == near_tree(*self, *target)
//@end
}
//@fn find_nearest_neighbour_naive assume=here
@params point all_points
@sig fn find_nearest_neighbour_naive<const N: usize>(point: &Point<S, N>, all_points: &[Point<S, N>]) -> (r: Option<Point<S, N>>)
@spec
    ensures r == near_scan(*point, all_points@)
//@end
//@fn get_rotation_matrix_and_centroids assume=here
@params transformed_points_a closest_points
@sig fn get_rotation_matrix_and_centroids<const N: usize>(transformed_points_a: &[Point<S, N>], closest_points: &[Point<S, N>]) -> (r: (SMatrix<S, N, N>, Point<S, N>, Point<S, N>))
@spec
    requires transformed_points_a@.len() == closest_points@.len()
    ensures r == cov_of(transformed_points_a@, closest_points@)
//@end
//@fn calculate_mse assume=here
@params transformed_points_a closest_points_in_b
@sig fn calculate_mse<const N: usize>(transformed_points_a: &[Point<S, N>], closest_points_in_b: &[Point<S, N>]) -> (r: S)
@spec
    requires transformed_points_a@.len() == closest_points_in_b@.len()
    ensures r == sse_of(transformed_points_a@, closest_points_in_b@)
//@end

/// the state an iteration works on: points under the current transform, transform, previous error
pub struct St<const N: usize> { pub pts: Seq<Point<S, N>>, pub iso: Isometry<S, Rot, N>, pub prev: S }
pub open spec fn s_lt(a: S, b: S) -> bool { !a.nan() && !b.nan() && a.r() < b.r() }
/// the tree's answer when there is a tree and it has one, a scan of the target otherwise
pub open spec fn pair_of<const N: usize>(t: Option<KDTree<S, N>>, b: Seq<Point<S, N>>, p: Point<S, N>) -> Option<Point<S, N>> {
    match t { Some(t) => if near_tree(t, p) is Some { near_tree(t, p) } else { near_scan(p, b) }, None => near_scan(p, b) }
}
pub open spec fn paired<const N: usize>(t: Option<KDTree<S, N>>, b: Seq<Point<S, N>>, pts: Seq<Point<S, N>>, prs: Seq<Point<S, N>>, n: int) -> bool {
    prs.len() == n && forall|i: int| 0 <= i < n ==> pair_of(t, b, pts[i]) == Some(#[trigger] prs[i])
}
pub open spec fn moved<const N: usize>(a: Seq<Point<S, N>>, m: Isometry<S, Rot, N>, pts: Seq<Point<S, N>>, n: int) -> bool {
    pts.len() == a.len() && forall|i: int| 0 <= i < n ==> #[trigger] pts[i] == iso_apply(m, a[i])
}
pub open spec fn converged(cfg: ICPConfiguration<S>, prev: S, e: S) -> bool {
    (cfg.mse_absolute_threshold matches Some(t) && s_lt(e, t)) || s_lt(s_abs(s_sub(prev, e)), cfg.mse_interval_threshold)
}
/// one iteration on the given pairs
pub open spec fn step<const N: usize>(a: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, s: St<N>, t: St<N>, r: Result<S, ICPError<S, N>>, prs: Seq<Point<S, N>>) -> bool {
    let (c, ma, mb) = cov_of(s.pts, prs);
    let e = sse_of(t.pts, prs);
    &&& t.iso == upd(s.iso, ma, mb, c)
    &&& moved(a, t.iso, t.pts, a.len() as int)
    &&& if converged(cfg, s.prev, e) { r == Result::<S, ICPError<S, N>>::Ok(e) } else { t.prev == e && r == Result::<S, ICPError<S, N>>::Err(ICPError::IterationDidNotConverge((ma, mb))) }
}
pub open spec fn iteration<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, tree: Option<KDTree<S, N>>, cfg: ICPConfiguration<S>, s: St<N>, t: St<N>, r: Result<S, ICPError<S, N>>) -> bool {
    ||| exists|prs: Seq<Point<S, N>>| #[trigger] paired(tree, b, s.pts, prs, s.pts.len() as int) && step(a, cfg, s, t, r, prs)
    // a point without any nearest target
    ||| (exists|i: int| 0 <= i < s.pts.len() && #[trigger] pair_of(tree, b, s.pts[i]) is None) && r == Result::<S, ICPError<S, N>>::Err(ICPError::NoNearestNeighbour) && s == t
}

//@fn icp_iteration props=C17,C18
@params points_a transformed_points points_b target_points_tree current_transform current_mse config
@sig fn icp_iteration<const N: usize>(points_a: &[Point<S, N>], transformed_points: &mut [Point<S, N>], points_b: &[Point<S, N>], target_points_tree: Option<&KDTree<S, N>>, current_transform: &mut Isometry<S, R, N>, current_mse: &mut S, config: &ICPConfiguration<S>) -> (r: Result<S, ICPError<S, N>>)
@subst <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType => R
@spec
    requires old(transformed_points)@.len() == points_a@.len()
    ensures final(transformed_points)@.len() == points_a@.len(),
        iteration(points_a@, points_b@, match target_points_tree { Some(t) => Some(*t), None => None }, *config, St { pts: old(transformed_points)@, iso: *old(current_transform), prev: *old(current_mse) },
            St { pts: final(transformed_points)@, iso: *final(current_transform), prev: *final(current_mse) }, r),
@start
    let ghost tree: Option<KDTree<S, N>> = match target_points_tree { Some(t) => Some(*t), None => None };
    let ghost s0 = St { pts: transformed_points@, iso: *current_transform, prev: *current_mse };
@ret
    proof {
        let s1 = St { pts: transformed_points@, iso: *current_transform, prev: *current_mse };
        assert(paired(tree, points_b@, s0.pts, closest_points@, s0.pts.len() as int));
        assert(step(points_a@, *config, s0, s1, vx_ret, closest_points@));
    }
@end
    proof {
        let s1 = St { pts: transformed_points@, iso: *current_transform, prev: *current_mse };
        assert(paired(tree, points_b@, s0.pts, closest_points@, s0.pts.len() as int));
        assert(step(points_a@, *config, s0, s1, vx_ret, closest_points@));
    }
@loop 0
    paired(tree, points_b@, transformed_points@, acc0@, i0 as int),
@loopstart 0
    assert(pair_of(tree, points_b@, transformed_points@[j0 as int]) == pair_of(tree, points_b@, transformed_points@[j0 as int]));
@loop 1
    moved(points_a@, *current_transform, transformed_points@, i1 as int),
//@end
} // verus!
fn main() {}
