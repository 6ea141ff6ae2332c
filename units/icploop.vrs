//@include head.rs seq.rs scalar.rs na.rs nalin.rs isom.rs
//@type KDNode
//@type KDTree
//@type ICPConfiguration
//@type ICPError
//@type ICPSuccess
//@broadcast ax_scalar

/// the state between two iterations: points under the current transform, transform, previous error
pub struct St<const N: usize> { pub pts: Seq<Point<S, N>>, pub iso: Isometry<S, Rot, N>, pub prev: S }
/// what an iteration makes of a state and reports: some function of its arguments (no global state, no randomness)
pub uninterp spec fn go<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, tree: Option<KDTree<S, N>>, cfg: ICPConfiguration<S>, s: St<N>) -> (St<N>, Result<S, ICPError<S, N>>);
pub uninterp spec fn tree_of<const N: usize>(b: Seq<Point<S, N>>) -> KDTree<S, N>;
pub uninterp spec fn iso_identity<const N: usize>() -> Isometry<S, Rot, N>;
impl<const N: usize> Isometry<S, Rot, N> {
    #[verifier::external_body]
    pub fn identity() -> (r: Self) ensures r == iso_identity::<N>() { unimplemented!() }
}
impl<const N: usize> KDTree<S, N> {
//@fn KDTree::from assume=here
@params point_cloud
@sig fn from(point_cloud: &[Point<S, N>]) -> (r: KDTree<S, N>)
@spec
    ensures r == tree_of(point_cloud@)
//@end
}
//@fn icp_iteration assume=here
@params points_a transformed_points points_b target_points_tree current_transform current_mse config
@sig fn icp_iteration<const N: usize>(points_a: &[Point<S, N>], transformed_points: &mut [Point<S, N>], points_b: &[Point<S, N>], target_points_tree: Option<&KDTree<S, N>>, current_transform: &mut Isometry<S, R, N>, current_mse: &mut S, config: &ICPConfiguration<S>) -> (r: Result<S, ICPError<S, N>>)
@subst <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType => R
@spec
    requires old(transformed_points)@.len() == points_a@.len()
    ensures final(transformed_points)@.len() == points_a@.len(),
        (St { pts: final(transformed_points)@, iso: *final(current_transform), prev: *final(current_mse) }, r) == go(points_a@, points_b@, match target_points_tree { Some(t) => Some(*t), None => None }, *config, St { pts: old(transformed_points)@, iso: *old(current_transform), prev: *old(current_mse) })
//@end

//@fn icp props=C16,C17
@params points_a points_b config
@sig fn icp<const N: usize>(points_a: &[Point<S, N>], points_b: &[Point<S, N>], config: ICPConfiguration<S>) -> (r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>)
@subst ICPResult<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N> => Result<ICPSuccess<S, R, N>, ICPError<S, N>>
@spec
    ensures
        refusal(points_a@, points_b@, config) matches Some(e) ==> r == Result::<ICPSuccess<S, R, N>, ICPError<S, N>>::Err(e),
        refusal(points_a@, points_b@, config) is None ==> exists|tr: Seq<St<N>>| #[trigger] run(points_a@, points_b@, config, tr) && outcome(points_a@, points_b@, config, tr, r),
@start
    let ghost mut tr: Seq<St<N>> = seq![St { pts: points_a@, iso: iso_identity::<N>(), prev: s_max() }];
@ret
    proof { if refusal(points_a@, points_b@, config) is None { assert(outcome(points_a@, points_b@, config, tr, vx_ret)); } }
@end
    proof { if refusal(points_a@, points_b@, config) is None { assert(outcome(points_a@, points_b@, config, tr, vx_ret)); } }
@loop 0
    tr.len() == i0 + 1, run(points_a@, points_b@, config, tr), refusal(points_a@, points_b@, config) is None,
    tr.last() == (St { pts: points_to_transform@, iso: current_transform, prev: current_mse }), points_to_transform@.len() == points_a@.len(),
@loopend 0
    proof {
        let t = St { pts: points_to_transform@, iso: current_transform, prev: current_mse };
        let tr0 = tr;
        assert(go(points_a@, points_b@, tree_for(points_b@, config), config, tr0.last()).0 == t);
        tr = tr.push(t);
        assert forall|k: int| 0 <= k < tr.len() - 1 implies #[trigger] fails(points_a@, points_b@, config, tr, k) by {
            if k < tr0.len() - 1 { assert(fails(points_a@, points_b@, config, tr0, k)); }
        }
    }
//@end
/// the error that the arguments call for
pub open spec fn refusal<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>) -> Option<ICPError<S, N>> {
    if a.len() == 0 { Some(ICPError::SourcePointCloudEmpty) }
    else if b.len() == 0 { Some(ICPError::TargetPointCloudEmpty) }
    else if cfg.max_iterations == 0 { Some(ICPError::IterationNumIsZero) }
    else if s_le(cfg.mse_interval_threshold, s_eps()) { Some(ICPError::MSEIntervalThreshold) }
    else if cfg.mse_absolute_threshold matches Some(t) && (t.nan() || s_le(t, s_eps())) { Some(ICPError::MSEAbsoluteThreshold) }
    else { None }
}
pub open spec fn s_le(a: S, b: S) -> bool { !a.nan() && !b.nan() && a.r() <= b.r() }
pub open spec fn tree_for<const N: usize>(b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>) -> Option<KDTree<S, N>> { if cfg.use_kd_tree { Some(tree_of(b)) } else { None } }
/// states before each iteration: the source under the identity and MAX first, every iteration so far without convergence
pub open spec fn run<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>) -> bool {
    &&& tr.len() > 0 && tr[0] == (St { pts: a, iso: iso_identity::<N>(), prev: s_max() })
    &&& forall|k: int| 0 <= k < tr.len() - 1 ==> #[trigger] fails(a, b, cfg, tr, k)
}
pub open spec fn fails<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, k: int) -> bool {
    go(a, b, tree_for(b, cfg), cfg, tr[k]).1 is Err && go(a, b, tree_for(b, cfg), cfg, tr[k]).0 == tr[k + 1]
}
pub open spec fn outcome<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>) -> bool {
    match r {
        // a success is the outcome of the iteration from the last state
        Ok(s) => tr.len() == s.iteration_num + 1 && s.iteration_num < cfg.max_iterations && go(a, b, tree_for(b, cfg), cfg, tr.last()).1 == Result::<S, ICPError<S, N>>::Ok(s.mse) && go(a, b, tree_for(b, cfg), cfg, tr.last()).0.iso == s.transform,
        Err(e) => e == ICPError::<S, N>::AlrogithmDidNotConverge && tr.len() == cfg.max_iterations + 1,
    }
}
} // verus!
fn main() {}
