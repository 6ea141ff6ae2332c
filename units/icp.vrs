//@include head.rs seq.rs scalar.rs exact.rs na.rs nalin.rs isom.rs mat.rs det.rs isomspec.rs dist.rs center.rs
//@type KDNode
//@type KDTree
//@type ICPConfiguration
//@type ICPError
//@type ICPSuccess
//@broadcast ax_scalar, ax_exact, ax_vec
//@include kdspec.rs icpspec.rs recovery.rs

//@fn distance_squared assume=kd
//@end
//@fn find_nearest_neighbour_naive assume=kd
//@end
impl<const N: usize> KDTree<S, N> {
//@fn KDTree::nearest assume=kd
//@end
//@fn KDTree::from assume=kd
//@end
}
//@fn calculate_point_cloud_center assume=cloud
//@end

//@fn calculate_mse props=C18,C25
@params transformed_points_a closest_points_in_b
@sig fn calculate_mse<const N: usize>(transformed_points_a: &[Point<S, N>], closest_points_in_b: &[Point<S, N>]) -> (r: S)
@spec
    requires transformed_points_a@.len() == closest_points_in_b@.len(), clean(transformed_points_a@), clean(closest_points_in_b@)
    ensures !r.nan(), r.r() == sse(transformed_points_a@, closest_points_in_b@, transformed_points_a@.len() as int)
@loop 0
    s_is(acc0, sse(transformed_points_a@, closest_points_in_b@, i0 as int)),
@loopstart 0
    assert(!pnan(transformed_points_a@[j0 as int])); assert(!pnan(closest_points_in_b@[j0 as int]));
//@end

//@fn outer_product props=C18,C25
@params point_a point_b
@sig fn outer_product<const N: usize>(point_a: &SMatrix<S, N, 1>, point_b: &SMatrix<S, N, 1>) -> (r: SMatrix<S, N, N>)
@subst Vector<T, Const<N>, ArrayStorage<T, N, 1>> => SMatrix<T, N, 1>
@spec
    ensures forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] r.data.0[i][j] == s_mul(point_a.v(i), point_b.v(j))
@loop 0
    rows(b0.v@, *point_a, *point_b, i0 as int),
@loop 1
    rowof(b1.v@, point_a.v(j0 as int), *point_b, i1 as int),
//@end
pub open spec fn rowof<const N: usize>(v: Seq<S>, x: S, b: SMatrix<S, N, 1>, k: int) -> bool { v.len() == k && forall|j: int| 0 <= j < k ==> #[trigger] v[j] == s_mul(x, b.v(j)) }
pub open spec fn rows<const N: usize>(v: Seq<[S; N]>, a: SMatrix<S, N, 1>, b: SMatrix<S, N, 1>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> rowof((#[trigger] v[i])@, a.v(i), b, N as int) }

//@fn get_rotation_matrix_and_centroids props=C18,C25
@params transformed_points_a closest_points
@sig fn get_rotation_matrix_and_centroids<const N: usize>(transformed_points_a: &[Point<S, N>], closest_points: &[Point<S, N>]) -> (r: (SMatrix<S, N, N>, Point<S, N>, Point<S, N>))
@spec
    requires transformed_points_a@.len() == closest_points@.len(), transformed_points_a@.len() > 0, clean(transformed_points_a@), clean(closest_points@)
    ensures mclean(r.0), !pnan(r.1), !pnan(r.2), is_mean(transformed_points_a@, r.1), is_mean(closest_points@, r.2), is_cov(transformed_points_a@, closest_points@, r.1, r.2, r.0, transformed_points_a@.len() as int)
@loop 0
    is_cov(transformed_points_a@, closest_points@, mean_transformed_a, mean_closest, acc0, i0 as int),
@loopstart 0
    assert(!pnan(transformed_points_a@[j0 as int])); assert(!pnan(closest_points@[j0 as int]));
//@end

//@fn icp_iteration props=C17,C18,C25
@params points_a transformed_points points_b target_points_tree current_transform current_mse config
@sig fn icp_iteration<const N: usize>(points_a: &[Point<S, N>], transformed_points: &mut [Point<S, N>], points_b: &[Point<S, N>], target_points_tree: Option<&KDTree<S, N>>, current_transform: &mut Isometry<S, R, N>, current_mse: &mut S, config: &ICPConfiguration<S>) -> (r: Result<S, ICPError<S, N>>)
@subst <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType => R
@spec
    requires N == 2 || N == 3, points_a@.len() > 0, points_b@.len() > 0, clean(points_a@), clean(points_b@), clean(old(transformed_points)@), old(transformed_points)@.len() == points_a@.len(),
        !old(current_mse).nan(), iso_clean(*old(current_transform)), points_b@.len() < usize::MAX,
        target_points_tree matches Some(t) ==> twf(*t) && holds_exactly(tcont(*t), points_b@) && tcont(*t).len() <= points_b@.len(),
    ensures
        clean(final(transformed_points)@), final(transformed_points)@.len() == points_a@.len(), !final(current_mse).nan(), iso_clean(*final(current_transform)),
        iter(points_a@, points_b@, *config, St { pts: old(transformed_points)@, iso: *old(current_transform), prev: *old(current_mse) },
            St { pts: final(transformed_points)@, iso: *final(current_transform), prev: *final(current_mse) }, r),
@start
    hide(dsq); hide(is_cov); hide(is_mean); hide(sse); hide(rigid_update);
    let ghost s0 = St { pts: transformed_points@, iso: *current_transform, prev: *current_mse };
@ret
    proof { lemma_iter(points_a@, points_b@, *config, s0, St { pts: transformed_points@, iso: *current_transform, prev: *current_mse }, closest_points@, rot_mat, mean_a, mean_b, new_mse, vx_ret); }
@end
    proof { lemma_iter(points_a@, points_b@, *config, s0, St { pts: transformed_points@, iso: *current_transform, prev: *current_mse }, closest_points@, rot_mat, mean_a, mean_b, new_mse, vx_ret); }
@loop 0
    pairs(points_b@, transformed_points@, acc0@, i0 as int),
@loopstart 0
    proof {
        assert(!pnan(transformed_points@[j0 as int]));
        if target_points_tree is Some {
            let t = tcont(*target_points_tree->0);
            assert(stored(t, points_b@[0]));
            assert forall|q: Point<S, N>| t.contains(q) && (forall|i: int| 0 <= i < t.len() ==> dsq(q, transformed_points@[j0 as int]) <= dsq(#[trigger] t[i], transformed_points@[j0 as int]))
                implies #[trigger] near(points_b@, transformed_points@[j0 as int], q) by { lemma_tree_near(t, points_b@, transformed_points@[j0 as int], q); }
        }
    }
@after 0
    proof { assert forall|i: int| 0 <= i < acc0@.len() implies !pnan(#[trigger] acc0@[i]) by { assert(near(points_b@, transformed_points@[i], acc0@[i])); } }
@loopstart 1
    assert(!pnan(points_a@[j1 as int]));
@after 1
    proof { assert forall|i: int| 0 <= i < transformed_points@.len() implies !pnan(#[trigger] transformed_points@[i]) by { assert(!pnan(points_a@[i])); assert(transformed_points@[i] == iso_apply(*current_transform, points_a@[i])); } }
@loop 1
    moved(points_a@, *current_transform, transformed_points@, i1 as int),
//@end

//@fn icp props=C16,C17,C25
@params points_a points_b config
@sig fn icp<const N: usize>(points_a: &[Point<S, N>], points_b: &[Point<S, N>], config: ICPConfiguration<S>) -> (r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>)
@subst ICPResult<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N> => Result<ICPSuccess<S, R, N>, ICPError<S, N>>
@spec
    requires N == 2 || N == 3, points_b@.len() + 1 < usize::MAX, refusal(points_a@, points_b@, config) is None ==> clean(points_a@) && clean(points_b@),
    ensures
        refusal(points_a@, points_b@, config) matches Some(e) ==> r == Result::<ICPSuccess<S, R, N>, ICPError<S, N>>::Err(e),
        refusal(points_a@, points_b@, config) is None ==> exists|tr: Seq<St<N>>| #[trigger] run(points_a@, points_b@, config, tr) && outcome(points_a@, points_b@, config, tr, r),
        refusal(points_a@, points_b@, config) is None ==> recovers(points_a@, points_b@, config, r),
@start
    hide(recovers);
    let ghost mut tr: Seq<St<N>> = seq![St { pts: points_a@, iso: iso_identity::<N>(), prev: s_max() }];
@ret
    proof { if refusal(points_a@, points_b@, config) is None { assert(won(points_a@, points_b@, config, tr, vx_ret)); lemma_recovered(points_a@, points_b@, config, tr, vx_ret); } }
@end
    proof { if refusal(points_a@, points_b@, config) is None { lemma_recovered(points_a@, points_b@, config, tr, vx_ret); } }
@loop 0
    tr.len() == i0 + 1, run(points_a@, points_b@, config, tr), refusal(points_a@, points_b@, config) is None,
    tr.last() == (St { pts: points_to_transform@, iso: current_transform, prev: current_mse }), !current_mse.nan(), iso_clean(current_transform), clean(points_to_transform@), points_to_transform@.len() == points_a@.len(),
@loopend 0
    proof {
        let t = St { pts: points_to_transform@, iso: current_transform, prev: current_mse };
        let tr0 = tr;
        tr = tr.push(t);
        assert(exists|r: Result<S, ICPError<S, N>>| #[trigger] iter(points_a@, points_b@, config, tr0.last(), t, r) && r is Err);
        let r = choose|r: Result<S, ICPError<S, N>>| #[trigger] iter(points_a@, points_b@, config, tr0.last(), t, r) && r is Err;
        assert(iter(points_a@, points_b@, config, tr0.last(), t, Err(r->Err_0)));
        assert(tr[tr0.len() - 1] == tr0.last() && tr[tr0.len() as int] == t);
        assert forall|k: int| 0 <= k < tr.len() - 1 implies #[trigger] fails(points_a@, points_b@, config, tr, k) by {
            if k < tr0.len() - 1 {
                assert(fails(points_a@, points_b@, config, tr0, k));
                let e = choose|e: ICPError<S, N>| #[trigger] iter(points_a@, points_b@, config, tr0[k], tr0[k + 1], Err(e));
                assert(iter(points_a@, points_b@, config, tr[k], tr[k + 1], Err(e)));
            }
        }
    }
//@end
/// the error that the arguments call for
pub open spec fn refusal<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>) -> Option<ICPError<S, N>> {
    if a.len() == 0 { Some(ICPError::SourcePointCloudEmpty) }
    else if b.len() == 0 { Some(ICPError::TargetPointCloudEmpty) }
    else if cfg.max_iterations == 0 { Some(ICPError::IterationNumIsZero) }
    else if s_le(cfg.mse_interval_threshold, s_eps()) { Some(ICPError::MSEIntervalThreshold) }
    else if cfg.mse_absolute_threshold matches Some(t) && (t.nan() || s_le(t, s_eps())) { Some(ICPError::MSEAbsoluteThreshold) }
    else { None }
}
pub open spec fn s_le(a: S, b: S) -> bool { !a.nan() && !b.nan() && a.r() <= b.r() }
/// states before each iteration: the source under the identity and MAX first, every iteration so far without convergence
pub open spec fn run<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>) -> bool {
    &&& tr.len() > 0 && tr[0] == (St { pts: a, iso: iso_identity::<N>(), prev: s_max() }) && is_identity(tr[0].iso)
    &&& forall|k: int| 0 <= k < tr.len() - 1 ==> #[trigger] fails(a, b, cfg, tr, k)
}
pub open spec fn fails<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, k: int) -> bool { exists|e: ICPError<S, N>| #[trigger] iter(a, b, cfg, tr[k], tr[k + 1], Err(e)) }
/// a success is the outcome of an iteration from the last state
pub open spec fn won<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>) -> bool {
    r matches Ok(s) ==> exists|t: St<N>, q: Result<S, ICPError<S, N>>| #[trigger] iter(a, b, cfg, tr.last(), t, q) && q == Result::<S, ICPError<S, N>>::Ok(s.mse) && t.iso == s.transform
}
pub open spec fn outcome<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, cfg: ICPConfiguration<S>, tr: Seq<St<N>>, r: Result<ICPSuccess<S, R, N>, ICPError<S, N>>) -> bool {
    match r {
        Ok(s) => tr.len() == s.iteration_num + 1 && s.iteration_num < cfg.max_iterations && won(a, b, cfg, tr, r),
        Err(e) => e == ICPError::<S, N>::AlrogithmDidNotConverge && tr.len() == cfg.max_iterations + 1,
    }
}
} // verus!
fn main() {}
