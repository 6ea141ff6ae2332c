//@include head.rs seq.rs scalar.rs exact.rs na.rs nalin.rs isom.rs mat.rs det.rs isomspec.rs
//@broadcast ax_scalar, ax_exact, ax_zero, ax_one, ax_vec, ax_m_mul, ax_iso_mul

//@fn verify_rotation_matrix_determinant props=C17,C18,C19,C25
@params u v_t
@sig fn verify_rotation_matrix_determinant<const N: usize>(u: SMatrix<S, N, N>, v_t: SMatrix<S, N, N>) -> (r: SMatrix<S, N, N>)
@spec
    requires N == 2 || N == 3, mclean(u), mclean(v_t)
    ensures mclean(r), rm(r) == repaired(N as int, rm(u), rm(v_t))
@start
    let ghost u0 = u;
@loop 0
    t0 == N - 1, mclean(u), upto(u0, u, i0 as int),
@after 0
    proof { assert(rm(u) =~= flip(N as int, rm(u0))); }
//@end
pub open spec fn upto<const N: usize>(u0: SMatrix<S, N, N>, u: SMatrix<S, N, N>, k: int) -> bool {
    forall|a: int, b: int| 0 <= a < N && 0 <= b < N ==> (#[trigger] u.data.0[b][a]).r() == (if b == N - 1 && a < k { -u0.data.0[b][a].r() } else { u0.data.0[b][a].r() })
}

//@fn update_transform_2 props=C17,C18,C19,C25 ty=IsometryAbstractor name=update_transform impl=IsometryAbstractor<T,2>
@params old_transform mean_a mean_b rot_mat
@subst Self::RotType => Rot
@subst fn update_transform( => fn update_transform_2(
@sig fn update_transform_2(old_transform: &Isometry<S, Rot, 2>, mean_a: Point<S, 2>, mean_b: Point<S, 2>, rot_mat: &SMatrix<S, 2, 2>) -> (r: Isometry<S, Rot, 2>)
@spec
    requires mclean(*rot_mat), !pnan(mean_a), !pnan(mean_b), iso_clean(*old_transform)
    ensures rigid_update(*old_transform, mean_a, mean_b, *rot_mat, r), iso_clean(r)
@start
    proof { lemma_update::<2>(*old_transform, mean_a, mean_b); assert forall|x: Isometry<S, Rot, 2>| rigid_update(*old_transform, mean_a, mean_b, *rot_mat, x) implies #[trigger] iso_clean(x) by { lemma_update_clean(*old_transform, mean_a, mean_b, *rot_mat, x); } }
//@end

//@fn update_transform_3 props=C17,C18,C19,C25 ty=IsometryAbstractor name=update_transform impl=IsometryAbstractor<T,3>
@params old_transform mean_a mean_b rot_mat
@subst Self::RotType => Rot
@subst fn update_transform( => fn update_transform_3(
@sig fn update_transform_3(old_transform: &Isometry<S, Rot, 3>, mean_a: Point<S, 3>, mean_b: Point<S, 3>, rot_mat: &SMatrix<S, 3, 3>) -> (r: Isometry<S, Rot, 3>)
@spec
    requires mclean(*rot_mat), !pnan(mean_a), !pnan(mean_b), iso_clean(*old_transform)
    ensures rigid_update(*old_transform, mean_a, mean_b, *rot_mat, r), iso_clean(r)
@start
    proof { lemma_update::<3>(*old_transform, mean_a, mean_b); assert forall|x: Isometry<S, Rot, 3>| rigid_update(*old_transform, mean_a, mean_b, *rot_mat, x) implies #[trigger] iso_clean(x) by { lemma_update_clean(*old_transform, mean_a, mean_b, *rot_mat, x); } }
//@end
} // verus!
fn main() {}
