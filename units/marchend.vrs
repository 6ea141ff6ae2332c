//@include head.rs seq.rs scalar.rs na.rs sort.rs center.rs lexord.rs voxspec.rs
//@broadcast ax_scalar, ax_zero
// the march ends whatever the rounding of the orientation is: its contract says nothing about the determinant here

// the voxel means are numbers, one per occupied voxel (the exact contract is discharged in unit cloud)
/// the cloud a downsampling gives
pub uninterp spec fn thinned(a: Seq<Point<S, 2>>, w: S, d: Seq<Point<S, 2>>) -> bool;
//@fn downsample_point_cloud_voxel assume=here
@sig fn downsample_point_cloud_voxel(points: &[Point<S, 2>], voxel_size: S) -> (r: Vec<Point<S, 2>>)
@spec
    requires clean(points@), !voxel_size.nan(), voxel_size.r() > 0real, forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], voxel_size)
    ensures clean(r@), 1 <= r@.len() <= points@.len() || points@.len() == 0, thinned(points@, voxel_size, r@)
//@end
//@fn calculate_determinant props=C15
@params point_a point_b point_c
@sig fn calculate_determinant(point_a: &Point<S, 2>, point_b: &Point<S, 2>, point_c: &Point<S, 2>) -> (r: S)
@spec
    requires !pnan(*point_a), !pnan(*point_b), !pnan(*point_c)
    ensures !r.nan()
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan() && !point_c.c(0).nan() && !point_c.c(1).nan());
//@end
/// the cloud that the hull is taken of
pub open spec fn taken(a: Seq<Point<S, 2>>, w: Option<S>, d: Seq<Point<S, 2>>) -> bool { match w { None => d == a, Some(w) => thinned(a, w, d) } }
pub open spec fn least(d: Seq<Point<S, 2>>, v: Point<S, 2>, k: int) -> bool { d.contains(v) && !pnan(v) && forall|j: int| 0 <= j < k ==> lex(v, #[trigger] d[j]) != Ordering::Greater }
pub open spec fn minimum(d: Seq<Point<S, 2>>, v: Option<&Point<S, 2>>, k: int) -> bool { if k <= 0 { v is None } else { v matches Some(p) && least(d, *p, k) } }
pub proof fn lemma_minimum(d: Seq<Point<S, 2>>, b: Option<&Point<S, 2>>, k: int, a: Option<&Point<S, 2>>)
    requires minimum(d, b, k), 0 <= k < d.len(), clean(d), b is None ==> a == Some(&d[k]), b matches Some(p) ==> (if lex(*p, d[k]) == Ordering::Greater { a == Some(&d[k]) } else { a == b })
    ensures minimum(d, a, k + 1)
{
    assert(d.contains(d[k]));
    let v = *a->0;
    assert forall|j: int| 0 <= j < k + 1 implies lex(v, #[trigger] d[j]) != Ordering::Greater by {
        lemma_lexk(v, d[j], d[j], 2);
        if b is Some { lemma_lexk(*b->0, d[k], d[j], 2); lemma_lexk(d[k], *b->0, d[j], 2); }
    }
}
/// distinct or not: at least three of the points, beginning with a smallest
pub open spec fn picked(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>) -> bool { h.len() >= 3 && least(d, h[0], d.len() as int) && forall|i: int| 0 <= i < h.len() ==> d.contains(#[trigger] h[i]) }
/// the hull so far
pub open spec fn some_of(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>) -> bool {
    d.contains(v) && !pnan(v) && least(d, if h.len() > 0 { h[0] } else { v }, d.len() as int) && forall|i: int| 0 <= i < h.len() ==> d.contains(#[trigger] h[i])
}
//@fn jarvis_march props=C15
@params points voxel_size
@attrs
#[verifier::allow_complex_invariants]
@sig fn jarvis_march(points: &[Point<S, 2>], voxel_size: Option<S>) -> (r: Option<Vec<Point<S, 2>>>)
@spec
    requires clean(points@), 2 * points@.len() <= usize::MAX,
        voxel_size matches Some(w) ==> !w.nan() && w.r() > 0real && forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], w),
    ensures points@.len() < 3 ==> r is None, r matches Some(h) ==> exists|d: Seq<Point<S, 2>>| #[trigger] taken(points@, voxel_size, d) && picked(d, h@),
@start
    hide(fits); hide(least);
@loop 0
    clean(points_downsampled_slice@), 1 <= points_downsampled_slice@.len() <= points@.len(), taken(points@, voxel_size, points_downsampled_slice@),
    minimum(points_downsampled_slice@, acc0, i0 as int),
@loopstart 0
    let ghost b0 = acc0;
    proof { if acc0 is Some { reveal(least); } }
@loopend 0
    proof { lemma_minimum(points_downsampled_slice@, b0, j0 as int, acc0); }
@loop 1
    acc1 == lexk(*vxb, *vxx, i1 as int), !pnan(*vxb), !pnan(*vxx),
@loopstart 1
    assert(!vxb.c(j1 as int).nan() && !vxx.c(j1 as int).nan());
@after 0
    proof { reveal(least); }
@loop 2
    invariant_except_break some_of(points_downsampled_slice@, hull@, *current_vertex), clean(hull@), hull@.len() < points_downsampled_slice@.len()
    ensures some_of(points_downsampled_slice@, hull@, hull@[0]), hull@.len() > 0
    decreases points_downsampled_slice@.len() - hull@.len()
@loopstart 2
    proof { reveal(least); }
@loop 3
    points_downsampled_slice@.contains(*endpoint), !pnan(*endpoint),
@end
    proof { if vx_ret is Some { assert(taken(points@, voxel_size, points_downsampled_slice@) && picked(points_downsampled_slice@, vx_ret->0@)); } }
//@end
} // verus!
fn main() {}
