//@include head.rs seq.rs scalar.rs na.rs sort.rs center.rs lexord.rs voxspec.rs
//@broadcast ax_scalar, ax_zero
// what holds whatever the rounding of the orientation is: its contract says nothing about the determinant here

//@fn lex_sort assume=lex
//@end
/// the cloud a downsampling gives
pub uninterp spec fn thinned(a: Seq<Point<S, 2>>, w: S, d: Seq<Point<S, 2>>) -> bool;
// the voxel means are numbers, one per occupied voxel (the exact contract is discharged in unit cloud)
//@fn downsample_point_cloud_voxel assume=here
@sig fn downsample_point_cloud_voxel(points: &[Point<S, 2>], voxel_size: S) -> (r: Vec<Point<S, 2>>)
@spec
    requires clean(points@), !voxel_size.nan(), voxel_size.r() > 0real, forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], voxel_size)
    ensures clean(r@), 1 <= r@.len() <= points@.len() || points@.len() == 0, thinned(points@, voxel_size, r@)
//@end
//@fn calculate_determinant props=C14
@params point_a point_b point_c
@sig fn calculate_determinant(point_a: &Point<S, 2>, point_b: &Point<S, 2>, point_c: &Point<S, 2>) -> (r: S)
@spec
    requires !pnan(*point_a), !pnan(*point_b), !pnan(*point_c)
    ensures !r.nan()
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan() && !point_c.c(0).nan() && !point_c.c(1).nan());
//@end
pub open spec fn rclean<'a>(c: Seq<&'a Point<S, 2>>) -> bool { forall|i: int| 0 <= i < c.len() ==> !pnan(*#[trigger] c[i]) }
pub open spec fn refs_in<'a>(c: Seq<&'a Point<S, 2>>, l: Seq<Point<S, 2>>) -> bool { forall|i: int| 0 <= i < c.len() ==> l.contains(*#[trigger] c[i]) }
pub open spec fn lex_sorted(a: Seq<Point<S, 2>>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] lex(a[i], a[j]) != Ordering::Greater }
/// r is c, shortened from the end but not below one, and p
pub open spec fn grown<'a>(c: Seq<&'a Point<S, 2>>, p: &'a Point<S, 2>, r: Seq<&'a Point<S, 2>>) -> bool { exists|n: int| 0 <= n <= c.len() && (c.len() > 0 ==> n > 0) && r == #[trigger] c.take(n).push(p) }
//@fn build_hull_segment props=C14
@params accumulator current_point
@sig fn build_hull_segment<'a>(accumulator: VecDeque<&'a Point<S, 2>>, current_point: &'a Point<S, 2>) -> (r: VecDeque<&'a Point<S, 2>>)
@spec
    requires rclean(accumulator@), !pnan(*current_point)
    ensures grown(accumulator@, current_point, r@)
@start
    let ghost c = accumulator@;
    assert(accumulator@ =~= c.take(c.len() as int));
@loop 0
    accumulator@.len() <= c.len(), accumulator@ == c.take(accumulator@.len() as int), c.len() > 0 ==> accumulator@.len() > 0,
    decreases accumulator@.len()
@loopend 0
    assert(accumulator@ =~= c.take(accumulator@.len() as int));
//@end
/// l is the sorted cloud that the hull is taken of
pub open spec fn prepared(a: Seq<Point<S, 2>>, w: Option<S>, l: Seq<Point<S, 2>>) -> bool {
    1 <= l.len() <= a.len() && clean(l) && lex_sorted(l) && match w { None => same(a, l), Some(w) => exists|d: Seq<Point<S, 2>>| #[trigger] thinned(a, w, d) && same(d, l) }
}
/// the same points
pub open spec fn same(a: Seq<Point<S, 2>>, b: Seq<Point<S, 2>>) -> bool { a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) && forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]) }
pub proof fn lemma_from(d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>) requires lex_sorted_from(d, l), clean(d) ensures clean(l), l.len() == d.len(), lex_sorted(l), same(d, l)
{
    let c = vx_key::<Point<S, 2>>();
    let pi = choose|pi: Seq<int>| #[trigger] stable_by(d, l, pi, c);
    assert forall|i: int| 0 <= i < l.len() implies !pnan(#[trigger] l[i]) && d.contains(l[i]) by { assert(l[i] == d[pi[i]]); }
    assert forall|i: int| 0 <= i < d.len() implies l.contains(#[trigger] d[i]) by { assert(is_val(i)); let k = choose|k: int| 0 <= k < d.len() && pi[k] == i; assert(l[k] == d[i]); }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] lex(l[i], l[j]) != Ordering::Greater by { assert(c(l[i], l[j]) != Ordering::Greater); }
}
pub proof fn lemma_sources(a: Seq<Point<S, 2>>, w: Option<S>) requires clean(a), a.len() >= 1
    ensures
        forall|l: Seq<Point<S, 2>>| #[trigger] prepared(a, w, l) ==> clean(l) && 1 <= l.len() <= a.len(),
        w is None && lex_sorted(a) ==> prepared(a, w, a),
        w is None ==> forall|l: Seq<Point<S, 2>>| #[trigger] lex_sorted_from(a, l) ==> prepared(a, w, l),
        w is Some ==> forall|d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>| #[trigger] thinned(a, w->0, d) && clean(d) && 1 <= d.len() <= a.len() && #[trigger] lex_sorted_from(d, l) ==> prepared(a, w, l),
{
    if w is None && lex_sorted(a) { assert forall|i: int| 0 <= i < a.len() implies a.contains(#[trigger] a[i]) by {} }
    assert forall|d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>| clean(d) && #[trigger] lex_sorted_from(d, l) implies clean(l) && l.len() == d.len() && lex_sorted(l) && same(d, l) by { lemma_from(d, l); }
}
/// at least three of the sorted points, beginning with the first
pub open spec fn ring(a: Seq<Point<S, 2>>, w: Option<S>, h: Seq<Point<S, 2>>) -> bool { exists|l: Seq<Point<S, 2>>| #[trigger] prepared(a, w, l) && picked(l, h) }
pub open spec fn picked(l: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>) -> bool { h.len() >= 3 && h[0] == l[0] && forall|i: int| 0 <= i < h.len() ==> l.contains(#[trigger] h[i]) }
/// a chain over the first k points of m
pub open spec fn links<'a>(m: Seq<Point<S, 2>>, k: int, c: Seq<&'a Point<S, 2>>) -> bool { c.len() <= k && (k > 0 ==> c.len() > 0 && *c[0] == m[0]) && (k > 1 ==> c.len() > 1) && refs_in(c, m) }
pub proof fn lemma_links<'a>(m: Seq<Point<S, 2>>, k: int, c: Seq<&'a Point<S, 2>>, p: &'a Point<S, 2>, r: Seq<&'a Point<S, 2>>)
    requires 0 <= k < m.len(), links(m, k, c), *p == m[k], grown(c, p, r)
    ensures links(m, k + 1, r)
{
    let n = choose|n: int| 0 <= n <= c.len() && (c.len() > 0 ==> n > 0) && r == #[trigger] c.take(n).push(p);
    assert(m.contains(m[k]));
    assert forall|i: int| 0 <= i < r.len() implies m.contains(*#[trigger] r[i]) by { if i < n { assert(r[i] == c[i]); } }
    if k > 0 { assert(r[0] == c[0]); }
}
pub open spec fn joined<'a>(u: Seq<&'a Point<S, 2>>, w: Seq<&'a Point<S, 2>>, k: int) -> Seq<Point<S, 2>> { Seq::new(k as nat, |j: int| if j < u.len() - 1 { *u[j] } else { *w[j - (u.len() - 1)] }) }
pub proof fn lemma_joined<'a>(l: Seq<Point<S, 2>>, u: Seq<&'a Point<S, 2>>, w: Seq<&'a Point<S, 2>>)
    requires l.len() >= 1, links(l, l.len() as int, u), links(l.reverse(), l.len() as int, w), u.len() + w.len() - 2 > 2
    ensures picked(l, joined(u, w, u.len() + w.len() - 2))
{
    let h = joined(u, w, u.len() + w.len() - 2); let v = l.reverse();
    assert(u.len() > 1);
    assert forall|i: int| 0 <= i < h.len() implies l.contains(#[trigger] h[i]) by {
        if i < u.len() - 1 { assert(l.contains(*u[i])); }
        else { let x = *w[i - (u.len() - 1)]; assert(v.contains(x)); let j = choose|j: int| 0 <= j < v.len() && v[j] == x; assert(l[l.len() - 1 - j] == x); }
    }
}
pub proof fn lemma_rclean<'a>(m: Seq<Point<S, 2>>, c: Seq<&'a Point<S, 2>>) requires clean(m), refs_in(c, m) ensures rclean(c) {
    assert forall|i: int| 0 <= i < c.len() implies !pnan(*#[trigger] c[i]) by { let j = choose|j: int| 0 <= j < m.len() && m[j] == *c[i]; assert(!pnan(m[j])); }
}
//@fn graham_scan props=C14
@params points assume_sorted voxel_size
@sig fn graham_scan(points: &[Point<S, 2>], assume_sorted: bool, voxel_size: Option<S>) -> (r: Option<Vec<Point<S, 2>>>)
@spec
    requires clean(points@), 2 * points@.len() <= usize::MAX, assume_sorted && voxel_size is None ==> lex_sorted(points@),
        voxel_size matches Some(w) ==> !w.nan() && w.r() > 0real && forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], w),
    ensures points@.len() < 3 ==> r is None,
        r matches Some(h) ==> ring(points@, voxel_size, h@),
@start
    hide(prepared); hide(lex_sorted_from); hide(fits); hide(lex_sorted); hide(picked);
    proof { if points@.len() > 0 { lemma_sources(points@, voxel_size); } }
@loop 0
    prepared(points@, voxel_size, points_sorted_slice@), clean(points_sorted_slice@), 1 <= points_sorted_slice@.len() <= points@.len(), links(points_sorted_slice@, i0 as int, acc0@),
@loopstart 0
    let ghost c0 = acc0@;
    proof { lemma_rclean(points_sorted_slice@, c0); }
@loopend 0
    proof { lemma_links(points_sorted_slice@, j0 as int, c0, &points_sorted_slice@[j0 as int], acc0@); }
@loop 1
    links(points_sorted_slice@.reverse(), i1 as int, acc1@),
@loopstart 1
    let ghost c0 = acc1@;
    proof {
        let (l, v) = (points_sorted_slice@, points_sorted_slice@.reverse());
        assert forall|i: int| 0 <= i < v.len() implies !pnan(#[trigger] v[i]) by { assert(!pnan(l[l.len() - 1 - i])); }
        lemma_rclean(v, c0);
    }
@loopend 1
    proof { lemma_links(points_sorted_slice@.reverse(), j1 as int, c0, &points_sorted_slice@[t0 - 1 - j1], acc1@); }
@loop 2
    acc2@ == joined(upper_hull@, lower_hull@, i2 as int),
@loopend 2
    assert(acc2@ =~= joined(upper_hull@, lower_hull@, i2 as int));
@after 2
    proof { lemma_joined(points_sorted_slice@, upper_hull@, lower_hull@); assert(ring(points@, voxel_size, acc2@)); }
//@end
} // verus!
fn main() {}
