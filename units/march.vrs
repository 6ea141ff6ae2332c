//@include head.rs seq.rs scalar.rs exact.rs na.rs sort.rs center.rs lexord.rs voxspec.rs planespec.rs basespec.rs marchspec.rs
//@broadcast ax_scalar, ax_exact, ax_zero

//@fn downsample_point_cloud_voxel assume=cloud
//@end
//@fn calculate_determinant props=C15
@params point_a point_b point_c
@sig fn calculate_determinant(point_a: &Point<S, 2>, point_b: &Point<S, 2>, point_c: &Point<S, 2>) -> (r: S)
@spec
    requires !pnan(*point_a), !pnan(*point_b), !pnan(*point_c)
    ensures s_is(r, orient(xy(*point_a), xy(*point_b), xy(*point_c)))
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan() && !point_c.c(0).nan() && !point_c.c(1).nan());
//@end
/// r goes around the hull of d
pub open spec fn wrapped(d: Seq<Point<S, 2>>, r: Option<Vec<Point<S, 2>>>) -> bool {
    &&& r is None <==> collinear(xys(d))
    &&& r matches Some(h) ==> walk(xys(d), xys(h@)) && forall|i: int| 0 <= i < h@.len() ==> d.contains(#[trigger] h@[i])
}
/// the march over d has visited h and goes on to v
pub open spec fn state(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>) -> bool {
    &&& marching(xys(d), xys(h), xy(v))
    &&& d.contains(v) && forall|i: int| 0 <= i < h.len() ==> d.contains(#[trigger] h[i])
}
/// and is sweeping for the vertex after v
pub open spec fn sweeping(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>, i: int, e: Point<S, 2>) -> bool {
    d.contains(e) && swept(xys(d), xy(v), incoming(xys(h), xy(v)), i, xy(e))
}
pub proof fn lemma_has(d: Seq<Point<S, 2>>, p: Point<S, 2>) requires d.contains(p) ensures xys(d).contains(xy(p)) { let j = choose|j: int| 0 <= j < d.len() && d[j] == p; assert(xys(d)[j] == xy(p)); }
pub proof fn lemma_peq(p: Point<S, 2>, q: Point<S, 2>) requires !pnan(p), !pnan(q) ensures peq(p, q) <==> xy(p) == xy(q) {
    assert(!p.c(0).nan() && !p.c(1).nan() && !q.c(0).nan() && !q.c(1).nan());
    if peq(p, q) { assert(s_eq(p.c(0), q.c(0)) && s_eq(p.c(1), q.c(1))); }
    if xy(p) == xy(q) { assert forall|i: int| 0 <= i < 2 implies s_eq(#[trigger] p.c(i), q.c(i)) by { assert(i == 0 || i == 1); } }
}
pub proof fn lemma_push(h: Seq<Point<S, 2>>, v: Point<S, 2>) ensures xys(h.push(v)) == xys(h).push(xy(v)) { assert(xys(h.push(v)) =~= xys(h).push(xy(v))); }
pub open spec fn least_upto(d: Seq<Point<S, 2>>, v: Point<S, 2>, k: int) -> bool { forall|j: int| 0 <= j < k ==> le(true, xy(v), xy(#[trigger] d[j])) }
pub open spec fn minimum(d: Seq<Point<S, 2>>, v: Option<&Point<S, 2>>, k: int) -> bool { if k <= 0 { v is None } else { v matches Some(p) && d.contains(*p) && least_upto(d, *p, k) } }
pub proof fn lemma_minimum(d: Seq<Point<S, 2>>, b: Option<&Point<S, 2>>, k: int, a: Option<&Point<S, 2>>)
    requires minimum(d, b, k), 0 <= k < d.len(), b is None ==> a == Some(&d[k]), b matches Some(p) ==> (if lex(*p, d[k]) == Ordering::Greater { a == Some(&d[k]) } else { a == b })
    ensures minimum(d, a, k + 1)
{
    assert(d.contains(d[k]));
    if b is Some {
        let p = *b->0; let q = d[k];
        lemma_lex2(p, q); lemma_order(true, xy(p), xy(q), xy(q));
        assert forall|j: int| 0 <= j < k + 1 implies le(true, xy(*a->0), xy(#[trigger] d[j])) by {
            if j < k { assert(le(true, xy(p), xy(d[j]))); lemma_order(true, xy(q), xy(p), xy(d[j])); } else { lemma_order(true, xy(q), xy(q), xy(q)); }
        }
    }
}
pub proof fn lemma_begin(d: Seq<Point<S, 2>>, v: Option<&Point<S, 2>>) requires minimum(d, v, d.len() as int), d.len() > 0 ensures v is Some, state(d, Seq::empty(), *v->0) {
    let v = *v->0;
    let m = xys(d);
    lemma_has(d, v);
    let p = xys(Seq::<Point<S, 2>>::empty()).push(xy(v));
    assert(p =~= seq![xy(v)]);
    assert forall|q: V2| m.contains(q) implies #[trigger] le(true, xy(v), q) by { let j = choose|j: int| 0 <= j < m.len() && m[j] == q; assert(le(true, xy(v), xy(d[j]))); }
    assert(tour(m, p, 0));
}
pub proof fn lemma_sweep_start(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>, e: Point<S, 2>) requires state(d, h, v), d.len() > 0, e == d[0] ensures sweeping(d, h, v, 0, e) {
    assert(d.contains(d[0])); lemma_has(d, e);
    if xy(e) != xy(v) { assert(next_at(xys(d), xy(v), 0)); }
}
pub proof fn lemma_sweep_step(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>, i: int, e: Point<S, 2>, e2: Point<S, 2>)
    requires state(d, h, v), sweeping(d, h, v, i, e), 0 <= i < 2 * d.len(), ({ let p = if i < d.len() { d[i] } else { d[i - d.len()] }; e2 == (if better(xy(v), xy(e), xy(p)) { p } else { e }) })
    ensures sweeping(d, h, v, i + 1, e2)
{
    let p = if i < d.len() { d[i] } else { d[i - d.len()] };
    assert(d.contains(p));
    lemma_held(xys(d), xys(h), xy(v));
    lemma_sweep(xys(d), xy(v), incoming(xys(h), xy(v)), i, xy(e), xy(p), xy(e2));
}
pub proof fn lemma_cleanin(d: Seq<Point<S, 2>>, p: Point<S, 2>) requires clean(d), d.contains(p) ensures !pnan(p) {}
pub proof fn lemma_compare(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>, i: int, e: Point<S, 2>)
    requires clean(d), state(d, h, v), sweeping(d, h, v, i, e)
    ensures !pnan(v), !pnan(e), peq(e, v) <==> xy(e) == xy(v), forall|j: int| 0 <= j < d.len() ==> !pnan(#[trigger] d[j]), ({ let p = h.push(v)[0]; !pnan(p) && (peq(e, p) <==> xy(e) == xy(p)) })
{
    lemma_peq(e, v);
    let p = h.push(v)[0];
    if h.len() > 0 { assert(p == h[0]); }
    assert(d.contains(p));
    lemma_peq(e, p);
}
/// what one round of the march leaves
pub proof fn lemma_round(d: Seq<Point<S, 2>>, h: Seq<Point<S, 2>>, v: Point<S, 2>, e: Point<S, 2>)
    requires state(d, h, v), sweeping(d, h, v, 2 * (d.len() as int), e)
    ensures ({ let p = h.push(v);
        &&& xy(e) != xy(p[0]) ==> state(d, p, e) && (!collinear(xys(d)) ==> p.len() != d.len())
        &&& xy(e) == xy(p[0]) ==> (p.len() < 3 <==> collinear(xys(d))) && (p.len() >= 3 ==> walk(xys(d), xys(p)))
        &&& forall|i: int| 0 <= i < p.len() ==> d.contains(#[trigger] p[i]) })
{
    let p = h.push(v);
    lemma_push(h, v);
    assert(xys(p)[0] == xy(p[0]));
    assert forall|i: int| 0 <= i < p.len() implies d.contains(#[trigger] p[i]) by { if i < h.len() { assert(p[i] == h[i]); } }
    if xy(e) != xy(p[0]) { lemma_march(xys(d), xys(h), xy(v), xy(e)); } else { lemma_close(xys(d), xys(h), xy(v), xy(e)); }
}
pub proof fn lemma_ready(a: Seq<Point<S, 2>>, w: Option<S>) requires clean(a), a.len() >= 1 ensures forall|d: Seq<Point<S, 2>>| #[trigger] base(a, w, d) ==> clean(d) && 1 <= d.len() <= a.len(), w is None ==> base(a, w, a),
    w matches Some(s) ==> forall|ks: Seq<Seq<isize>>, d: Seq<Point<S, 2>>| #[trigger] voxels(a, s, ks, d) ==> base(a, w, d)
{
    assert forall|d: Seq<Point<S, 2>>| #[trigger] base(a, w, d) implies clean(d) && 1 <= d.len() <= a.len() by {
        match w { None => {}, Some(s) => { let ks = choose|ks: Seq<Seq<isize>>| #[trigger] voxels(a, s, ks, d); lemma_voxels(a, s, ks, d); } }
    }
}
//@fn jarvis_march props=C15
@params points voxel_size
@attrs
#[verifier::allow_complex_invariants]
@sig fn jarvis_march(points: &[Point<S, 2>], voxel_size: Option<S>) -> (r: Option<Vec<Point<S, 2>>>)
@spec
    requires clean(points@), 2 * points@.len() <= usize::MAX,
        voxel_size matches Some(w) ==> !w.nan() && w.r() > 0real && forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], w),
    ensures points@.len() < 3 ==> r is None,
        points@.len() >= 3 ==> exists|d: Seq<Point<S, 2>>| #[trigger] base(points@, voxel_size, d) && wrapped(d, r),
@start
    hide(base); hide(voxels); hide(collinear); hide(fits); hide(walk); hide(state); hide(sweeping); hide(least_upto);
    proof { if points@.len() > 0 { lemma_ready(points@, voxel_size); } }
@loop 0
    base(points@, voxel_size, points_downsampled_slice@), clean(points_downsampled_slice@), points_downsampled_slice@.len() <= points@.len(),
    minimum(points_downsampled_slice@, acc0, i0 as int),
@loopstart 0
    let ghost b0 = acc0;
@loopend 0
    proof { lemma_minimum(points_downsampled_slice@, b0, j0 as int, acc0); }
@loop 1
    acc1 == lexk(*vxb, *vxx, i1 as int), !pnan(*vxb), !pnan(*vxx),
@loopstart 1
    assert(!vxb.c(j1 as int).nan() && !vxx.c(j1 as int).nan());
@after 0
    proof { lemma_begin(points_downsampled_slice@, acc0); }
@loop 2
    invariant_except_break state(points_downsampled_slice@, hull@, *current_vertex), hull@.len() < points_downsampled_slice@.len()
    ensures (hull@.len() < 3 <==> collinear(xys(points_downsampled_slice@))), hull@.len() >= 3 ==> walk(xys(points_downsampled_slice@), xys(hull@)), forall|i: int| 0 <= i < hull@.len() ==> points_downsampled_slice@.contains(#[trigger] hull@[i])
    decreases points_downsampled_slice@.len() - hull@.len()
@loopstart 2
    let ghost h0 = hull@; let ghost v0 = *current_vertex;
    proof { lemma_sweep_start(points_downsampled_slice@, h0, v0, points_downsampled_slice@[0]); }
@loop 3
    sweeping(points_downsampled_slice@, h0, v0, i3 as int, *endpoint),
@loopstart 3
    let ghost e0 = *endpoint;
    proof { lemma_compare(points_downsampled_slice@, h0, v0, j3 as int, e0); }
@loopend 3
    proof { lemma_sweep_step(points_downsampled_slice@, h0, v0, j3 as int, e0, *endpoint); }
@after 3
    proof { lemma_compare(points_downsampled_slice@, h0, v0, i3 as int, *endpoint); }
    proof { lemma_round(points_downsampled_slice@, h0, v0, *endpoint); }
//@end
} // verus!
fn main() {}
