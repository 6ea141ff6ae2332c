//@include head.rs seq.rs scalar.rs exact.rs na.rs sort.rs center.rs lexord.rs voxspec.rs planespec.rs basespec.rs chainspec.rs
//@broadcast ax_scalar, ax_exact, ax_zero

//@fn lex_sort assume=lex
//@end
//@fn downsample_point_cloud_voxel assume=cloud
//@end

//@fn calculate_determinant props=C14
@params point_a point_b point_c
@sig fn calculate_determinant(point_a: &Point<S, 2>, point_b: &Point<S, 2>, point_c: &Point<S, 2>) -> (r: S)
@spec
    requires !pnan(*point_a), !pnan(*point_b), !pnan(*point_c)
    ensures s_is(r, orient(xy(*point_a), xy(*point_b), xy(*point_c)))
@start
    assert(!point_a.c(0).nan() && !point_a.c(1).nan() && !point_b.c(0).nan() && !point_b.c(1).nan() && !point_c.c(0).nan() && !point_c.c(1).nan());
//@end

//@fn build_hull_segment props=C14
@params accumulator current_point
@sig fn build_hull_segment<'a>(accumulator: VecDeque<&'a Point<S, 2>>, current_point: &'a Point<S, 2>) -> (r: VecDeque<&'a Point<S, 2>>)
@spec
    requires rclean(accumulator@), !pnan(*current_point)
    ensures r@ == accumulator@.take(keep(rxys(accumulator@), xy(*current_point), accumulator@.len() as int)).push(current_point)
@start
    let ghost c = accumulator@;
    assert(accumulator@ =~= c.take(c.len() as int));
@loop 0
    accumulator@.len() <= c.len(), accumulator@ == c.take(accumulator@.len() as int),
    keep(rxys(c), xy(*current_point), c.len() as int) == keep(rxys(c), xy(*current_point), accumulator@.len() as int),
    decreases accumulator@.len()
@loopend 0
    assert(accumulator@ =~= c.take(accumulator@.len() as int));
//@end
pub open spec fn rxys<'a>(c: Seq<&'a Point<S, 2>>) -> Seq<V2> { c.map_values(|p: &'a Point<S, 2>| xy(*p)) }
pub open spec fn rclean<'a>(c: Seq<&'a Point<S, 2>>) -> bool { forall|i: int| 0 <= i < c.len() ==> !pnan(*#[trigger] c[i]) }
pub open spec fn lex_sorted(a: Seq<Point<S, 2>>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] lex(a[i], a[j]) != Ordering::Greater }
/// r is the hull of d, by way of some stable sort of d
pub open spec fn scanned(d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>, r: Option<Vec<Point<S, 2>>>) -> bool {
    &&& lex_sorted_from(d, l)
    &&& r is None <==> collinear(xys(d))
    &&& r matches Some(h) ==> hull_ok(xys(d), xys(h@)) && xys(h@) == hull_of(xys(l)) && forall|i: int| 0 <= i < h@.len() ==> d.contains(#[trigger] h@[i])
}
/// the hull is the same whether or not a sorted cloud is declared sorted
pub proof fn lemma_same_hull(d: Seq<Point<S, 2>>, l1: Seq<Point<S, 2>>, l2: Seq<Point<S, 2>>, r1: Option<Vec<Point<S, 2>>>, r2: Option<Vec<Point<S, 2>>>)
    requires scanned(d, l1, r1), scanned(d, l2, r2)
    ensures r1 is None <==> r2 is None, r1 is Some ==> xys(r1->0@) == xys(r2->0@)
{
    broadcast use gr_lex;
    let c = vx_key::<Point<S, 2>>();
    let p1 = choose|pi: Seq<int>| #[trigger] stable_by(d, l1, pi, c);
    let p2 = choose|pi: Seq<int>| #[trigger] stable_by(d, l2, pi, c);
    lemma_stable_unique(d, l1, p1, l2, p2, c, d.len() as int);
    assert(l1 =~= l2);
}
pub proof fn lemma_presorted(d: Seq<Point<S, 2>>) requires lex_sorted(d) ensures lex_sorted_from(d, d) {
    let pi = Seq::new(d.len(), |i: int| i);
    let c = vx_key::<Point<S, 2>>();
    assert(is_perm(pi, d.len() as int)) by { assert forall|v: int| #![trigger is_val(v)] is_val(v) && 0 <= v < d.len() implies exists|i: int| 0 <= i < d.len() && pi[i] == v by { assert(pi[v] == v); } }
    assert(stable_by(d, d, pi, c));
}
pub proof fn lemma_sorted_from(d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>) requires lex_sorted_from(d, l)
    ensures sorted(true, xys(l)), same_set(xys(l), xys(d)), l.len() == d.len(), forall|i: int| 0 <= i < l.len() ==> d.contains(#[trigger] l[i])
{
    let c = vx_key::<Point<S, 2>>();
    let pi = choose|pi: Seq<int>| #[trigger] stable_by(d, l, pi, c);
    let (x, y) = (xys(l), xys(d));
    assert forall|i: int, j: int| 0 <= i <= j < x.len() implies #[trigger] le(true, x[i], x[j]) by { if i < j { assert(c(l[i], l[j]) != Ordering::Greater); lemma_lex2(l[i], l[j]); } }
    assert forall|p: V2| x.contains(p) <==> y.contains(p) by {
        if x.contains(p) { let j = choose|j: int| 0 <= j < x.len() && x[j] == p; assert(l[j] == d[pi[j]]); assert(y[pi[j]] == p); }
        if y.contains(p) { let j = choose|j: int| 0 <= j < y.len() && y[j] == p; assert(is_val(j)); let i = choose|i: int| 0 <= i < d.len() && pi[i] == j; assert(l[i] == d[pi[i]]); assert(x[i] == p); }
    }
}
pub proof fn lemma_scanned(d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>, r: Option<Vec<Point<S, 2>>>)
    requires d.len() >= 1, lex_sorted_from(d, l), r is None <==> collinear(xys(l)), r matches Some(h) ==> xys(h@) == hull_of(xys(l)) && forall|i: int| 0 <= i < h@.len() ==> l.contains(#[trigger] h@[i])
    ensures scanned(d, l, r)
{
    lemma_sorted_from(d, l); lemma_hull(xys(l)); lemma_collinear_same(xys(l), xys(d));
    if r is Some {
        let h = r->0@;
        assert forall|i: int| 0 <= i < h.len() implies d.contains(#[trigger] h[i]) by { assert(l.contains(h[i])); let j = choose|j: int| 0 <= j < l.len() && l[j] == h[i]; assert(d.contains(l[j])); }
        let (m, n, k) = (xys(l), xys(d), xys(h));
        assert forall|i: int| 0 <= i < k.len() implies n.contains(#[trigger] k[i]) by { assert(m.contains(k[i])); }
        assert forall|p: V2| n.contains(p) implies #[trigger] le(true, k[0], p) by { assert(m.contains(p)); }
        assert forall|i: int, p: V2| 0 <= i < k.len() && n.contains(p) implies #[trigger] orient(cyc(k, i), cyc(k, i + 1), p) >= 0real by { assert(m.contains(p)); }
    }
}
/// the chain built from references
pub open spec fn refs_in<'a>(c: Seq<&'a Point<S, 2>>, l: Seq<Point<S, 2>>) -> bool { forall|i: int| 0 <= i < c.len() ==> l.contains(*#[trigger] c[i]) }
pub proof fn lemma_push<'a>(c: Seq<&'a Point<S, 2>>, n: int, p: &'a Point<S, 2>) requires 0 <= n <= c.len() ensures rxys(c.take(n).push(p)) == rxys(c).take(n).push(xy(*p)) {
    assert(rxys(c.take(n).push(p)) =~= rxys(c).take(n).push(xy(*p)));
}
pub proof fn lemma_keep_range(c: Seq<V2>, p: V2, n: int) requires 0 <= n <= c.len() ensures 0 <= keep(c, p, n) <= n decreases n {
    if n > 1 && orient(c[n - 2], c[n - 1], p) <= 0real { lemma_keep_range(c, p, n - 1); }
}
pub proof fn lemma_step<'a>(m: Seq<V2>, l: Seq<Point<S, 2>>, k: int, c: Seq<&'a Point<S, 2>>, p: &'a Point<S, 2>, r: Seq<&'a Point<S, 2>>)
    requires 0 <= k < m.len(), rxys(c) == chain_of(m, k), refs_in(c, l), l.contains(*p), xy(*p) == m[k], r == c.take(keep(rxys(c), xy(*p), c.len() as int)).push(p)
    ensures rxys(r) == chain_of(m, k + 1), refs_in(r, l)
{
    lemma_keep_range(rxys(c), xy(*p), c.len() as int);
    lemma_push(c, keep(rxys(c), xy(*p), c.len() as int), p);
}

pub open spec fn joined<'a>(u: Seq<&'a Point<S, 2>>, w: Seq<&'a Point<S, 2>>, k: int) -> Seq<Point<S, 2>> { Seq::new(k as nat, |j: int| if j < u.len() - 1 { *u[j] } else { *w[j - (u.len() - 1)] }) }
pub proof fn lemma_joined<'a>(u: Seq<&'a Point<S, 2>>, w: Seq<&'a Point<S, 2>>, l: Seq<Point<S, 2>>)
    requires refs_in(u, l), refs_in(w, l), u.len() >= 1, w.len() >= 1, rxys(u) == chain_of(xys(l), l.len() as int), rxys(w) == chain_of(xys(l).reverse(), l.len() as int)
    ensures ({ let h = joined(u, w, u.len() + w.len() - 2); xys(h) == hull_of(xys(l)) && forall|i: int| 0 <= i < h.len() ==> l.contains(#[trigger] h[i]) })
{
    let h = joined(u, w, u.len() + w.len() - 2);
    assert(xys(h) =~= hull_of(xys(l)));
    assert forall|i: int| 0 <= i < h.len() implies l.contains(#[trigger] h[i]) by { if i < u.len() - 1 { assert(l.contains(*u[i])); } else { assert(l.contains(*w[i - (u.len() - 1)])); } }
}
pub proof fn lemma_clean_sorted(d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>) requires lex_sorted_from(d, l), clean(d) ensures clean(l), l.len() == d.len() {
    lemma_sorted_from(d, l);
    assert forall|i: int| 0 <= i < l.len() implies !pnan(#[trigger] l[i]) by { let j = choose|j: int| 0 <= j < d.len() && d[j] == l[i]; assert(!pnan(d[j])); }
}
/// l is sorted from the cloud that the hull is taken of
pub open spec fn prepared(a: Seq<Point<S, 2>>, w: Option<S>, l: Seq<Point<S, 2>>) -> bool { exists|d: Seq<Point<S, 2>>| #[trigger] base(a, w, d) && lex_sorted_from(d, l) && clean(d) && 1 <= d.len() <= a.len() }
pub proof fn lemma_prepared(a: Seq<Point<S, 2>>, w: Option<S>, l: Seq<Point<S, 2>>) requires prepared(a, w, l) ensures clean(l), 1 <= l.len() <= a.len() {
    let d = choose|d: Seq<Point<S, 2>>| #[trigger] base(a, w, d) && lex_sorted_from(d, l) && clean(d) && 1 <= d.len() <= a.len();
    lemma_clean_sorted(d, l);
}
pub proof fn lemma_sources(a: Seq<Point<S, 2>>, w: Option<S>) requires clean(a), a.len() >= 1
    ensures
        w is None && lex_sorted(a) ==> prepared(a, w, a) && clean(a),
        w is None ==> forall|l: Seq<Point<S, 2>>| #[trigger] lex_sorted_from(a, l) ==> prepared(a, w, l) && clean(l),
        w is Some ==> forall|ks: Seq<Seq<isize>>, d: Seq<Point<S, 2>>| #[trigger] voxels(a, w->0, ks, d) ==> valid(d),
        w is Some ==> forall|ks: Seq<Seq<isize>>, d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>| #[trigger] voxels(a, w->0, ks, d) && #[trigger] lex_sorted_from(d, l) ==> prepared(a, w, l) && clean(l),
{
    if w is None && lex_sorted(a) { lemma_presorted(a); assert(base(a, w, a)); }
    assert forall|l: Seq<Point<S, 2>>| #[trigger] prepared(a, w, l) implies clean(l) by { lemma_prepared(a, w, l); }
    if w is None { assert forall|l: Seq<Point<S, 2>>| #[trigger] lex_sorted_from(a, l) implies prepared(a, w, l) by { assert(base(a, w, a)); } }
    if w is Some {
        assert forall|ks: Seq<Seq<isize>>, d: Seq<Point<S, 2>>| #[trigger] voxels(a, w->0, ks, d) implies valid(d) by { lemma_voxels(a, w->0, ks, d); }
        assert forall|ks: Seq<Seq<isize>>, d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>| #[trigger] voxels(a, w->0, ks, d) && #[trigger] lex_sorted_from(d, l) implies prepared(a, w, l) by { lemma_voxels(a, w->0, ks, d); assert(base(a, w, d)); }
    }
}
pub proof fn lemma_start() ensures forall|m: Seq<V2>| #[trigger] chain_of(m, 0) == Seq::<V2>::empty() {}
pub proof fn lemma_lens(a: Seq<Point<S, 2>>, w: Option<S>, l: Seq<Point<S, 2>>) requires prepared(a, w, l)
    ensures 1 <= l.len() <= a.len(), ({ let (u, w) = (chain_of(xys(l), l.len() as int), chain_of(xys(l).reverse(), l.len() as int)); 1 <= u.len() <= l.len() && 1 <= w.len() <= l.len() && (u.len() + w.len() - 2 <= 2 <==> collinear(xys(l))) })
{
    lemma_prepared(a, w, l);
    let d = choose|d: Seq<Point<S, 2>>| #[trigger] base(a, w, d) && lex_sorted_from(d, l) && clean(d) && 1 <= d.len() <= a.len();
    lemma_sorted_from(d, l);
    lemma_hull(xys(l)); lemma_chain_len(xys(l), l.len() as int); lemma_chain_len(xys(l).reverse(), l.len() as int);
}
/// r is the hull of the points, or of their voxel means
pub open spec fn hulled(a: Seq<Point<S, 2>>, w: Option<S>, r: Option<Vec<Point<S, 2>>>) -> bool { exists|d: Seq<Point<S, 2>>, l: Seq<Point<S, 2>>| #[trigger] base(a, w, d) && #[trigger] scanned(d, l, r) }
pub proof fn lemma_done(a: Seq<Point<S, 2>>, w: Option<S>, l: Seq<Point<S, 2>>, r: Option<Vec<Point<S, 2>>>)
    requires prepared(a, w, l), r is None <==> collinear(xys(l)), r matches Some(h) ==> xys(h@) == hull_of(xys(l)) && forall|i: int| 0 <= i < h@.len() ==> l.contains(#[trigger] h@[i])
    ensures hulled(a, w, r)
{
    let d = choose|d: Seq<Point<S, 2>>| #[trigger] base(a, w, d) && lex_sorted_from(d, l) && clean(d) && 1 <= d.len() <= a.len();
    lemma_scanned(d, l, r);
}
pub proof fn lemma_chain_len(m: Seq<V2>, k: int) requires 0 <= k <= m.len() ensures chain_of(m, k).len() <= k decreases k {
    if k > 0 { lemma_chain_len(m, k - 1); let c = chain_of(m, k - 1); lemma_keep_range(c, m[k - 1], c.len() as int); }
}

//@fn graham_scan props=C14
@params points assume_sorted voxel_size
@sig fn graham_scan(points: &[Point<S, 2>], assume_sorted: bool, voxel_size: Option<S>) -> (r: Option<Vec<Point<S, 2>>>)
@spec
    requires clean(points@), 2 * points@.len() <= usize::MAX, assume_sorted && voxel_size is None ==> lex_sorted(points@),
        voxel_size matches Some(w) ==> !w.nan() && w.r() > 0real && forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], w),
    ensures points@.len() < 3 ==> r is None,
        points@.len() >= 3 ==> hulled(points@, voxel_size, r),
@start
    hide(prepared); hide(base); hide(voxels); hide(lex_sorted_from); hide(chain_of); hide(hull_of); hide(collinear); hide(scanned); hide(keep); hide(fits); hide(hulled);
    proof { lemma_start(); if points@.len() > 0 { lemma_sources(points@, voxel_size); } }
@loop 0
    rxys(acc0@) == chain_of(xys(points_sorted_slice@), i0 as int), refs_in(acc0@, points_sorted_slice@), prepared(points@, voxel_size, points_sorted_slice@), clean(points_sorted_slice@),
@loopstart 0
    let ghost c0 = acc0@;
@loopend 0
    proof { lemma_step(xys(points_sorted_slice@), points_sorted_slice@, j0 as int, c0, &points_sorted_slice@[j0 as int], acc0@); }
@loop 1
    rxys(acc1@) == chain_of(xys(points_sorted_slice@).reverse(), i1 as int), refs_in(acc1@, points_sorted_slice@),
@loopstart 1
    let ghost c0 = acc1@;
@loopend 1
    proof { lemma_step(xys(points_sorted_slice@).reverse(), points_sorted_slice@, j1 as int, c0, &points_sorted_slice@[t0 - 1 - j1], acc1@); }
@after 1
    proof {
        lemma_lens(points@, voxel_size, points_sorted_slice@);
        assert forall|x: Option<Vec<Point<S, 2>>>| (x is None <==> collinear(xys(points_sorted_slice@))) && (x matches Some(h) ==> xys(h@) == hull_of(xys(points_sorted_slice@)) && forall|i: int| 0 <= i < h@.len() ==> points_sorted_slice@.contains(#[trigger] h@[i]))
            implies #[trigger] hulled(points@, voxel_size, x) by { lemma_done(points@, voxel_size, points_sorted_slice@, x); }
    }
@loop 2
    acc2@ == joined(upper_hull@, lower_hull@, i2 as int),
@loopend 2
    assert(acc2@ =~= joined(upper_hull@, lower_hull@, i2 as int));
@after 2
    proof { lemma_joined(upper_hull@, lower_hull@, points_sorted_slice@); }
//@end
} // verus!
fn main() {}
