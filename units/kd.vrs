//@include head.rs seq.rs scalar.rs na.rs dist.rs
//@type KDNode
//@type KDTree
//@broadcast ax_scalar

//@include kdspec.rs
pub proof fn lemma_cont<const N: usize>(n: KDNode<S, N>)
    ensures
        cont(n).len() == bcont(n.left).len() + 1 + bcont(n.right).len(),
        cont(n)[bcont(n.left).len() as int] == n.internal_data,
        forall|i: int| 0 <= i < bcont(n.left).len() ==> #[trigger] bcont(n.left)[i] == cont(n)[i],
        forall|i: int| 0 <= i < bcont(n.right).len() ==> #[trigger] bcont(n.right)[i] == cont(n)[bcont(n.left).len() + 1 + i],
        forall|i: int| 0 <= i < cont(n).len() ==> (#[trigger] cont(n)[i] == (
            if i < bcont(n.left).len() { bcont(n.left)[i] } else if i == bcont(n.left).len() { n.internal_data } else { bcont(n.right)[i - bcont(n.left).len() - 1] })),
        cont(n).to_multiset() =~= bcont(n.left).to_multiset().insert(n.internal_data).add(bcont(n.right).to_multiset()),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(bcont(n.left).push(n.internal_data), bcont(n.right));
}
pub open spec fn msins<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, p: Point<S, N>) -> bool { a.to_multiset() =~= b.to_multiset().insert(p) }
pub proof fn lemma_ms_in<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, p: Point<S, N>)
    requires msins(a, b, p)
    ensures a.len() == b.len() + 1,
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == p || b.contains(a[i]),
        forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]), a.contains(p)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) == p || b.contains(a[i]) by {
        assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0);
        if a[i] != p { assert(b.to_multiset().count(a[i]) > 0); }
    }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by {
        assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.to_multiset().count(b[i]) > 0);
    }
    assert(a.to_multiset().count(p) > 0);
}
/// adding a point that equals no stored point keeps the points pairwise different
pub proof fn lemma_distinct_ins<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, p: Point<S, N>)
    requires msins(a, b, p), distinct(b), !stored(b, p), !pnan(p)
    ensures distinct(a)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_ms_in(a, b, p);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies !peq(#[trigger] a[i], #[trigger] a[j]) by {
        if peq(a[i], a[j]) {
            lemma_peq_sym(a[i], a[j]);
            if a[i] == p || a[j] == p {
                if a[i] == p && a[j] == p {
                    // p occurs twice in a, hence once in b
                    lemma_twice(a, i, j);
                    assert(b.to_multiset().count(p) >= 1);
                    assert(b.contains(p));
                    let k = choose|k: int| 0 <= k < b.len() && b[k] == p;
                    assert(peq(b[k], p)) by { assert forall|i: int| 0 <= i < N implies s_eq(#[trigger] p.c(i), p.c(i)) by { lemma_no_nan(p, i); } }
                } else {
                    let o = if a[i] == p { a[j] } else { a[i] };
                    assert(b.contains(o));
                    let k = choose|k: int| 0 <= k < b.len() && b[k] == o;
                    assert(peq(b[k], p));
                }
            } else {
                let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i];
                let l = choose|l: int| 0 <= l < b.len() && b[l] == a[j];
                if a[i] == a[j] {
                    lemma_twice(a, i, j);
                    assert(b.to_multiset().count(a[i]) >= 2);
                    lemma_count_two(b, a[i]);
                    let (x, y) = choose|x: int, y: int| 0 <= x < y < b.len() && b[x] == a[i] && b[y] == a[i];
                    assert(peq(b[x], b[y]));
                } else if k < l { assert(peq(b[k], b[l])); } else { assert(peq(b[l], b[k])); }
            }
        }
    }
}
pub proof fn lemma_twice<A>(s: Seq<A>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j]
    ensures s.to_multiset().count(s[i]) >= 2
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = s.remove(j);
    assert(t.to_multiset() =~= s.to_multiset().remove(s[j]));
    assert(t[i] == s[i]); assert(t.contains(s[i])); assert(t.to_multiset().count(s[i]) >= 1);
}
pub proof fn lemma_count_two<A>(s: Seq<A>, v: A)
    requires s.to_multiset().count(v) >= 2
    ensures exists|x: int, y: int| 0 <= x < y < s.len() && s[x] == v && s[y] == v
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.contains(v));
    let x = choose|x: int| 0 <= x < s.len() && s[x] == v;
    let t = s.remove(x);
    assert(t.to_multiset() =~= s.to_multiset().remove(s[x]));
    assert(t.to_multiset().count(v) >= 1);
    assert(t.contains(v));
    let y = choose|y: int| 0 <= y < t.len() && t[y] == v;
    if y < x { assert(s[y] == v && s[x] == v); } else { assert(s[y + 1] == v && s[x] == v); }
}
/// lower bound used to skip a branch: on the far side of the splitting plane every point is at least
/// as far away as the plane
pub proof fn lemma_prune<const N: usize>(s: Seq<Point<S, N>>, node: Point<S, N>, t: Point<S, N>, d: int)
    requires 0 <= d < N,
        (t.c(d).r() <= node.c(d).r() && all_ge(s, node, d)) || (t.c(d).r() >= node.c(d).r() && all_lt(s, node, d))
    ensures forall|i: int| 0 <= i < s.len() ==> dsq(#[trigger] s[i], t) >= rnd(rnd(t.c(d).r() - node.c(d).r()) * rnd(t.c(d).r() - node.c(d).r()))
{
    broadcast use ax_rnd_mono, ax_rnd_zero, ax_rnd_neg;
    assert forall|i: int| 0 <= i < s.len() implies dsq(#[trigger] s[i], t) >= rnd(rnd(t.c(d).r() - node.c(d).r()) * rnd(t.c(d).r() - node.c(d).r())) by {
        let q = s[i];
        let a = rnd(t.c(d).r() - node.c(d).r());
        let e = rnd(q.c(d).r() - t.c(d).r());
        lemma_dsq_ge(q, t, N as int, d);
        let na = rnd(-(t.c(d).r() - node.c(d).r()));
        assert(na == -a);
        if t.c(d).r() <= node.c(d).r() && all_ge(s, node, d) {
            assert(e >= na);
            assert(na >= rnd(0real));
            lemma_sq_mono(na, e);
        } else {
            let ne = rnd(-(q.c(d).r() - t.c(d).r()));
            assert(ne == -e);
            assert(ne >= a);
            assert(a >= rnd(0real));
            lemma_sq_mono(a, ne);
            assert(ne * ne == e * e) by(nonlinear_arith) requires ne == -e;
        }
        assert(a * a <= e * e) by(nonlinear_arith) requires (na * na <= e * e && na == -a) || a * a <= e * e;
        assert(rnd(a * a) <= rnd(e * e));
    }
}

//@fn distance_squared props=C02,C04,C17,C18,C25
@params point_a point_b
@sig fn distance_squared<const N: usize>(point_a: &Point<T, N>, point_b: &Point<T, N>) -> (r: T)
@spec
    requires !pnan(*point_a), !pnan(*point_b),
    ensures !r.nan(), r.r() == dsq(*point_a, *point_b),
@loop 0
    n0 == N, !acc0.nan(), acc0.r() == dsqr(*point_a, *point_b, i0 as int)
@loopstart 0
    proof { lemma_no_nan(*point_a, j0 as int); lemma_no_nan(*point_b, j0 as int); assert(point_a.c(j0 as int) == point_a.coords.data.0[0]@[j0 as int]); assert(point_b.c(j0 as int) == point_b.coords.data.0[0]@[j0 as int]); }
//@end

//@fn find_nearest_neighbour_naive props=C04,C17,C18,C25
@params point all_points
@sig fn find_nearest_neighbour_naive<const N: usize>(point: &Point<T, N>, all_points: &[Point<T, N>]) -> (r: Option<Point<T, N>>)
@spec
    requires !pnan(*point), nan_free(all_points@),
    ensures r is None <==> all_points@.len() == 0,
        r matches Some(p) ==> all_points@.contains(p) && forall|i: int| 0 <= i < all_points@.len() ==> dsq(*point, p) <= dsq(*point, #[trigger] all_points@[i]),
@loop 0
    n0 == all_points@.len(), !current_distance.nan(),
    all_points@.contains(current_point), !pnan(current_point),
    forall|i: int| 0 <= i < i0 ==> current_distance.r() <= dsq(*point, #[trigger] all_points@[i]) <= s_max().r(),
    current_distance.r() == dsq(*point, current_point) || (current_distance == s_max() && current_point == all_points@[0]),
@loopstart 0
    proof { assert(!pnan(all_points@[j0 as int])); }
@loopend 0
    proof { ax_max(distance); }
//@end

/// what one insertion step may do to a node
pub open spec fn child_step<const N: usize>(a: Option<Box<KDNode<S, N>>>, b: Option<Box<KDNode<S, N>>>, data: Point<S, N>, d: int, ret: bool) -> bool {
    match a {
        None => ret && b is Some && b->0.internal_data == data && b->0.left is None && b->0.right is None,
        Some(x) => b is Some && (ret == !stored(cont(*x), data)) && wf(*b->0, d) && (ret ==> msins(cont(*b->0), cont(*x), data)) && (!ret ==> cont(*b->0) == cont(*x)),
    }
}
pub open spec fn ins_step<const N: usize>(a: KDNode<S, N>, b: KDNode<S, N>, data: Point<S, N>, d: int, ret: bool) -> bool {
    a.internal_data == b.internal_data && (
        (!ret && a == b && peq(a.internal_data, data))
        || (data.c(d).r() < a.internal_data.c(d).r() && a.right == b.right && child_step(a.left, b.left, data, nxt::<N>(d), ret))
        || (data.c(d).r() >= a.internal_data.c(d).r() && !peq(a.internal_data, data) && a.left == b.left && child_step(a.right, b.right, data, nxt::<N>(d), ret)))
}
pub proof fn lemma_leaf<const N: usize>(b: KDNode<S, N>, data: Point<S, N>, d: int)
    requires b.internal_data == data, b.left is None, b.right is None, !pnan(data)
    ensures wf(b, d), cont(b) =~= seq![data], msins(cont(b), Seq::<Point<S, N>>::empty(), data)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_cont(b);
    assert(cont(b) =~= seq![data]);
    assert(seq![data] =~= Seq::<Point<S, N>>::empty().push(data));
}
pub proof fn lemma_child<const N: usize>(a: Option<Box<KDNode<S, N>>>, b: Option<Box<KDNode<S, N>>>, data: Point<S, N>, d: int, ret: bool)
    requires child_step(a, b, data, d, ret), bwf(a, d), !pnan(data)
    ensures bwf(b, d), ret == !stored(bcont(a), data), ret ==> msins(bcont(b), bcont(a), data), !ret ==> bcont(a) == bcont(b)
{
    if a is None { lemma_leaf(*b->0, data, d); assert(bcont(a) =~= Seq::<Point<S, N>>::empty()); assert(bcont(b) == cont(*b->0)); }
}
pub proof fn lemma_ins_done<const N: usize>(a: KDNode<S, N>, b: KDNode<S, N>, data: Point<S, N>, d: int, ret: bool)
    requires 0 <= d < N, wf(a, d), !pnan(data)
    ensures ins_step(a, b, data, d, ret) ==> {
        &&& wf(b, d)
        &&& ret == !stored(cont(a), data)
        &&& (ret ==> msins(cont(b), cont(a), data))
        &&& (!ret ==> cont(b) == cont(a))
    }
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if ins_step(a, b, data, d, ret) {
        lemma_cont(a);
        lemma_cont(b);
        assert(cont(a)[bcont(a.left).len() as int] == a.internal_data);
        assert forall|i: int| 0 <= i < cont(a).len() && peq(#[trigger] cont(a)[i], data) implies cont(a)[i].c(d).r() == data.c(d).r() by { lemma_peq_axis(cont(a)[i], data, d); }
        let less = data.c(d).r() < a.internal_data.c(d).r();
        if !ret && a == b && peq(a.internal_data, data) {
            assert(stored(cont(a), data));
        } else {
            if less && a.right == b.right && child_step(a.left, b.left, data, nxt::<N>(d), ret) {
                lemma_child(a.left, b.left, data, nxt::<N>(d), ret);
                if ret { lemma_ms_in(bcont(b.left), bcont(a.left), data); }
            } else {
                lemma_child(a.right, b.right, data, nxt::<N>(d), ret);
                if ret { lemma_ms_in(bcont(b.right), bcont(a.right), data); }
            }
            // membership
            if stored(bcont(a.left), data) { let i = choose|i: int| 0 <= i < bcont(a.left).len() && peq(#[trigger] bcont(a.left)[i], data); assert(peq(cont(a)[i], data)); }
            if stored(bcont(a.right), data) { let i = choose|i: int| 0 <= i < bcont(a.right).len() && peq(#[trigger] bcont(a.right)[i], data); assert(peq(cont(a)[bcont(a.left).len() + 1 + i], data)); }
            if stored(cont(a), data) {
                let i = choose|i: int| 0 <= i < cont(a).len() && peq(#[trigger] cont(a)[i], data);
                if i < bcont(a.left).len() { assert(peq(bcont(a.left)[i], data)); }
                else if i > bcont(a.left).len() { assert(peq(bcont(a.right)[i - bcont(a.left).len() - 1], data)); }
            }
            if ret {
                assert(cont(b).to_multiset() =~= cont(a).to_multiset().insert(data));
                lemma_ms_in(cont(b), cont(a), data);
                assert forall|i: int| 0 <= i < cont(b).len() implies !pnan(#[trigger] cont(b)[i]) by {
                    if cont(b)[i] != data { assert(cont(a).contains(cont(b)[i])); }
                }
            } else {
                assert(cont(b) =~= cont(a));
            }
            assert forall|i: int| 0 <= i < bcont(b.left).len() implies (#[trigger] bcont(b.left)[i]).c(d).r() < b.internal_data.c(d).r() by {
                if a.left != b.left && bcont(b.left)[i] != data { assert(bcont(a.left).contains(bcont(b.left)[i])); }
            }
            assert forall|i: int| 0 <= i < bcont(b.right).len() implies (#[trigger] bcont(b.right)[i]).c(d).r() >= b.internal_data.c(d).r() by {
                if a.right != b.right && bcont(b.right)[i] != data { assert(bcont(a.right).contains(bcont(b.right)[i])); }
            }
        }
    }
}

impl<const N: usize> KDNode<S, N> {
//@fn KDNode::insert ty=KDNode name=insert props=C01,C02,C17,C18,C25
@params data depth
@sig fn insert(&mut self, data: Point<T, N>, depth: usize) -> (r: bool)
@spec
    requires N > 0, wf(*old(self), axis::<N>(depth as int)), !pnan(data), depth + cont(*old(self)).len() < usize::MAX,
    ensures wf(*final(self), axis::<N>(depth as int)),
        r == !stored(cont(*old(self)), data),
        r ==> msins(cont(*final(self)), cont(*old(self)), data),
        !r ==> cont(*final(self)) == cont(*old(self)),
    decreases *old(self)
@start
    let ghost me = *old(self);
    let ghost d = axis::<N>(depth as int);
    proof {
        lemma_cont(me);
        lemma_axis::<N>(depth as int);
        lemma_no_nan(data, d);
        assert(!pnan(cont(me)[bcont(me.left).len() as int]));
        lemma_no_nan(me.internal_data, d);
        if stored(cont(me), data) { let i = choose|i: int| 0 <= i < cont(me).len() && peq(#[trigger] cont(me)[i], data); lemma_peq_axis(cont(me)[i], data, d); }
        assert forall|i: int| 0 <= i < cont(me).len() && peq(#[trigger] cont(me)[i], data) implies cont(me)[i].c(d).r() == data.c(d).r() by { lemma_peq_axis(cont(me)[i], data, d); }
        lemma_peq_sym(me.internal_data, data);
    }
@ret
    proof { lemma_ins_done(me, *self, data, d, vx_ret); }
@end
    proof { lemma_ins_done(me, *self, data, d, vx_ret); }
//@end
//@fn KDNode::nearest ty=KDNode name=nearest props=C02,C17,C18,C25
@params target depth
@sig fn nearest(&self, target: &Point<T, N>, depth: usize) -> (r: Option<Point<T, N>>)
@spec
    requires N > 0, wf(*self, axis::<N>(depth as int)), !pnan(*target), depth + cont(*self).len() < usize::MAX,
    ensures r matches Some(p) && cont(*self).contains(p) && forall|i: int| 0 <= i < cont(*self).len() ==> dsq(p, *target) <= dsq(#[trigger] cont(*self)[i], *target),
    decreases *self
@start
    let ghost d = axis::<N>(depth as int);
    proof {
        lemma_cont(*self);
        lemma_axis::<N>(depth as int);
        lemma_no_nan(*target, d);
        assert(!pnan(cont(*self)[bcont(self.left).len() as int]));
        lemma_no_nan(self.internal_data, d);
        if target.c(d).r() <= self.internal_data.c(d).r() { lemma_prune(bcont(self.right), self.internal_data, *target, d); }
        if target.c(d).r() >= self.internal_data.c(d).r() { lemma_prune(bcont(self.left), self.internal_data, *target, d); }
        assert forall|i: int| 0 <= i < bcont(self.left).len() implies cont(*self).contains(#[trigger] bcont(self.left)[i]) && !pnan(bcont(self.left)[i]) by { assert(cont(*self)[i] == bcont(self.left)[i]); }
        assert forall|i: int| 0 <= i < bcont(self.right).len() implies cont(*self).contains(#[trigger] bcont(self.right)[i]) && !pnan(bcont(self.right)[i]) by { assert(cont(*self)[bcont(self.left).len() + 1 + i] == bcont(self.right)[i]); }
    }
//@end
//@fn KDNode::traverse_branch ty=KDNode name=traverse_branch props=C03
@params func
@sig fn traverse_branch(&self, func: &mut VxFnMut<N>)
@subst &mut VxFnMut => &mut VxFnMut<N>
@spec
    ensures final(func).seen() =~= old(func).seen().add(cont(*self).to_multiset()),
    decreases *self
@start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof { lemma_cont(*self); }
//@end
//@fn KDNode::traverse_branch_mut ty=KDNode name=traverse_branch_mut props=C03
@params func
@sig fn traverse_branch_mut(&mut self, func: &mut VxFnMutMut<N>)
@subst &mut VxFnMutMut => &mut VxFnMutMut<N>
@spec
    ensures final(func).seen() =~= old(func).seen().add(cont(*old(self)).to_multiset()),
        final(func).left() =~= old(func).left().add(cont(*final(self)).to_multiset()),
        cont(*final(self)).len() == cont(*old(self)).len(),
    decreases *old(self)
@start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let ghost me = *self;
    proof { lemma_cont(*self); }
@end
    proof { lemma_cont(*self); }
//@end
}

/// the caller's closure: an arbitrary closure, of which only the points it was called with are recorded
#[verifier::external_body]
pub struct VxFnMut<const N: usize> { x: [u8; N] }
impl<const N: usize> VxFnMut<N> {
    pub uninterp spec fn seen(&self) -> Multiset<Point<S, N>>;
    #[verifier::external_body]
    pub fn vx_call(&mut self, p: &Point<S, N>) ensures final(self).seen() == old(self).seen().insert(*p) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxFnMutMut<const N: usize> { x: [u8; N] }
impl<const N: usize> VxFnMutMut<N> {
    pub uninterp spec fn seen(&self) -> Multiset<Point<S, N>>;
    pub uninterp spec fn left(&self) -> Multiset<Point<S, N>>;
    #[verifier::external_body]
    pub fn vx_call(&mut self, p: &mut Point<S, N>) ensures final(self).seen() == old(self).seen().insert(*old(p)), final(self).left() == old(self).left().insert(*final(p)) { unimplemented!() }
}
impl<const N: usize> KDTree<S, N> {
    /// derived Default (checked: the type derives Default)
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.root is None, r.element_count == 0 { unimplemented!() }
//@fn KDTree::insert ty=KDTree name=insert props=C01,C02,C17,C18,C25
@params data
@sig fn insert(&mut self, data: Point<T, N>)
@spec
    requires N > 0, twf(*old(self)), !pnan(data), tcont(*old(self)).len() + 1 < usize::MAX,
    ensures twf(*final(self)),
        stored(tcont(*old(self)), data) ==> tcont(*final(self)) == tcont(*old(self)),
        !stored(tcont(*old(self)), data) ==> msins(tcont(*final(self)), tcont(*old(self)), data),
@start
    let ghost me = *self;
@end
    proof {
        if me.root is None { lemma_leaf(self.root->0, data, 0); assert(tcont(me) =~= Seq::<Point<S, N>>::empty()); }
        if !stored(tcont(me), data) && msins(tcont(*self), tcont(me), data) {
            lemma_ms_in(tcont(*self), tcont(me), data);
            lemma_distinct_ins(tcont(*self), tcont(me), data);
        }
    }
//@end
//@fn KDTree::len ty=KDTree name=len props=C01
@sig fn len(&self) -> (r: usize)
@spec
    requires twf(*self),
    ensures r == tcont(*self).len(),
//@end
//@fn KDTree::is_empty ty=KDTree name=is_empty props=C01
@sig fn is_empty(&self) -> (r: bool)
@spec
    requires twf(*self),
    ensures r == (tcont(*self).len() == 0),
//@end
//@fn KDTree::nearest ty=KDTree name=nearest props=C02,C17,C18,C25
@params target
@sig fn nearest(&self, target: &Point<T, N>) -> (r: Option<Point<T, N>>)
@spec
    requires N > 0, twf(*self), !pnan(*target), tcont(*self).len() < usize::MAX,
    ensures r is None <==> tcont(*self).len() == 0,
        r matches Some(p) ==> tcont(*self).contains(p) && forall|i: int| 0 <= i < tcont(*self).len() ==> dsq(p, *target) <= dsq(#[trigger] tcont(*self)[i], *target),
@start
    proof { if self.root is Some { lemma_cont(self.root->0); } }
//@end
//@fn KDTree::traverse_tree ty=KDTree name=traverse_tree props=C03
@params func
@sig fn traverse_tree(&self, func: &mut VxFnMut<N>)
@subst &mut VxFnMut => &mut VxFnMut<N>
@spec
    ensures final(func).seen() =~= old(func).seen().add(tcont(*self).to_multiset()),
@start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
//@end
//@fn KDTree::traverse_tree_mut ty=KDTree name=traverse_tree_mut props=C03
@params func
@sig fn traverse_tree_mut(&mut self, func: &mut VxFnMutMut<N>)
@subst &mut VxFnMutMut => &mut VxFnMutMut<N>
@spec
    ensures final(func).seen() =~= old(func).seen().add(tcont(*old(self)).to_multiset()),
        final(func).left() =~= old(func).left().add(tcont(*final(self)).to_multiset()),
        tcont(*final(self)).len() == tcont(*old(self)).len(), final(self).element_count == old(self).element_count,
@start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
//@end
//@fn KDTree::from ty=KDTree name=from trait=From props=C01,C02,C17,C18,C25
@params point_cloud
@sig fn from(point_cloud: &[Point<T, N>]) -> (r: Self)
@spec
    requires N > 0, nan_free(point_cloud@), point_cloud@.len() + 1 < usize::MAX,
    ensures twf(r), holds_exactly(tcont(r), point_cloud@), tcont(r).len() <= point_cloud@.len(),
@loop 0
    n0 == point_cloud@.len(), twf(acc0), holds_exactly(tcont(acc0), point_cloud@.take(i0 as int)), tcont(acc0).len() <= i0,
@loopstart 0
    let ghost before = tcont(acc0);
    proof { assert(!pnan(point_cloud@[j0 as int])); assert(point_cloud@.take(i0 as int) =~= point_cloud@.take(j0 as int).push(point_cloud@[j0 as int])); }
@loopend 0
    proof { lemma_holds_step(before, tcont(acc0), point_cloud@.take(j0 as int), point_cloud@[j0 as int]); }
@after 0
    proof { assert(point_cloud@.take(i0 as int) =~= point_cloud@); }
//@end
}
pub proof fn lemma_holds_step<const N: usize>(a: Seq<Point<S, N>>, b: Seq<Point<S, N>>, given: Seq<Point<S, N>>, p: Point<S, N>)
    requires holds_exactly(a, given), !pnan(p), (stored(a, p) && b == a) || msins(b, a, p)
    ensures holds_exactly(b, given.push(p)), b.len() <= a.len() + 1
{
    let g = given.push(p);
    assert forall|i: int| 0 <= i < given.len() implies #[trigger] given[i] == g[i] by {}
    if msins(b, a, p) {
        lemma_ms_in(b, a, p);
        assert forall|i: int| 0 <= i < g.len() implies stored(b, #[trigger] g[i]) by {
            if i == given.len() {
                let k = choose|k: int| 0 <= k < b.len() && b[k] == p;
                assert(peq(b[k], p)) by { assert forall|i: int| 0 <= i < N implies s_eq(#[trigger] p.c(i), p.c(i)) by { lemma_no_nan(p, i); } }
            } else {
                assert(stored(a, given[i]));
                let k = choose|k: int| 0 <= k < a.len() && peq(#[trigger] a[k], given[i]);
                assert(b.contains(a[k]));
                let l = choose|l: int| 0 <= l < b.len() && b[l] == a[k];
                assert(peq(b[l], g[i]));
            }
        }
        assert forall|i: int| 0 <= i < b.len() implies g.contains(#[trigger] b[i]) by {
            if b[i] == p { assert(g[given.len() as int] == p); }
            else {
                assert(a.contains(b[i]));
                let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
                assert(given.contains(a[k]));
                let l = choose|l: int| 0 <= l < given.len() && given[l] == a[k];
                assert(g[l] == b[i]);
            }
        }
    } else {
        assert forall|i: int| 0 <= i < g.len() implies stored(b, #[trigger] g[i]) by { if i < given.len() { assert(stored(a, given[i])); } }
        assert forall|i: int| 0 <= i < b.len() implies g.contains(#[trigger] b[i]) by {
            let l = choose|l: int| 0 <= l < given.len() && given[l] == a[i];
            assert(given.contains(a[i]));
            assert(g[l] == b[i]);
        }
    }
}
} // verus!
fn main() {}
