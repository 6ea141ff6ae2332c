// ---- units/chainspec.rs: the monotone chain ----
/// how much of the chain c (its first n vertices) survives the arrival of p
pub open spec fn keep(c: Seq<V2>, p: V2, n: int) -> int decreases n { if n > 1 && orient(c[n - 2], c[n - 1], p) <= 0real { keep(c, p, n - 1) } else { n } }
pub open spec fn grow(c: Seq<V2>, p: V2) -> Seq<V2> { c.take(keep(c, p, c.len() as int)).push(p) }
/// the chain of the first k points of m
pub open spec fn chain_of(m: Seq<V2>, k: int) -> Seq<V2> decreases k { if k <= 0 { Seq::empty() } else { grow(chain_of(m, k - 1), m[k - 1]) } }
/// the upper chain and the lower chain, each without its last vertex
pub open spec fn hull_of(m: Seq<V2>) -> Seq<V2> {
    let (u, w) = (chain_of(m, m.len() as int), chain_of(m.reverse(), m.len() as int));
    u.take(u.len() - 1) + w.take(w.len() - 1)
}
pub open spec fn cyc(h: Seq<V2>, i: int) -> V2 { if i < h.len() { h[i] } else { h[i - h.len()] } }
/// h is the strictly convex clockwise hull of d from the lexicographic minimum on
pub open spec fn hull_ok(d: Seq<V2>, h: Seq<V2>) -> bool {
    &&& h.len() >= 3
    &&& forall|i: int| 0 <= i < h.len() ==> d.contains(#[trigger] h[i])
    &&& forall|p: V2| d.contains(p) ==> #[trigger] le(true, h[0], p)
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] turns(h, i)
    &&& forall|i: int, p: V2| 0 <= i < h.len() && d.contains(p) ==> #[trigger] orient(cyc(h, i), cyc(h, i + 1), p) >= 0real
}
pub open spec fn turns(h: Seq<V2>, i: int) -> bool { orient(cyc(h, i), cyc(h, i + 1), cyc(h, i + 2)) > 0real }
pub open spec fn sorted(up: bool, m: Seq<V2>) -> bool { forall|i: int, j: int| 0 <= i <= j < m.len() ==> #[trigger] le(up, m[i], m[j]) }
pub open spec fn right_of(m: Seq<V2>, k: int, a: V2, b: V2) -> bool { forall|j: int| 0 <= j < k ==> orient(a, b, #[trigger] m[j]) >= 0real }
pub open spec fn convex(c: Seq<V2>) -> bool { forall|i: int| 0 <= i < c.len() - 2 ==> #[trigger] turn3(c, i) }
pub open spec fn turn3(c: Seq<V2>, i: int) -> bool { orient(c[i], c[i + 1], c[i + 2]) > 0real }
pub open spec fn step_at(up: bool, c: Seq<V2>, i: int) -> bool { lt(up, c[i], c[i + 1]) }
pub open spec fn edge_at(m: Seq<V2>, k: int, c: Seq<V2>, i: int) -> bool { right_of(m, k, c[i], c[i + 1]) }
pub open spec fn all_same(m: Seq<V2>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] m[j] == m[0] }
pub open spec fn chain(up: bool, m: Seq<V2>, k: int, c: Seq<V2>) -> bool {
    &&& 1 <= k <= m.len() && c.len() >= 1 && (c.len() == 1 <==> k == 1)
    &&& c[0] == m[0] && c[c.len() - 1] == m[k - 1]
    &&& forall|i: int| 0 <= i < c.len() ==> m.contains(#[trigger] c[i])
    &&& convex(c)
    &&& (forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_at(up, c, i)) || (c.len() == 2 && all_same(m, k))
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] edge_at(m, k, c, i)
}
pub proof fn lemma_keep(c: Seq<V2>, p: V2, n: int) requires 1 <= n <= c.len()
    ensures ({ let k = keep(c, p, n); 1 <= k <= n && (k < n ==> orient(c[k - 1], c[k], p) <= 0real) && (k > 1 ==> orient(c[k - 2], c[k - 1], p) > 0real) }) decreases n
{ if n > 1 && orient(c[n - 2], c[n - 1], p) <= 0real { lemma_keep(c, p, n - 1); } }
/// a convex chain that turns strictly towards q at its end sees q strictly on its right everywhere
pub proof fn lemma_visible(up: bool, c: Seq<V2>, q: V2, n: int, i: int)
    requires 0 <= i < n - 1, n <= c.len(), convex(c), forall|j: int| 0 <= j < n - 1 ==> #[trigger] step_at(up, c, j), le(up, c[n - 1], q), orient(c[n - 2], c[n - 1], q) > 0real
    ensures orient(c[i], c[i + 1], q) > 0real, le(up, c[i + 1], q) decreases n - i
{
    if i < n - 2 {
        lemma_visible(up, c, q, n, i + 1);
        assert(turn3(c, i)); assert(step_at(up, c, i)); assert(step_at(up, c, i + 1));
        lemma_bend(up, c[i], c[i + 1], c[i + 2], q);
        lemma_order(up, c[i + 1], c[i + 2], q);
    }
}
pub proof fn lemma_bend(up: bool, a: V2, b: V2, c: V2, q: V2)
    requires lt(up, a, b), lt(up, b, c), le(up, c, q), orient(a, b, c) > 0real, orient(b, c, q) > 0real
    ensures orient(a, b, q) > 0real
{
    let (e, f, g, h) = (dirv(up, a, b), dirv(up, b, c), dirv(up, c, q), dirv(up, b, q));
    lemma_orient(up, a, b, c); lemma_orient(up, b, c, q); lemma_orient(up, a, b, q);
    lemma_cr(e, f); lemma_cr(f, g); lemma_cr(e, g);
    lemma_half(g, f, e);
    let z = V2 { x: -f.x, y: -f.y };
    assert(vec(z, g) == h);
    lemma_cr_diff(e, z, g);
    assert(e.x * (-f.y) == -(e.x * f.y) && e.y * (-f.x) == -(e.y * f.x)) by(nonlinear_arith);
}
pub proof fn lemma_new_edge(up: bool, m: Seq<V2>, k: int, c: Seq<V2>, j: int)
    requires chain(up, m, k, c), sorted(up, m), k < m.len(), 0 <= j < k, forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_at(up, c, i)
    ensures ({ let v = c[keep(c, m[k], c.len() as int) - 1]; orient(v, m[k], m[j]) >= 0real })
{
    let (q, p) = (m[k], m[j]);
    let n = keep(c, q, c.len() as int);
    lemma_keep(c, q, c.len() as int);
    let v = c[n - 1];
    lemma_order(up, v, p, q);
    assert(le(up, m[j], m[k - 1]) && le(up, m[0], m[j]));
    lemma_orient(up, v, q, p);
    if v == p { lemma_same3(v, q); }
    else if le(up, v, p) {
        assert(n < c.len());
        let w = c[n];
        assert(edge_at(m, k, c, n - 1)); assert(orient(v, w, m[j]) >= 0real);
        let (e, f, g) = (dirv(up, v, w), dirv(up, v, q), dirv(up, v, p));
        lemma_orient(up, v, w, q); lemma_orient(up, v, w, p);
        lemma_cr(e, g); lemma_cr(f, g);
        assert(step_at(up, c, n - 1));
        lemma_le_upto(up, m, k, c, n);
        lemma_order(up, v, w, q);
        lemma_half(g, e, f);
    } else {
        assert(n > 1);
        let u = c[n - 2];
        assert(edge_at(m, k, c, n - 2)); assert(orient(u, v, m[j]) >= 0real);
        let (e, f, g) = (dirv(up, u, v), dirv(up, v, q), dirv(up, p, v));
        lemma_orient(up, u, v, q); lemma_orient(up, u, v, p);
        lemma_cr(e, f);
        assert(step_at(up, c, n - 2));
        lemma_le_upto(up, m, k, c, n - 1);
        lemma_half(f, e, g);
    }
}
/// chain vertices come no later than the next point
pub proof fn lemma_le_upto(up: bool, m: Seq<V2>, k: int, c: Seq<V2>, i: int)
    requires chain(up, m, k, c), sorted(up, m), k < m.len(), 0 <= i < c.len(), forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_at(up, c, i)
    ensures le(up, c[i], m[k]) decreases c.len() - i
{
    if i == c.len() - 1 { assert(le(up, m[k - 1], m[k])); }
    else { lemma_le_upto(up, m, k, c, i + 1); assert(step_at(up, c, i)); lemma_order(up, c[i], c[i + 1], m[k]); }
}
pub proof fn lemma_same3(a: V2, q: V2) ensures orient(a, q, a) == 0real, orient(a, q, q) == 0real, orient(a, a, q) == 0real {
    lemma_orient(true, a, q, a); let d = vec(a, q);
    assert(d.x * 0real == 0real && d.y * 0real == 0real && 0real * d.x == 0real && 0real * d.y == 0real);
}
pub proof fn lemma_grow(up: bool, m: Seq<V2>, k: int, c: Seq<V2>)
    requires chain(up, m, k, c), sorted(up, m), k < m.len()
    ensures chain(up, m, k + 1, grow(c, m[k]))
{
    let q = m[k];
    let n = keep(c, q, c.len() as int);
    lemma_keep(c, q, c.len() as int);
    let r = grow(c, q);
    let v = c[n - 1];
    assert(r.len() == n + 1 && r[n] == q && r[n - 1] == v);
    assert(m.contains(m[k]));
    assert forall|i: int| 0 <= i < r.len() implies m.contains(#[trigger] r[i]) by { if i < n { assert(r[i] == c[i]); } }
    lemma_same3(v, q);
    if forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_at(up, c, i) {
        lemma_le_upto(up, m, k, c, n - 1);
        assert forall|i: int| 0 <= i < r.len() - 2 implies #[trigger] turn3(r, i) by { if i < n - 2 { assert(turn3(c, i)); } }
        if v == q {
            if n < c.len() { assert(step_at(up, c, n - 1)); lemma_le_upto(up, m, k, c, n); lemma_order(up, v, c[n], q); assert(false); }
            if n > 1 { lemma_same3(c[n - 2], v); assert(false); }
            assert(k == 1);
            assert(all_same(m, 2));
        } else {
            assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] step_at(up, r, i) by { if i < n - 1 { assert(step_at(up, c, i)); } }
        }
        assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] edge_at(m, k + 1, r, i) by {
            assert forall|j: int| 0 <= j < k + 1 implies orient(r[i], r[i + 1], #[trigger] m[j]) >= 0real by {
                if i == n - 1 { if j < k { lemma_new_edge(up, m, k, c, j); } }
                else if j < k { assert(edge_at(m, k, c, i)); }
                else { lemma_visible(up, c, q, n, i); }
            }
        }
    } else {
        assert(c.len() == 2 && all_same(m, k));
        assert(m[k - 1] == m[0]);
        lemma_same3(c[0], q);
        assert(n == 1);
        assert(le(up, m[0], m[k]));
        if v == q { assert(all_same(m, k + 1)); } else { assert(step_at(up, r, 0)); }
        assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] edge_at(m, k + 1, r, i) by {
            assert forall|j: int| 0 <= j < k + 1 implies orient(r[i], r[i + 1], #[trigger] m[j]) >= 0real by { if j < k { assert(m[j] == m[0]); } }
        }
    }
}
pub proof fn lemma_chain(up: bool, m: Seq<V2>, k: int) requires sorted(up, m), 1 <= k <= m.len() ensures chain(up, m, k, chain_of(m, k)) decreases k {
    if k > 1 { lemma_chain(up, m, k - 1); lemma_grow(up, m, k - 1, chain_of(m, k - 1)); }
    else {
        assert(chain_of(m, 0) == Seq::<V2>::empty());
        assert(chain_of(m, 1) =~= seq![m[0]]);
        assert(m.contains(m[0]));
    }
}
/// all points of a sequence lie on the right of an edge
pub open spec fn guards(m: Seq<V2>, a: V2, b: V2) -> bool { forall|p: V2| m.contains(p) ==> #[trigger] orient(a, b, p) >= 0real }
/// a vertex z with the supporting edges x -> z and z -> w, both x and w before z (in some direction): a strict corner unless everything is collinear
pub proof fn lemma_corner(up: bool, m: Seq<V2>, x: V2, z: V2, w: V2)
    requires lt(up, x, z), lt(up, w, z), guards(m, x, z), guards(m, z, w), m.contains(w), m.contains(x), !collinear(m)
    ensures orient(x, z, w) > 0real
{
    if orient(x, z, w) == 0real {
        let (e, f) = (dirv(up, x, z), dirv(up, w, z));
        lemma_orient(up, x, z, w);
        assert forall|p: V2| m.contains(p) implies #[trigger] orient(x, z, p) == 0real by {
            assert(orient(x, z, p) >= 0real && orient(z, w, p) >= 0real);
            let g = dirv(up, p, z);
            lemma_orient(up, x, z, p); lemma_orient(up, z, w, p); lemma_orient(up, w, z, p);
            lemma_ray(e, f, g);
        }
        lemma_flat(m, x, z);
    }
    assert(orient(x, z, w) >= 0real);
}
pub proof fn lemma_guards(m: Seq<V2>, c: Seq<V2>, i: int) requires edge_at(m, m.len() as int, c, i) ensures guards(m, c[i], c[i + 1]) {
    assert forall|p: V2| m.contains(p) implies #[trigger] orient(c[i], c[i + 1], p) >= 0real by { let j = choose|j: int| 0 <= j < m.len() && m[j] == p; assert(orient(c[i], c[i + 1], m[j]) >= 0real); }
}
pub proof fn lemma_guards_same(a: Seq<V2>, b: Seq<V2>, x: V2, y: V2) requires guards(a, x, y), same_set(a, b) ensures guards(b, x, y) {}
pub proof fn lemma_collinear_same(a: Seq<V2>, b: Seq<V2>) requires same_set(a, b) ensures collinear(a) == collinear(b) {}
pub proof fn lemma_reverse(m: Seq<V2>) requires sorted(true, m) ensures sorted(false, m.reverse()), same_set(m, m.reverse()) {
    let r = m.reverse();
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies #[trigger] le(false, r[i], r[j]) by { let n = m.len() as int; assert(le(true, m[n - 1 - j], m[n - 1 - i])); }
    assert forall|p: V2| m.contains(p) <==> r.contains(p) by {
        if m.contains(p) { let j = choose|j: int| 0 <= j < m.len() && m[j] == p; assert(r[m.len() - 1 - j] == p); }
        if r.contains(p) { let j = choose|j: int| 0 <= j < r.len() && r[j] == p; assert(m[m.len() - 1 - j] == p); }
    }
}
pub proof fn lemma_short(m: Seq<V2>, c: Seq<V2>, i: int) requires collinear(m), convex(c), forall|i: int| 0 <= i < c.len() ==> m.contains(#[trigger] c[i]) ensures c.len() <= 2 {
    if c.len() > 2 { assert(turn3(c, 0)); assert(orient(c[0], c[1], c[2]) == 0real); }
}
pub proof fn lemma_all_same(m: Seq<V2>) requires all_same(m, m.len() as int) ensures collinear(m) {
    assert forall|a: V2, b: V2, c: V2| m.contains(a) && m.contains(b) && m.contains(c) implies #[trigger] orient(a, b, c) == 0real by { assert(a == m[0] && b == m[0]); lemma_same3(a, c); }
}
/// the two chains make the hull, and are short exactly when everything is collinear
pub proof fn lemma_hull(m: Seq<V2>) requires sorted(true, m), m.len() >= 1
    ensures ({ let (u, w) = (chain_of(m, m.len() as int), chain_of(m.reverse(), m.len() as int)); u.len() >= 1 && w.len() >= 1 && (u.len() + w.len() - 2 <= 2 <==> collinear(m)) }),
        !collinear(m) ==> hull_ok(m, hull_of(m))
{
    let n = m.len() as int;
    let r = m.reverse();
    lemma_reverse(m); lemma_collinear_same(m, r);
    lemma_chain(true, m, n); lemma_chain(false, r, n);
    let (u, w) = (chain_of(m, n), chain_of(r, n));
    if collinear(m) { lemma_short(m, u, 0); lemma_short(r, w, 0); }
    else {
        assert(!all_same(m, n)) by { if all_same(m, n) { lemma_all_same(m); } }
        assert(!all_same(r, n)) by { if all_same(r, n) { lemma_all_same(r); } }
        assert(n >= 2) by { if n == 1 { assert(all_same(m, n)); } }
        assert(r[0] == m[n - 1] && r[n - 1] == m[0]);
        let (a, b) = (u.len() as int, w.len() as int);
        let h = hull_of(m);
        assert(h.len() == a + b - 2);
        assert(u[a - 1] == w[0] && w[b - 1] == u[0]);
        assert forall|i: int| 0 <= i < a - 1 implies guards(m, #[trigger] u[i], u[i + 1]) by { assert(edge_at(m, n, u, i)); lemma_guards(m, u, i); }
        assert forall|i: int| 0 <= i < b - 1 implies guards(m, #[trigger] w[i], w[i + 1]) by { assert(edge_at(r, n, w, i)); lemma_guards(r, w, i); lemma_guards_same(r, m, w[i], w[i + 1]); }
        assert(step_at(true, u, a - 2)); assert(step_at(true, u, 0)); assert(step_at(false, w, 0)); assert(step_at(false, w, b - 2));
        let (x, z, y) = (u[a - 2], u[a - 1], w[1]);
        assert(m.contains(x) && m.contains(y)) by { assert(r.contains(w[1])); }
        lemma_order(true, y, z, z);
        lemma_corner(true, m, x, z, y);
        let (x2, z2, y2) = (w[b - 2], w[b - 1], u[1]);
        assert(m.contains(x2) && m.contains(y2)) by { assert(r.contains(w[b - 2])); }
        lemma_order(false, y2, z2, z2);
        lemma_corner(false, m, x2, z2, y2);
        if a == 2 && b == 2 {
            assert forall|p: V2| m.contains(p) implies #[trigger] orient(u[0], u[1], p) == 0real by {
                assert(guards(m, u[0], u[1])); assert(guards(m, w[0], w[1]));
                assert(orient(u[0], u[1], p) >= 0real && orient(w[0], w[1], p) >= 0real);
                lemma_orient(true, u[0], u[1], p);
            }
            lemma_flat(m, u[0], u[1]);
        }
        assert forall|i: int| 0 <= i < w.len() implies m.contains(#[trigger] w[i]) by { assert(r.contains(w[i])); }
        lemma_hull_in(m, u, w, h); lemma_hull_turns(m, u, w, h); lemma_hull_edges(m, u, w, h);
        assert forall|p: V2| m.contains(p) implies #[trigger] le(true, h[0], p) by { let j = choose|j: int| 0 <= j < m.len() && m[j] == p; assert(le(true, m[0], m[j])); assert(h[0] == u[0]); }
    }
}
/// h is the upper chain u and the lower chain w, each without its last vertex
pub open spec fn joins(u: Seq<V2>, w: Seq<V2>, h: Seq<V2>) -> bool { u.len() >= 2 && w.len() >= 2 && u.len() + w.len() - 2 >= 3 && u[u.len() - 1] == w[0] && w[w.len() - 1] == u[0] && h == u.take(u.len() - 1) + w.take(w.len() - 1) }
pub proof fn lemma_cyc(u: Seq<V2>, w: Seq<V2>, h: Seq<V2>) requires joins(u, w, h)
    ensures forall|i: int| 0 <= i <= u.len() - 1 ==> #[trigger] cyc(h, i) == u[i], forall|i: int| u.len() - 1 <= i <= u.len() + w.len() - 2 ==> #[trigger] cyc(h, i) == w[i - (u.len() - 1)], cyc(h, u.len() + w.len() - 1) == u[1]
{
    assert forall|i: int| u.len() - 1 <= i <= u.len() + w.len() - 2 implies #[trigger] cyc(h, i) == w[i - (u.len() - 1)] by { if i == u.len() + w.len() - 2 { assert(h[0] == u[0]); } }
}
pub proof fn lemma_hull_in(m: Seq<V2>, u: Seq<V2>, w: Seq<V2>, h: Seq<V2>) requires joins(u, w, h), forall|i: int| 0 <= i < u.len() ==> m.contains(#[trigger] u[i]), forall|i: int| 0 <= i < w.len() ==> m.contains(#[trigger] w[i])
    ensures forall|i: int| 0 <= i < h.len() ==> m.contains(#[trigger] h[i])
{
    assert forall|i: int| 0 <= i < h.len() implies m.contains(#[trigger] h[i]) by { if i < u.len() - 1 { assert(h[i] == u[i]); } else { assert(h[i] == w[i - (u.len() - 1)]); } }
}
pub proof fn lemma_hull_turns(m: Seq<V2>, u: Seq<V2>, w: Seq<V2>, h: Seq<V2>)
    requires joins(u, w, h), convex(u), convex(w), orient(u[u.len() - 2], u[u.len() - 1], w[1]) > 0real, orient(w[w.len() - 2], w[w.len() - 1], u[1]) > 0real
    ensures forall|i: int| 0 <= i < h.len() ==> #[trigger] turns(h, i)
{
    lemma_cyc(u, w, h);
    let (a, b) = (u.len() as int, w.len() as int);
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] turns(h, i) by {
        if i + 2 <= a - 1 { assert(turn3(u, i)); assert(cyc(h, i) == u[i] && cyc(h, i + 1) == u[i + 1] && cyc(h, i + 2) == u[i + 2]); }
        else if i + 1 == a - 1 { assert(cyc(h, i) == u[a - 2] && cyc(h, i + 1) == u[a - 1] && cyc(h, i + 2) == w[1]); }
        else if i + 2 <= a + b - 2 { let k = i - (a - 1); assert(turn3(w, k)); assert(cyc(h, i) == w[k] && cyc(h, i + 1) == w[k + 1] && cyc(h, i + 2) == w[k + 2]); }
        else { assert(i == a + b - 3); assert(cyc(h, i) == w[b - 2] && cyc(h, i + 1) == w[b - 1] && cyc(h, i + 2) == u[1]); }
    }
}
pub proof fn lemma_hull_edges(m: Seq<V2>, u: Seq<V2>, w: Seq<V2>, h: Seq<V2>)
    requires joins(u, w, h), forall|i: int| 0 <= i < u.len() - 1 ==> guards(m, #[trigger] u[i], u[i + 1]), forall|i: int| 0 <= i < w.len() - 1 ==> guards(m, #[trigger] w[i], w[i + 1])
    ensures forall|i: int, p: V2| 0 <= i < h.len() && m.contains(p) ==> #[trigger] orient(cyc(h, i), cyc(h, i + 1), p) >= 0real
{
    lemma_cyc(u, w, h);
    let a = u.len() as int;
    assert forall|i: int, p: V2| 0 <= i < h.len() && m.contains(p) implies #[trigger] orient(cyc(h, i), cyc(h, i + 1), p) >= 0real by {
        if i + 1 <= a - 1 { assert(guards(m, u[i], u[i + 1])); assert(cyc(h, i) == u[i] && cyc(h, i + 1) == u[i + 1]); }
        else { let k = i - (a - 1); assert(guards(m, w[k], w[k + 1])); assert(cyc(h, i) == w[k] && cyc(h, i + 1) == w[k + 1]); }
    }
}
