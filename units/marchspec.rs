// ---- units/marchspec.rs: gift wrapping ----
/// h goes once around the hull of d: from the lexicographic minimum up to the maximum and back down, no vertex twice, no point left of an edge
pub open spec fn walk(d: Seq<V2>, h: Seq<V2>) -> bool {
    &&& h.len() >= 3
    &&& forall|i: int| 0 <= i < h.len() ==> d.contains(#[trigger] h[i])
    &&& forall|p: V2| d.contains(p) ==> #[trigger] le(true, h[0], p)
    &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> #[trigger] h[i] != #[trigger] h[j]
    &&& exists|t: int| #[trigger] up_down(h, t)
    &&& forall|i: int, p: V2| 0 <= i < h.len() && d.contains(p) ==> #[trigger] orient(cycm(h, i), cycm(h, i + 1), p) >= 0real
}
pub open spec fn cycm(h: Seq<V2>, i: int) -> V2 { if i < h.len() { h[i] } else { h[i - h.len()] } }
pub open spec fn goes(up: bool, h: Seq<V2>, i: int) -> bool { lt(up, h[i], h[i + 1]) }
pub open spec fn up_down(h: Seq<V2>, t: int) -> bool {
    0 <= t < h.len() && (forall|i: int| 0 <= i < t ==> #[trigger] goes(true, h, i)) && (forall|i: int| t <= i < h.len() - 1 ==> #[trigger] goes(false, h, i))
}
pub open spec fn guards(m: Seq<V2>, a: V2, b: V2) -> bool { forall|p: V2| m.contains(p) ==> #[trigger] orient(a, b, p) >= 0real }
pub open spec fn first_of(m: Seq<V2>, v: V2) -> bool { m.contains(v) && forall|p: V2| m.contains(p) ==> #[trigger] le(true, v, p) }
pub open spec fn last_of(m: Seq<V2>, v: V2) -> bool { forall|p: V2| m.contains(p) ==> #[trigger] le(true, p, v) }

// ---- one sweep ----
pub open spec fn neg(u: V2) -> V2 { V2 { x: -u.x, y: -u.y } }
/// all points lie to the right of the line through v along d
pub open spec fn held(m: Seq<V2>, v: V2, d: V2) -> bool { nz(d) && forall|p: V2| m.contains(p) ==> #[trigger] cr(d, vec(v, p)) <= 0real }
/// w points straight back against d
pub open spec fn behind(d: V2, w: V2) -> bool { nz(w) && cr(d, w) == 0real && fw(w) != fw(d) }
/// x is the first value of m other than v
pub open spec fn next_of(m: Seq<V2>, v: V2, x: V2) -> bool { exists|j: int| #[trigger] next_at(m, v, j) && m[j] == x }
pub open spec fn next_at(m: Seq<V2>, v: V2, j: int) -> bool { 0 <= j < m.len() && m[j] != v && forall|i: int| 0 <= i < j ==> m[i] == v }
pub open spec fn twice(m: Seq<V2>, i: int) -> V2 { if i < m.len() { m[i] } else { m[i - m.len()] } }
pub open spec fn ahead(m: Seq<V2>, v: V2, e: V2, k: int) -> bool { forall|j: int| 0 <= j < k ==> cr(vec(v, e), vec(v, #[trigger] m[j])) <= 0real }
pub open spec fn on_line(m: Seq<V2>, v: V2, d: V2, k: int) -> bool { forall|j: int| 0 <= j < k ==> cr(d, vec(v, #[trigger] m[j])) == 0real }
pub open spec fn same_as(m: Seq<V2>, v: V2, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] m[j] == v }
pub open spec fn upto(m: Seq<V2>, i: int) -> int { if i < m.len() { i } else { m.len() as int } }
pub open spec fn swept(m: Seq<V2>, v: V2, d: V2, i: int, e: V2) -> bool {
    &&& m.contains(e)
    &&& if e == v { same_as(m, v, upto(m, i)) } else if behind(d, vec(v, e)) { on_line(m, v, d, upto(m, i)) } else { ahead(m, v, e, i - m.len()) }
    &&& e != v && collinear(m) ==> next_of(m, v, e)
}
pub open spec fn better(v: V2, e: V2, p: V2) -> bool { e == v || orient(v, e, p) < 0real }
pub proof fn lemma_neg(u: V2, w: V2) ensures cr(neg(u), w) == -cr(u, w), cr(u, neg(w)) == -cr(u, w), nz(u) ==> (fw(neg(u)) <==> !fw(u)), nz(neg(u)) == nz(u) {
    assert((-u.x) * w.y == -(u.x * w.y) && (-u.y) * w.x == -(u.y * w.x) && u.x * (-w.y) == -(u.x * w.y) && u.y * (-w.x) == -(u.y * w.x)) by(nonlinear_arith);
}
/// parallel vectors: the same way or straight back
pub proof fn lemma_par(d: V2, w: V2, g: V2) requires nz(d), nz(w), cr(d, w) == 0real
    ensures behind(d, w) ==> (cr(w, g) <= 0real <==> cr(d, g) >= 0real) && (cr(w, g) >= 0real <==> cr(d, g) <= 0real),
        !behind(d, w) ==> (cr(w, g) <= 0real <==> cr(d, g) <= 0real) && (cr(w, g) >= 0real <==> cr(d, g) >= 0real)
{
    let d1 = if fw(d) { d } else { neg(d) };
    let w1 = if fw(w) { w } else { neg(w) };
    lemma_neg(d, d); lemma_neg(w, w); lemma_neg(d, g); lemma_neg(w, g); lemma_neg(d, w1); lemma_neg(d, w);
    assert(cr(d1, w1) == 0real);
    lemma_neg(d, neg(w)); 
    lemma_ray(d1, w1, g);
}
/// four vectors: the one identity behind angular order
pub proof fn lemma_four(d: V2, e: V2, p: V2, q: V2) ensures cr(d, e) * cr(p, q) == cr(d, p) * cr(e, q) - cr(d, q) * cr(e, p) {
    lemma_plucker(p, e, q);
    let (a, b, c) = (cr(p, q), cr(e, q), cr(p, e));
    lemma_cr(p, e);
    let (f, g) = (cr(d, p), cr(d, q));
    // e * a == p * b + q * c; cross with d
    assert(e.x * a == p.x * b + q.x * c && e.y * a == p.y * b + q.y * c);
    let (l, m) = (d.x * e.y, d.y * e.x);
    assert((l - m) * a == l * a - m * a) by(nonlinear_arith);
    assert(l * a == d.x * (e.y * a)) by(nonlinear_arith) requires l == d.x * e.y;
    assert(m * a == d.y * (e.x * a)) by(nonlinear_arith) requires m == d.y * e.x;
    assert(d.x * (p.y * b + q.y * c) == d.x * (p.y * b) + d.x * (q.y * c)) by(nonlinear_arith);
    assert(d.y * (p.x * b + q.x * c) == d.y * (p.x * b) + d.y * (q.x * c)) by(nonlinear_arith);
    assert(d.x * (p.y * b) == (d.x * p.y) * b && d.y * (p.x * b) == (d.y * p.x) * b && d.x * (q.y * c) == (d.x * q.y) * c && d.y * (q.x * c) == (d.y * q.x) * c) by(nonlinear_arith);
    let (r, s, t, u) = (d.x * p.y, d.y * p.x, d.x * q.y, d.y * q.x);
    assert((r - s) * b == r * b - s * b) by(nonlinear_arith);
    assert((t - u) * c == t * c - u * c) by(nonlinear_arith);
    assert(g * c == -(g * (-c))) by(nonlinear_arith);
}
pub proof fn lemma_turn(v: V2, e: V2, p: V2) ensures orient(v, e, p) == -cr(vec(v, e), vec(v, p)) { lemma_orient(true, v, e, p); }
pub proof fn lemma_self(d: V2, v: V2) ensures cr(d, vec(v, v)) == 0real, cr(vec(v, v), d) == 0real { assert(d.x * 0real == 0real && d.y * 0real == 0real && 0real * d.x == 0real && 0real * d.y == 0real); }
/// replacing e by p keeps what e had ahead of it
pub proof fn lemma_replace(m: Seq<V2>, v: V2, d: V2, e: V2, p: V2, k: int)
    requires held(m, v, d), m.contains(e), m.contains(p), e != v, !behind(d, vec(v, e)), ahead(m, v, e, k), k <= m.len(), orient(v, e, p) < 0real
    ensures p != v, !behind(d, vec(v, p)), ahead(m, v, p, k), cr(vec(v, p), vec(v, p)) == 0real
{
    let (we, wp) = (vec(v, e), vec(v, p));
    lemma_turn(v, e, p); lemma_self(we, v); lemma_cr(wp, wp); lemma_cr(we, wp);
    assert(cr(d, we) <= 0real && cr(d, wp) <= 0real);
    if cr(d, we) == 0real { lemma_par(d, we, wp); assert(false); }
    if behind(d, wp) { lemma_par(d, wp, we); assert(false); }
    assert forall|j: int| 0 <= j < k implies cr(wp, vec(v, #[trigger] m[j])) <= 0real by {
        assert(m.contains(m[j]));
        let wq = vec(v, m[j]);
        assert(cr(we, wq) <= 0real && cr(d, wq) <= 0real);
        lemma_four(d, we, wp, wq);
        lemma_four_signs(cr(d, we), cr(wp, wq), cr(d, wp), cr(we, wq), cr(d, wq), cr(we, wp));
    }
}
pub proof fn lemma_four_signs(a: real, x: real, b: real, c: real, f: real, g: real) requires a < 0real, b <= 0real, c <= 0real, f <= 0real, g > 0real, a * x == b * c - f * g ensures x <= 0real {
    assert(b * c >= 0real) by(nonlinear_arith) requires b <= 0real, c <= 0real;
    assert(f * g <= 0real) by(nonlinear_arith) requires f <= 0real, g > 0real;
    assert(x <= 0real) by(nonlinear_arith) requires a < 0real, a * x >= 0real;
}
pub proof fn lemma_sweep(m: Seq<V2>, v: V2, d: V2, i: int, e: V2, p: V2, e2: V2)
    requires held(m, v, d), m.contains(v), swept(m, v, d, i, e), 0 <= i < 2 * m.len(), p == twice(m, i), e2 == (if better(v, e, p) { p } else { e })
    ensures swept(m, v, d, i + 1, e2)
{
    let n = m.len() as int;
    assert(m.contains(p)) by { assert(m[if i < n { i } else { i - n }] == p); }
    let (we, wp) = (vec(v, e), vec(v, p));
    lemma_turn(v, e, p); lemma_cr(we, wp);
    if e == v {
        if i >= n { assert(m[i - n] == v); assert(p == v); }
        lemma_self(d, v);
        if p != v && collinear(m) { assert(next_at(m, v, i)); }
    } else {
        if collinear(m) { assert(orient(v, e, p) == 0real); }
        if behind(d, we) {
            lemma_par(d, we, wp);
            assert(cr(d, wp) <= 0real);
            if orient(v, e, p) < 0real {
                if i >= n { assert(cr(d, vec(v, m[i - n])) == 0real); assert(false); }
                lemma_self(d, v);
            }
        } else if orient(v, e, p) < 0real {
            lemma_replace(m, v, d, e, p, i - n);
        }
    }
}
pub proof fn lemma_swept(m: Seq<V2>, v: V2, d: V2, e: V2) requires held(m, v, d), m.contains(v), swept(m, v, d, 2 * (m.len() as int), e)
    ensures e == v ==> collinear(m), e != v ==> guards(m, v, e)
{
    if e == v {
        assert(all_at(m, v));
        lemma_all_at(m, v);
    } else {
        let we = vec(v, e);
        assert forall|p: V2| m.contains(p) implies #[trigger] orient(v, e, p) >= 0real by {
            let j = choose|j: int| 0 <= j < m.len() && m[j] == p;
            lemma_turn(v, e, p);
            if behind(d, we) { assert(cr(d, vec(v, m[j])) == 0real); lemma_par(d, we, vec(v, p)); } else { assert(cr(we, vec(v, m[j])) <= 0real); }
        }
    }
}
pub open spec fn all_at(m: Seq<V2>, v: V2) -> bool { forall|j: int| 0 <= j < m.len() ==> #[trigger] m[j] == v }
pub proof fn lemma_all_at(m: Seq<V2>, v: V2) requires all_at(m, v) ensures collinear(m) {
    assert forall|a: V2, b: V2, c: V2| m.contains(a) && m.contains(b) && m.contains(c) implies #[trigger] orient(a, b, c) == 0real by { assert(a == v && b == v && c == v); lemma_turn(v, v, v); lemma_self(vec(v, v), v); }
}

// ---- the walk ----
/// the path so far, p[t] its peak
pub open spec fn tour(m: Seq<V2>, p: Seq<V2>, t: int) -> bool { up_down(p, t) && (t < p.len() - 1 ==> last_of(m, p[t])) }
/// h has been visited and v is next
pub open spec fn marching(m: Seq<V2>, h: Seq<V2>, v: V2) -> bool {
    let p = h.push(v);
    &&& first_of(m, p[0])
    &&& forall|i: int| 0 <= i < p.len() ==> m.contains(#[trigger] p[i])
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] leg(m, p, i)
    &&& forall|i: int| 1 <= i < p.len() ==> #[trigger] p[i] != p[0]
    &&& if collinear(m) { stuck(m, h, v) } else { exists|t: int| #[trigger] tour(m, p, t) }
}
pub open spec fn leg(m: Seq<V2>, p: Seq<V2>, i: int) -> bool { p[i] != p[i + 1] && guards(m, p[i], p[i + 1]) }
/// with all points on one line the march goes back and forth between the first two values
pub open spec fn stuck(m: Seq<V2>, h: Seq<V2>, v: V2) -> bool {
    &&& h.len() == 1 ==> next_of(m, h[0], v)
    &&& h.len() >= 2 ==> h[0] != m[0] && (v == m[0] || next_of(m, m[0], v)) && forall|x: V2| #[trigger] next_of(m, m[0], x) ==> x != h[0]
}
pub open spec fn incoming(h: Seq<V2>, v: V2) -> V2 { if h.len() == 0 { V2 { x: 0real, y: 1real } } else { vec(h[h.len() - 1], v) } }
pub proof fn lemma_held(m: Seq<V2>, h: Seq<V2>, v: V2) requires marching(m, h, v) ensures held(m, v, incoming(h, v)), m.contains(v) {
    let p = h.push(v);
    let d = incoming(h, v);
    assert(m.contains(p[h.len() as int]));
    if h.len() > 0 { assert(leg(m, p, h.len() - 1)); }
    assert forall|q: V2| m.contains(q) implies #[trigger] cr(d, vec(v, q)) <= 0real by {
        if h.len() == 0 { assert(p[0] == v); assert(le(true, v, q)); assert(0real * (q.y - v.y) == 0real && 1real * (q.x - v.x) == q.x - v.x); }
        else { let u = h[h.len() - 1]; assert(guards(m, u, v)); assert(orient(u, v, q) >= 0real); lemma_orient(true, u, v, q); }
    }
}
/// edges that come into h from both sides
pub proof fn lemma_pinch(m: Seq<V2>, a: V2, h: V2, b: V2) requires lt(true, a, h), lt(true, h, b), guards(m, a, h), guards(m, b, h), m.contains(a), m.contains(b) ensures collinear(m) {
    let (e, f) = (vec(a, h), vec(h, b));
    lemma_orient(true, a, h, b); lemma_orient(true, b, h, a); lemma_orient(true, a, b, h);
    assert(orient(a, h, b) >= 0real && orient(b, h, a) >= 0real);
    lemma_cr(e, f);
    assert forall|p: V2| m.contains(p) implies #[trigger] orient(a, h, p) == 0real by {
        assert(orient(a, h, p) >= 0real && orient(b, h, p) >= 0real);
        lemma_orient(true, a, h, p); lemma_orient(true, b, h, p); lemma_orient(true, h, b, p);
        let g = vec(h, p);
        lemma_neg(f, g);
        assert(vec(b, h) == neg(f));
        lemma_ray(e, f, g);
    }
    lemma_flat(m, a, h);
}
/// the walk turns back only at the extreme point
pub proof fn lemma_apex(up: bool, m: Seq<V2>, u: V2, v: V2, e: V2, z: V2)
    requires lt(up, u, v), lt(up, e, v), lt(up, v, z), guards(m, u, v), guards(m, v, e), m.contains(u), m.contains(e), m.contains(z)
    ensures collinear(m)
{
    let (a, f, g) = (dirv(up, u, v), dirv(up, e, v), dirv(up, v, z));
    lemma_orient(up, u, v, z); lemma_orient(up, v, e, z); lemma_orient(up, e, v, z); lemma_orient(up, u, v, e);
    assert(orient(u, v, z) >= 0real && orient(v, e, z) >= 0real && orient(u, v, e) >= 0real);
    lemma_cr(a, g); lemma_cr(a, f); lemma_cr(f, g);
    // cr(a, g) <= 0, cr(f, g) >= 0, cr(a, f) >= 0
    lemma_half(g, a, f);
    // cr(g, f) >= 0: so cr(f, g) == 0
    lemma_ray(f, g, a);
    assert(cr(a, f) == 0real);
    assert forall|p: V2| m.contains(p) implies #[trigger] orient(u, v, p) == 0real by {
        assert(orient(u, v, p) >= 0real && orient(v, e, p) >= 0real);
        let w = dirv(up, v, p);
        lemma_orient(up, u, v, p); lemma_orient(up, v, e, p); lemma_orient(up, e, v, p);
        lemma_ray(a, f, w);
    }
    lemma_flat(m, u, v);
}
pub proof fn lemma_first_leg(m: Seq<V2>, p: Seq<V2>, i: int) requires first_of(m, p[0]), 0 < i < p.len(), forall|i: int| 0 <= i < p.len() ==> m.contains(#[trigger] p[i]), p[i] != p[0] ensures lt(true, p[0], p[i]) {
    assert(m.contains(p[i])); assert(le(true, p[0], p[i]));
}
pub proof fn lemma_tour_step(m: Seq<V2>, h: Seq<V2>, v: V2, e: V2) requires marching(m, h, v), !collinear(m), guards(m, v, e), e != v, m.contains(e), e != h.push(v)[0]
    ensures exists|t: int| #[trigger] tour(m, h.push(v).push(e), t)
{
    let p = h.push(v);
    let q = p.push(e);
    let t = choose|t: int| #[trigger] tour(m, p, t);
    let n = p.len() as int;
    assert(p[n - 1] == v && q[n] == e && q[n - 1] == v);
    assert forall|i: int| 0 <= i < n - 1 implies goes(true, q, i) == goes(true, p, i) && goes(false, q, i) == goes(false, p, i) by {}
    assert(m.contains(p[n - 1]));
    if n >= 2 { assert(leg(m, p, n - 2)); assert(m.contains(p[n - 2])); }
    lemma_order(true, v, e, e);
    if t == n - 1 {
        assert forall|i: int| 0 <= i < t implies #[trigger] goes(true, q, i) by { assert(goes(true, p, i)); }
        if le(true, v, e) {
            assert(goes(true, q, n - 1));
            assert(tour(m, q, n));
        } else {
            if n == 1 { assert(le(true, p[0], e)); assert(false); }
            assert(goes(true, p, n - 2));
            assert(goes(false, q, n - 1));
            assert forall|z: V2| m.contains(z) implies #[trigger] le(true, z, v) by { lemma_order(true, z, v, v); if !le(true, z, v) { lemma_apex(true, m, p[n - 2], v, e, z); } }
            assert(tour(m, q, n - 1));
        }
    } else {
        assert(goes(false, p, n - 2));
        if le(true, v, e) {
            assert(p[n - 1] != p[0]);
            lemma_order(true, p[n - 2], v, v);
            lemma_first_leg(m, p, n - 1);
            lemma_apex(false, m, p[n - 2], v, e, p[0]);
            assert(false);
        }
        assert(goes(false, q, n - 1));
        assert forall|i: int| 0 <= i < t implies #[trigger] goes(true, q, i) by { assert(goes(true, p, i)); }
        assert forall|i: int| t <= i < n implies #[trigger] goes(false, q, i) by { if i < n - 1 { assert(goes(false, p, i)); } }
        assert(tour(m, q, t));
    }
}
pub proof fn lemma_mono(up: bool, p: Seq<V2>, i: int, j: int) requires 0 <= i < j < p.len(), forall|k: int| i <= k < j ==> #[trigger] goes(up, p, k) ensures lt(up, p[i], p[j]) decreases j - i {
    if j > i + 1 { lemma_mono(up, p, i, j - 1); assert(goes(up, p, j - 1)); lemma_order(up, p[i], p[j - 1], p[j]); lemma_order(up, p[j - 1], p[j], p[j]); } else { assert(goes(up, p, i)); }
}
pub proof fn lemma_distinct(m: Seq<V2>, h: Seq<V2>, v: V2) requires marching(m, h, v), !collinear(m)
    ensures ({ let p = h.push(v); forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j] }), h.len() + 1 <= m.len()
{
    let p = h.push(v);
    let t = choose|t: int| #[trigger] tour(m, p, t);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by {
        if j <= t { lemma_mono(true, p, i, j); }
        else if i >= t { lemma_mono(false, p, i, j); }
        else if i == 0 { }
        else if p[i] == p[j] {
            assert(leg(m, p, i - 1)); assert(leg(m, p, j - 1));
            assert(goes(true, p, i - 1)); assert(goes(false, p, j - 1));
            assert(m.contains(p[i - 1]) && m.contains(p[j - 1]));
            lemma_pinch(m, p[i - 1], p[i], p[j - 1]);
        }
    }
    let f = Seq::new(p.len(), |i: int| m.index_of(p[i]));
    assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < m.len() && m[f[i]] == p[i] by { assert(m.contains(p[i])); }
    lemma_pigeon(f, m.len() as int);
}
/// one more vertex
pub proof fn lemma_march(m: Seq<V2>, h: Seq<V2>, v: V2, e: V2)
    requires marching(m, h, v), swept(m, v, incoming(h, v), 2 * (m.len() as int), e), e != h.push(v)[0]
    ensures marching(m, h.push(v), e), !collinear(m) ==> h.len() + 2 <= m.len()
{
    lemma_held(m, h, v);
    lemma_swept(m, v, incoming(h, v), e);
    let p = h.push(v);
    let q = p.push(e);
    let n = p.len() as int;
    if e == v { lemma_stay(m, h, v, e); }
    assert forall|i: int| 0 <= i < q.len() implies m.contains(#[trigger] q[i]) by { if i < n { assert(q[i] == p[i]); } }
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] leg(m, q, i) by { if i < n - 1 { assert(leg(m, p, i)); } }
    assert forall|i: int| 1 <= i < q.len() implies #[trigger] q[i] != q[0] by { if i < n { assert(p[i] != p[0]); } }
    if collinear(m) { lemma_stuck(m, h, v, e); }
    else { lemma_tour_step(m, h, v, e); lemma_distinct(m, p, e); }
}
/// when nothing but v is there, v is the start
pub proof fn lemma_stay(m: Seq<V2>, h: Seq<V2>, v: V2, e: V2) requires marching(m, h, v), swept(m, v, incoming(h, v), 2 * (m.len() as int), e), e == v ensures e == h.push(v)[0] {
    let p = h.push(v);
    assert(same_as(m, v, m.len() as int));
    assert(m.contains(p[0]));
    let j = choose|j: int| 0 <= j < m.len() && m[j] == p[0];
    assert(m[j] == v);
}
pub proof fn lemma_next(m: Seq<V2>, v: V2, x: V2, y: V2) requires next_of(m, v, x) ensures next_of(m, v, y) ==> x == y, v != m[0] ==> x == m[0], x != v, m.len() > 0 {
    let i = choose|i: int| #[trigger] next_at(m, v, i) && m[i] == x;
    if v != m[0] { if i > 0 { assert(m[0] == v); } }
    if next_of(m, v, y) {
        let j = choose|j: int| #[trigger] next_at(m, v, j) && m[j] == y;
        if i < j { assert(m[i] == v); } else if j < i { assert(m[j] == v); }
    }
}
pub proof fn lemma_stuck(m: Seq<V2>, h: Seq<V2>, v: V2, e: V2)
    requires marching(m, h, v), collinear(m), next_of(m, v, e), e != h.push(v)[0] ensures stuck(m, h.push(v), e)
{
    let p = h.push(v);
    lemma_next(m, v, e, e);
    if h.len() == 1 {
        assert(p[0] == h[0]);
        lemma_next(m, h[0], v, v);
        assert(h[0] != m[0]);
        assert(v == m[0]);
        assert forall|x: V2| #[trigger] next_of(m, m[0], x) implies x != p[0] by { lemma_next(m, v, e, x); }
    }
    if h.len() >= 2 { assert(p[0] == h[0]); }
}
/// the walk is back at its start
pub proof fn lemma_close(m: Seq<V2>, h: Seq<V2>, v: V2, e: V2)
    requires marching(m, h, v), swept(m, v, incoming(h, v), 2 * (m.len() as int), e), e == h.push(v)[0]
    ensures ({ let p = h.push(v); (p.len() < 3 <==> collinear(m)) && (p.len() >= 3 ==> walk(m, p)) })
{
    lemma_held(m, h, v);
    lemma_swept(m, v, incoming(h, v), e);
    let p = h.push(v);
    let n = p.len() as int;
    if collinear(m) {
        if n >= 3 {
            assert(p[0] == h[0]);
            if e == v { assert(p[n - 1] != p[0]); }
            lemma_next(m, v, e, e);
            if v == m[0] { assert(next_of(m, m[0], e)); } else { assert(e == m[0]); }
            assert(false);
        }
    } else {
        if n == 1 { assert(p[0] == v); assert(e == v); assert(false); }
        if n == 2 {
            assert(leg(m, p, 0));
            assert forall|q: V2| m.contains(q) implies #[trigger] orient(p[0], v, q) == 0real by { assert(guards(m, p[0], v) && guards(m, v, e)); assert(orient(p[0], v, q) >= 0real && orient(v, e, q) >= 0real); lemma_orient(true, p[0], v, q); }
            lemma_flat(m, p[0], v);
        }
        lemma_distinct(m, h, v);
        let t = choose|t: int| #[trigger] tour(m, p, t);
        assert(up_down(p, t));
        assert forall|i: int, q: V2| 0 <= i < p.len() && m.contains(q) implies #[trigger] orient(cycm(p, i), cycm(p, i + 1), q) >= 0real by {
            if i < n - 1 { assert(leg(m, p, i)); assert(cycm(p, i) == p[i] && cycm(p, i + 1) == p[i + 1]); } else { assert(cycm(p, i) == v && cycm(p, i + 1) == e); assert(guards(m, v, e)); }
        }
    }
}
