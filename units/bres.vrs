//@include head.rs seq.rs scalar.rs near.rs na.rs
//@broadcast ax_scalar, ax_near, ax_int, ax_of, lemma_init

impl AsPrimitive<usize> for S { uninterp spec fn as_spec(self) -> usize; #[verifier::external_body] fn as_(self) -> usize { unimplemented!() } }
pub open spec fn absr(x: real) -> real { if x < 0real { -x } else { x } }
/// how far rounding may have carried an error term away from the truth after k steps
#[verifier::opaque]
pub open spec fn drift(k: int) -> real { 6real * unit() * (k as real) }
/// the line is short enough for its error terms to stay on the right side of the threshold
#[verifier::opaque]
pub open spec fn short(l: real, n: int) -> bool { 6real * unit() * (l + 1real) < 1real / ((n + 1) as real) }
pub open spec fn inside<const N: usize>(p: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> 2real * absr((#[trigger] p.c(i)).r()) + 4real <= lim() }
pub proof fn lemma_drift(k: int, l: real, n: int)
    requires 0 <= k, k as real <= l, short(l, n)
    ensures drift(k + 1) == drift(k) + 6real * unit(), drift(0) == 0real, 0real <= drift(k), drift(k) + 6real * unit() < 1real / ((n + 1) as real)
{
    reveal(drift); reveal(short); ax_unit();
    let x = k as real; let u = unit();
    assert((k + 1) as real == x + 1real);
    assert(6real * u * (x + 1real) == 6real * u * x + 6real * u) by(nonlinear_arith);
    assert(6real * u * 0real == 0real) by(nonlinear_arith);
    assert(6real * u * x >= 0real) by(nonlinear_arith) requires u >= 0real, x >= 0real;
    assert(6real * u * (x + 1real) <= 6real * u * (l + 1real)) by(nonlinear_arith) requires u >= 0real, x <= l;
}
/// no NaN, every coordinate on the integer grid
pub open spec fn grid<const N: usize>(p: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> !(#[trigger] p.c(i)).nan() && isint(p.c(i).r()) }
pub open spec fn ext<const N: usize>(a: Point<S, N>, b: Point<S, N>, i: int) -> real { absr(b.c(i).r() - a.c(i).r()) }
/// an axis of longest extent
pub open spec fn longest<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int) -> bool { 0 <= p < N && forall|i: int| 0 <= i < N ==> #[trigger] ext(a, b, i) <= ext(a, b, p) }
pub open spec fn dir(x: real, y: real) -> real { if y > x { 1real } else { -1real } }
/// w, counted in the direction from sx to ex
pub open spec fn sg(sx: real, ex: real, w: real) -> real { if ex > sx { w } else { -w } }
/// on axis i, the point of the ideal segment that is k units along axis p
#[verifier::opaque]
pub open spec fn ideal<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, i: int, k: int) -> real { a.c(i).r() + (k as real) * (b.c(i).r() - a.c(i).r()) / ext(a, b, p) }
pub open spec fn near<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, q: Point<S, N>, i: int, k: int) -> bool {
    !q.c(i).nan() && (if ext(a, b, p) == 0real { q.c(i).r() == a.c(i).r() } else { absr(q.c(i).r() - ideal(a, b, p, i, k)) < 1real })
}
pub open spec fn cell<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, q: Point<S, N>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < N ==> #[trigger] near(a, b, p, q, i, k) && isint(q.c(i).r())
    &&& q.c(p).r() == a.c(p).r() + sg(a.c(p).r(), b.c(p).r(), k as real)
}
pub open spec fn near1(x: real, y: real) -> bool { x - y <= 1real && y - x <= 1real }
pub open spec fn adj<const N: usize>(q: Point<S, N>, q2: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] near1(q.c(i).r(), q2.c(i).r()) }
pub open spec fn req<const N: usize>(q: Point<S, N>, q2: Point<S, N>) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] q.c(i)).r() == q2.c(i).r() }
/// the first `n` cells of a line from a to b
pub open spec fn path<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, v: Seq<Point<S, N>>) -> bool {
    &&& v.len() > 0 ==> req(v[0], a)
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] cell(a, b, p, v[k], k)
    &&& forall|k: int| 0 <= k < v.len() - 1 ==> adj(#[trigger] v[k], v[k + 1])
}
pub open spec fn line<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, v: Seq<Point<S, N>>) -> bool {
    &&& path(a, b, p, v)
    &&& v.len() as real == ext(a, b, p) + 1real
    &&& req(v[v.len() - 1], b)
}
pub proof fn lemma_k(k: int) ensures isint(k as real), isint(0real), isint(1real) { reveal(isint); assert(k as real == tor(k)); assert(0real == tor(0)); assert(1real == tor(1)); }
pub proof fn lemma_int(x: real, y: real) requires isint(x), isint(y)
    ensures isint(x + y), isint(x - y), isint(-x), -1real < x && x < 1real ==> x == 0real, toi(x) as real == x
{
    reveal(isint);
    let a = choose|n: int| x == #[trigger] tor(n); let b = choose|n: int| y == #[trigger] tor(n);
    assert(x + y == tor(a + b)); assert(x - y == tor(a - b)); assert(-x == tor(-a));
}
/// state of one secondary axis after k steps: the error is how far the cell lags behind the ideal segment
#[verifier::opaque]
pub open spec fn lag(k: int, d: real, dp: real, m: real) -> real { (k as real) * d / dp - m }
pub open spec fn axis_ok(sx: real, ex: real, dp: real, cur: S, err: S, k: int) -> bool {
    &&& !cur.nan() && !err.nan() && isint(cur.r())
    &&& absr(err.r() - lag(k, absr(ex - sx), dp, sg(sx, ex, cur.r() - sx))) <= drift(k)
    &&& -1real < lag(k, absr(ex - sx), dp, sg(sx, ex, cur.r() - sx)) < 1real
}
pub proof fn lemma_lag(k: int, d: real, dp: real, m: real)
    requires dp > 0real, 0real <= d <= dp
    ensures lag(k + 1, d, dp, m) == lag(k, d, dp, m) + d / dp, 0real <= d / dp <= 1real, lag(0, d, dp, 0real) == 0real,
        (k as real) == dp ==> lag(k, d, dp, m) == d - m,
{
    reveal(lag);
    let x = k as real;
    assert((k + 1) as real == x + 1real);
    let q = d / dp;
    assert(q * dp == d) by(nonlinear_arith) requires q == d / dp, dp > 0real;
    assert(x * d / dp == x * q) by(nonlinear_arith) requires q == d / dp, dp > 0real;
    assert((x + 1real) * d / dp == x * q + q) by(nonlinear_arith) requires q == d / dp, dp > 0real;
    assert(0real <= q && q <= 1real) by(nonlinear_arith) requires q == d / dp, dp > 0real, 0real <= d, d <= dp;
    assert(0real * d / dp == 0real) by(nonlinear_arith) requires dp > 0real;
    if x == dp { assert(dp * d / dp == d) by(nonlinear_arith) requires dp > 0real; }
}
pub proof fn lemma_near(sx: real, ex: real, dp: real, cur: S, err: S, k: int)
    requires axis_ok(sx, ex, dp, cur, err, k), dp > 0real
    ensures absr(cur.r() - (sx + (k as real) * (ex - sx) / dp)) < 1real
{
    reveal(lag);
    let x = k as real;
    let q = x * (ex - sx) / dp;
    if ex <= sx { assert(x * (sx - ex) / dp == -q) by(nonlinear_arith) requires q == x * (ex - sx) / dp, dp > 0real; }
}
/// one step of one secondary axis
pub proof fn lemma_move(sx: real, ex: real, dp: real, cur: S, err: S, cur2: S, err2: S, k: int)
    requires axis_ok(sx, ex, dp, cur, err, k), dp > 0real, absr(ex - sx) <= dp, !cur2.nan(), !err2.nan(),
        drift(k + 1) == drift(k) + 6real * unit(),
        ({ let e = err.r() + absr(ex - sx) / dp;
            ||| e > drift(k) && cur2.r() == cur.r() + dir(sx, ex) && absr(err2.r() - (e - 1real)) <= 6real * unit()
            ||| e < 1real - drift(k) && cur2.r() == cur.r() && absr(err2.r() - e) <= 6real * unit() }),
    ensures axis_ok(sx, ex, dp, cur2, err2, k + 1), near1(cur.r(), cur2.r())
{
    reveal(lag);
    let d = absr(ex - sx);
    lemma_k(1); lemma_int(cur.r(), cur.r()); lemma_int(cur.r(), 1real);
    lemma_lag(k, d, dp, sg(sx, ex, cur.r() - sx));
    lemma_lag(k, d, dp, sg(sx, ex, cur2.r() - sx));
}
pub broadcast proof fn lemma_init(sx: real, ex: real, dp: real, cur: S, err: S, k: int)
    requires k == 0, !cur.nan(), !err.nan(), cur.r() == sx, isint(sx), err.r() == 0real, dp > 0real
    ensures #[trigger] axis_ok(sx, ex, dp, cur, err, k)
{
    reveal(lag); reveal(drift);
    assert(6real * unit() * 0real == 0real) by(nonlinear_arith);
    let d = absr(ex - sx);
    assert(0real * d / dp == 0real) by(nonlinear_arith) requires dp > 0real;
}
/// where the cell can be
pub proof fn lemma_range(sx: real, ex: real, dp: real, cur: S, err: S, k: int)
    requires axis_ok(sx, ex, dp, cur, err, k), dp > 0real, absr(ex - sx) <= dp, 0 <= k, k as real <= dp
    ensures absr(cur.r()) <= absr(sx) + 1real || absr(cur.r()) <= absr(ex) + 1real
{
    reveal(lag);
    let x = k as real; let d = absr(ex - sx); let t = x * d / dp;
    assert(0real <= t && t <= d) by(nonlinear_arith) requires t == x * d / dp, dp > 0real, 0real <= x, x <= dp, 0real <= d;
}
/// after the last step the cell is the end of the segment
pub proof fn lemma_last(sx: real, ex: real, dp: real, cur: S, err: S, k: int)
    requires axis_ok(sx, ex, dp, cur, err, k), dp > 0real, absr(ex - sx) <= dp, k as real == dp, isint(sx), isint(ex)
    ensures cur.r() == ex
{
    let d = absr(ex - sx);
    lemma_lag(k, d, dp, sg(sx, ex, cur.r() - sx));
    lemma_int(ex, sx); lemma_int(sx, ex); lemma_int(cur.r(), sx); lemma_int(sx, cur.r());
    let m = sg(sx, ex, cur.r() - sx);
    assert(isint(d) && isint(m));
    lemma_int(d, m); lemma_int(d - m, d);
}
pub open spec fn deltas_ok<const N: usize>(a: Point<S, N>, b: Point<S, N>, v: Seq<S>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> !(#[trigger] v[i]).nan() && v[i].r() == ext(a, b, i) }
pub open spec fn steps_ok<const N: usize>(a: Point<S, N>, b: Point<S, N>, v: Seq<S>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> !(#[trigger] v[i]).nan() && v[i].r() == dir(a.c(i).r(), b.c(i).r()) }
pub open spec fn best(v: Seq<S>, k: int, b: Option<(usize, &S)>) -> bool {
    if k == 0 { b is None } else { b is Some && (b->0).0 < k && *(b->0).1 == v[(b->0).0 as int] && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).r() <= (b->0).1.r() }
}
/// secondary axes below `upto` have made step k+1, the others step k
pub open spec fn mid<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, cur: Point<S, N>, err: Seq<S>, i: int, k: int) -> bool {
    i != p && ext(a, b, p) > 0real ==> axis_ok(a.c(i).r(), b.c(i).r(), ext(a, b, p), cur.c(i), err[i], k)
}
pub open spec fn copied<const N: usize>(v: Seq<S>, q: Point<S, N>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == q.c(i) }

pub proof fn lemma_cell<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, q: Point<S, N>, err: Seq<S>, k: int)
    requires grid(a), grid(b), longest(a, b, p), 0real < ext(a, b, p), 0 <= k, k as real <= ext(a, b, p),
        forall|i: int| 0 <= i < N ==> #[trigger] mid(a, b, p, q, err, i, k),
        !q.c(p).nan(), q.c(p).r() == a.c(p).r() + sg(a.c(p).r(), b.c(p).r(), k as real),
    ensures cell(a, b, p, q, k)
{
    reveal(ideal);
    assert forall|i: int| 0 <= i < N implies #[trigger] near(a, b, p, q, i, k) && isint(q.c(i).r()) by {
        assert(mid(a, b, p, q, err, i, k));
        if i != p { lemma_near(a.c(i).r(), b.c(i).r(), ext(a, b, p), q.c(i), err[i], k); }
        else {
            let x = k as real; let dp = ext(a, b, p); let w = b.c(p).r() - a.c(p).r();
            lemma_k(k);
            lemma_int(a.c(p).r(), k as real);
            assert(w > 0real ==> x * w / dp == x) by(nonlinear_arith) requires dp == absr(w), dp > 0real, absr(w) == (if w < 0real { -w } else { w });
            assert(w <= 0real ==> x * w / dp == -x) by(nonlinear_arith) requires dp == absr(w), dp > 0real, absr(w) == (if w < 0real { -w } else { w });
        }
    }
}
/// along the primary axis everything is exact
pub proof fn lemma_primary<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, q: Point<S, N>, k: int)
    requires grid(a), grid(b), inside(a), inside(b), 0 <= p < N, 0 <= k, k as real <= ext(a, b, p),
        !q.c(p).nan(), q.c(p).r() == a.c(p).r() + sg(a.c(p).r(), b.c(p).r(), k as real),
    ensures rnd(q.c(p).r() - b.c(p).r()) == q.c(p).r() - b.c(p).r(), absr(q.c(p).r() - b.c(p).r()) == ext(a, b, p) - k as real,
        (k + 1) as real <= ext(a, b, p) ==> rnd(q.c(p).r() + dir(a.c(p).r(), b.c(p).r())) == q.c(p).r() + dir(a.c(p).r(), b.c(p).r()),
        k as real != ext(a, b, p) ==> absr(q.c(p).r() - b.c(p).r()) >= 1real,
{
    let (x, y, z) = (a.c(p).r(), b.c(p).r(), q.c(p).r());
    assert(2real * absr(x) + 4real <= lim() && 2real * absr(y) + 4real <= lim());
    assert(isint(x) && isint(y));
    lemma_k(k); lemma_k(1);
    lemma_int(x, k as real); assert(isint(z));
    lemma_int(y, x); lemma_int(x, y);
    lemma_gap(ext(a, b, p), k);
    lemma_int(z, y); lemma_int(z, 1real);
    assert(isint(z - y) && isint(z + 1real) && isint(z - 1real));
    ax_int(z - y);
    if (k + 1) as real <= ext(a, b, p) { assert((k + 1) as real == k as real + 1real); if y > x { ax_int(z + 1real); } else { ax_int(z - 1real); assert(z + -1real == z - 1real); } }
}
pub proof fn lemma_gap(x: real, k: int) requires isint(x), k as real <= x ensures k as real != x ==> x - k as real >= 1real
{
    reveal(isint);
    let n = choose|n: int| x == #[trigger] tor(n);
    assert(x == n as real);
    if n != k { assert(n >= k + 1); assert(n as real >= (k + 1) as real); assert((k + 1) as real == k as real + 1real); }
}
pub proof fn lemma_end<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, q: Point<S, N>, err: Seq<S>, k: int)
    requires grid(a), grid(b), longest(a, b, p), 0 <= k, k as real <= ext(a, b, p),
        forall|i: int| 0 <= i < N ==> #[trigger] mid(a, b, p, q, err, i, k),
        !q.c(p).nan(), q.c(p).r() == a.c(p).r() + sg(a.c(p).r(), b.c(p).r(), k as real), absr(q.c(p).r() - b.c(p).r()) < 1real,
        k == 0 ==> req(q, a),
    ensures req(q, b), k as real == ext(a, b, p)
{
    lemma_k(k);
    lemma_int(b.c(p).r(), a.c(p).r());
    lemma_int(a.c(p).r(), b.c(p).r());
    lemma_int(ext(a, b, p), k as real);
    lemma_k(0); lemma_int(ext(a, b, p) - k as real, 0real);
    assert forall|i: int| 0 <= i < N implies (#[trigger] q.c(i)).r() == b.c(i).r() by {
        assert(ext(a, b, i) <= ext(a, b, p));
        assert(mid(a, b, p, q, err, i, k));
        if k > 0 && i != p { lemma_last(a.c(i).r(), b.c(i).r(), ext(a, b, p), q.c(i), err[i], k); }
        if k == 0 { assert(q.c(i).r() == a.c(i).r()); }
    }
}

/// the same place
pub proof fn lemma_copy<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int, q: Point<S, N>, q2: Point<S, N>, k: int)
    requires cell(a, b, p, q, k), req(q, q2), 0 <= p < N, forall|i: int| 0 <= i < N ==> !(#[trigger] q2.c(i)).nan()
    ensures cell(a, b, p, q2, k)
{
    assert forall|i: int| 0 <= i < N implies #[trigger] near(a, b, p, q2, i, k) && isint(q2.c(i).r()) by { assert(near(a, b, p, q, i, k)); assert(q.c(i).r() == q2.c(i).r()); }
    assert(q.c(p).r() == q2.c(p).r());
}
pub proof fn lemma_zero<const N: usize>(a: Point<S, N>, b: Point<S, N>, p: int)
    requires grid(a), grid(b), longest(a, b, p), ext(a, b, p) <= 0real
    ensures cell(a, b, p, b, 0)
{
    assert forall|i: int| 0 <= i < N implies #[trigger] near(a, b, p, b, i, 0) && isint(b.c(i).r()) by { assert(ext(a, b, i) <= 0real); }
    assert(ext(a, b, p) <= 0real);
}
//@fn plot_bresenham_line props=C10
@params start_point end_point
@sig fn plot_bresenham_line<const N: usize>(start_point: Point<S, N>, end_point: Point<S, N>) -> (r: Vec<Point<S, N>>)
@spec
    requires grid(start_point), grid(end_point), inside(start_point), inside(end_point), 0 < N < usize::MAX,
        forall|p: int| 0 <= p < N ==> short(#[trigger] ext(start_point, end_point, p), N as int)
    ensures exists|p: int| #[trigger] longest(start_point, end_point, p) && line(start_point, end_point, p, r@)
@start
    let ghost c0 = 1real / ((N + 1) as real);
    assert((N + 1) as real >= 2real);
    assert(0real < c0 && c0 <= 1real / 2real) by(nonlinear_arith) requires c0 == 1real / ((N + 1) as real), (N + 1) as real >= 2real;
@loop 0
    deltas_ok(start_point, end_point, b0.v@, i0 as int),
@loopstart 0
    proof { lemma_int(end_point.c(j0 as int).r(), start_point.c(j0 as int).r()); assert(2real * absr(start_point.c(j0 as int).r()) + 4real <= lim() && 2real * absr(end_point.c(j0 as int).r()) + 4real <= lim()); }
    assert(!start_point.c(j0 as int).nan() && !end_point.c(j0 as int).nan());
@loop 1
    steps_ok(start_point, end_point, b1.v@, i1 as int),
@loopstart 1
    assert(!start_point.c(j1 as int).nan() && !end_point.c(j1 as int).nan());
@loop 2
    best(deltas@, i2 as int, acc2),
@after 2
    proof {
        let p = (acc2->0).0 as int;
        assert forall|i: int| 0 <= i < N implies #[trigger] ext(start_point, end_point, i) <= ext(start_point, end_point, p) by { assert(deltas@[i].r() <= deltas@[p].r()); }
        assert(longest(start_point, end_point, p));
    }
@loop 3
    longest(start_point, end_point, primary_axis as int),
    points@.len() as real <= ext(start_point, end_point, primary_axis as int),
    errors@.len() == N,
    forall|i: int| 0 <= i < N ==> #[trigger] mid(start_point, end_point, primary_axis as int, current_point, errors@, i, points@.len() as int),
    !current_point.c(primary_axis as int).nan(),
    current_point.c(primary_axis as int).r() == start_point.c(primary_axis as int).r() + sg(start_point.c(primary_axis as int).r(), end_point.c(primary_axis as int).r(), points@.len() as real),
    path(start_point, end_point, primary_axis as int, points@),
    points@.len() > 0 ==> adj(points@[points@.len() - 1], current_point),
    points@.len() == 0 ==> req(current_point, start_point),
    decreases toi(ext(start_point, end_point, primary_axis as int)) - points@.len()
@loopstart 3
    let ghost k = points@.len() as int;
    let ghost cur0 = current_point;
    let ghost mut cur5 = current_point;
    proof {
        let p = primary_axis as int;
        lemma_primary(start_point, end_point, p, current_point, k);
        lemma_cell(start_point, end_point, p, current_point, errors@, k);
        lemma_drift(k, ext(start_point, end_point, p), N as int);
    }
@loopend 3
    proof {
        let p = primary_axis as int;
        assert((k + 1) as real == k as real + 1real);
        let q = points@[k];
        assert forall|i: int| 0 <= i < N implies (#[trigger] q.c(i)) == cur0.c(i) && !q.c(i).nan() by { assert(near(start_point, end_point, p, cur0, i, k)); }
        lemma_copy(start_point, end_point, p, cur0, q, k);
        assert forall|i: int| 0 <= i < N && i != p implies #[trigger] current_point.c(i) == cur5.c(i) by {}
        assert forall|i: int| 0 <= i < N implies #[trigger] mid(start_point, end_point, p, current_point, errors@, i, k + 1) by { assert(mid(start_point, end_point, p, cur5, errors@, i, k + 1)); }
        assert forall|i: int| 0 <= i < N implies #[trigger] near1(q.c(i).r(), current_point.c(i).r()) by { assert(near1(cur0.c(i).r(), cur5.c(i).r())); }
        if k > 0 { assert forall|i: int| 0 <= i < N implies #[trigger] near1(points@[k - 1].c(i).r(), q.c(i).r()) by { assert(near1(points@[k - 1].c(i).r(), cur0.c(i).r())); } }
        if k == 0 { assert(req(q, start_point)); }
        assert(adj(q, current_point));
        assert(path(start_point, end_point, p, points@));
        lemma_int(start_point.c(p).r(), end_point.c(p).r()); lemma_int(end_point.c(p).r(), start_point.c(p).r());
        lemma_int(ext(start_point, end_point, p), ext(start_point, end_point, p));
    }
@after 3
    proof {
        let p = primary_axis as int; let k = points@.len() as int;
        lemma_primary(start_point, end_point, p, current_point, k);
        lemma_end(start_point, end_point, p, current_point, errors@, k);
        assert(cell(start_point, end_point, p, end_point, k)) by {
            if ext(start_point, end_point, p) > 0real { lemma_cell(start_point, end_point, p, current_point, errors@, k); lemma_copy(start_point, end_point, p, current_point, end_point, k); }
            else { lemma_zero(start_point, end_point, p); }
        }
    }
@loop 5
    drift(k + 1) == drift(k) + 6real * unit(), 0real <= drift(k), drift(k) + 6real * unit() < c0, c0 <= 1real / 2real, (k + 1) as real <= ext(start_point, end_point, primary_axis as int),
    errors@.len() == N, forall|i: int| 0 <= i < i5 ==> #[trigger] mid(start_point, end_point, primary_axis as int, current_point, errors@, i, k + 1),
    forall|i: int| i5 <= i < N ==> #[trigger] mid(start_point, end_point, primary_axis as int, current_point, errors@, i, k),
    forall|i: int| 0 <= i < N && i != primary_axis ==> #[trigger] near1(cur0.c(i).r(), current_point.c(i).r()),
    current_point.c(primary_axis as int) == cur0.c(primary_axis as int),
    forall|i: int| i5 <= i < N ==> #[trigger] current_point.c(i) == cur0.c(i),
@loopstart 5
    let ghost (cur1, err1) = (current_point, errors@);
    proof {
        assert(mid(start_point, end_point, primary_axis as int, current_point, errors@, j5 as int, k));
        assert(2real * absr(start_point.c(j5 as int).r()) + 4real <= lim() && 2real * absr(end_point.c(j5 as int).r()) + 4real <= lim());
        if j5 != primary_axis {
            assert(ext(start_point, end_point, j5 as int) <= ext(start_point, end_point, primary_axis as int));
            assert(-2real <= err1[j5 as int].r() <= 2real);
            ax_unit();
            lemma_range(start_point.c(j5 as int).r(), end_point.c(j5 as int).r(), ext(start_point, end_point, primary_axis as int), current_point.c(j5 as int), errors@[j5 as int], k);
            lemma_k(1); lemma_int(current_point.c(j5 as int).r(), 1real);
            ax_int(current_point.c(j5 as int).r() + dir(start_point.c(j5 as int).r(), end_point.c(j5 as int).r()));
            lemma_lag(k, ext(start_point, end_point, j5 as int), ext(start_point, end_point, primary_axis as int), 0real);
        }
    }
@loopend 5
    proof {
        let p = primary_axis as int;
        if j5 != primary_axis {
            let q = ext(start_point, end_point, j5 as int) / ext(start_point, end_point, p);
            let e = err1[j5 as int].r() + q;
            assert(0real <= q <= 1real);
            assert(c0 <= 1real / 2real);
            assert(1real - unit() * 2real - c0 <= rnd(1real - rnd(c0)) <= 1real + unit() * 2real - c0);
            assert(e - 2real * unit() <= rnd(err1[j5 as int].r() + rnd(q)) <= e + 2real * unit());
            assert(current_point.c(j5 as int).r() != cur1.c(j5 as int).r() ==> e > drift(k));
            assert(current_point.c(j5 as int).r() == cur1.c(j5 as int).r() ==> e < 1real - drift(k));
            lemma_move(start_point.c(j5 as int).r(), end_point.c(j5 as int).r(), ext(start_point, end_point, p), cur1.c(j5 as int), err1[j5 as int], current_point.c(j5 as int), errors@[j5 as int], k);
        }
        assert forall|i: int| 0 <= i < N && i != j5 implies #[trigger] current_point.c(i) == cur1.c(i) && errors@[i] == err1[i] by {}
        assert forall|i: int| i5 <= i < N implies #[trigger] current_point.c(i) == cur0.c(i) by { assert(cur1.c(i) == cur0.c(i)); }
        assert forall|i: int| 0 <= i < i5 implies #[trigger] mid(start_point, end_point, p, current_point, errors@, i, k + 1) by {
            if i < j5 { assert(mid(start_point, end_point, p, cur1, err1, i, k + 1)); assert(current_point.c(i) == cur1.c(i)); }
        }
        assert forall|i: int| i5 <= i < N implies #[trigger] mid(start_point, end_point, p, current_point, errors@, i, k) by {
            assert(mid(start_point, end_point, p, cur1, err1, i, k)); assert(current_point.c(i) == cur1.c(i));
        }
        assert forall|i: int| 0 <= i < N && i != p implies #[trigger] near1(cur0.c(i).r(), current_point.c(i).r()) by {
            assert(near1(cur0.c(i).r(), cur1.c(i).r()));
            if i != j5 { assert(current_point.c(i) == cur1.c(i)); } else { assert(cur1.c(i) == cur0.c(i)); }
        }
    }
@after 5
    proof { cur5 = current_point; }
@loop 4
    copied(b4.v@, current_point, i4 as int),
@loop 6
    copied(b6.v@, end_point, i6 as int),
@end
    proof {
        let p = primary_axis as int; let v = points@; let k = v.len() - 1; let q = v[k];
        assert forall|i: int| 0 <= i < N implies (#[trigger] q.c(i)) == end_point.c(i) && !q.c(i).nan() by {}
        lemma_copy(start_point, end_point, p, end_point, q, k);
        if k > 0 { assert forall|i: int| 0 <= i < N implies #[trigger] near1(v[k - 1].c(i).r(), q.c(i).r()) by { assert(near1(v[k - 1].c(i).r(), current_point.c(i).r())); assert(current_point.c(i).r() == end_point.c(i).r()); } }
        if k == 0 { assert forall|i: int| 0 <= i < N implies (#[trigger] q.c(i)).r() == start_point.c(i).r() by { assert(current_point.c(i).r() == end_point.c(i).r()); assert(current_point.c(i).r() == start_point.c(i).r()); } }
        assert(path(start_point, end_point, p, v));
        assert((k + 1) as real == k as real + 1real);
        assert(line(start_point, end_point, p, v));
    }
//@end
} // verus!
fn main() {}
