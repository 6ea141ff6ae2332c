use crate::core::*;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::*;

type Iso<T, const N: usize> = Isometry<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N>;

// ------------------------------------------------------------------ C16
macro_rules! c16 { ($c:expr, $t:ty, $n:literal) => {{
    let c: &mut Ctx = $c;
    let e = <$t>::EPSILON;
    let a: Vec<Point<$t, $n>> = (0..4).map(|k| Point::from(std::array::from_fn(|i| (k * (i + 1)) as $t))).collect();
    let b: Vec<Point<$t, $n>> = (0..5).map(|k| Point::from(std::array::from_fn(|i| (k * k + i) as $t))).collect();
    let invalid = |r: &ICPError<$t, $n>| matches!(r, ICPError::SourcePointCloudEmpty | ICPError::TargetPointCloudEmpty | ICPError::IterationNumIsZero | ICPError::MSEIntervalThreshold | ICPError::MSEAbsoluteThreshold);
    let vals = [<$t>::NEG_INFINITY, -1.0, -e, -0.0, 0.0, <$t>::MIN_POSITIVE, e / 2.0, e, e * 1.5, e * 2.0, 0.01, 1.0, 1e30, <$t>::MAX, <$t>::INFINITY, <$t>::NAN];
    for bits in 0..16 {
        for interval in vals {
            for abs in vals.iter().map(|v| Some(*v)).chain([None]) {
                let iters = if bits & 4 != 0 { 0 } else { [1usize, 2, 7][c.rng.below(3)] };
                let conf = call(|| ICPConfiguration::<$t>::builder().with_max_iterations(iters).with_mse_interval_threshold(interval).with_absolute_mse_threshold(abs).with_kd_tree(bits & 8 != 0).build())?;
                let (pa, pb): (&[Point<$t, $n>], &[Point<$t, $n>]) = (if bits & 1 != 0 { &[] } else { &a }, if bits & 2 != 0 { &[] } else { &b });
                c.case(format!("icp ({}, {}D), {} source and {} target points, {iters} iterations, interval threshold {interval:?}, absolute threshold {abs:?}, KD-tree {}", stringify!($t), $n, pa.len(), pb.len(), bits & 8 != 0), true);
                let r = call(|| icp(pa, pb, conf))?.map(|s| s.mse);
                let want: Option<ICPError<$t, $n>> = if pa.is_empty() { Some(ICPError::SourcePointCloudEmpty) }
                    else if pb.is_empty() { Some(ICPError::TargetPointCloudEmpty) }
                    else if iters == 0 { Some(ICPError::IterationNumIsZero) }
                    else if interval <= e { Some(ICPError::MSEIntervalThreshold) }
                    else if abs.map_or(false, |v| v != v || v <= e) { Some(ICPError::MSEAbsoluteThreshold) }
                    else { None };
                match (&want, &r) {
                    (Some(w), Err(g)) if w == g => {}
                    (None, Ok(_)) => {}
                    (None, Err(g)) if !invalid(g) => {}
                    _ => return fail(format!("{r:?}, expected {want:?}")),
                }
            }
        }
    }
}} }
/// valid arguments with coordinates that are not numbers, or not finite: whatever comes of it, none of the five refusals
macro_rules! c16_odd { ($c:expr, $t:ty) => {{
    let c: &mut Ctx = $c;
    for odd in [<$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::MAX] {
        for at in 0..8 {
            for bits in 0..4 {
                let mut a: Vec<Point<$t, 2>> = (0..4).map(|k| Point::from([k as $t, (k * k) as $t])).collect();
                let mut b = a.clone();
                if at < 4 { a[at % 2][at / 2] = odd } else { b[at % 2][at / 2 - 2] = odd }
                let conf = call(|| ICPConfiguration::<$t>::builder().with_max_iterations(1 + at % 2).with_kd_tree(bits & 1 != 0).with_absolute_mse_threshold(if bits & 2 != 0 { Some(0.5) } else { None }).build())?;
                c.case(format!("icp ({}) of {a:?} and {b:?}, {} iterations, absolute threshold {}, KD-tree {}", stringify!($t), 1 + at % 2, bits & 2 != 0, bits & 1 != 0), true);
                if let Ok(Err(e)) = std::panic::catch_unwind(|| icp(&a, &b, conf)) {
                    ensure(!matches!(e, ICPError::SourcePointCloudEmpty | ICPError::TargetPointCloudEmpty | ICPError::IterationNumIsZero | ICPError::MSEIntervalThreshold | ICPError::MSEAbsoluteThreshold), || format!("refused with {e:?}"))?;
                }
            }
        }
    }
}} }
pub fn c16(c: &mut Ctx) -> Res {
    c.rule("every combination of empty clouds, zero iterations, 16 interval and 17 absolute thresholds around machine epsilon (with NaN and infinities), with and without KD-tree, f32/f64, 2D/3D, and clouds with NaN, infinite and huge coordinates in 2D; every case is non-trivial");
    c16!(c, f32, 2);
    c16!(c, f64, 3);
    c16!(c, f64, 2);
    c16!(c, f32, 3);
    c16_odd!(c, f32);
    c16_odd!(c, f64);
    Ok(())
}

// ------------------------------------------------------------------ inputs
fn cloud<const N: usize>(c: &mut Ctx, n: usize, s: f64) -> Vec<Point<f64, N>> {
    (0..n).map(|_| Point::from(std::array::from_fn(|_| c.rng.f(-s, s)))).collect()
}
fn iso2(c: &mut Ctx, s: f64) -> Isometry2<f64> {
    Isometry2::new(Vector2::new(c.rng.f(-s, s), c.rng.f(-s, s)), c.rng.f(-s, s))
}
fn iso3(c: &mut Ctx, s: f64) -> Isometry3<f64> {
    let mut v = || c.rng.f(-s, s);
    Isometry3::new(Vector3::new(v(), v(), v()), Vector3::new(v(), v(), v()))
}
struct Setup<const N: usize> {
    a: Vec<Point<f64, N>>,
    b: Vec<Point<f64, N>>,
}
/// clouds in various relations: moved copy, noisy copy, mirrored copy, unrelated
fn setup<const N: usize>(c: &mut Ctx, mv: &dyn Fn(&Point<f64, N>) -> Point<f64, N>) -> Setup<N> {
    let max = if c.rng.chance(1, 400) { 400 } else if c.rng.chance(1, 5) { 40 } else { 14 };
    let n = 1 + c.rng.below(max);
    let a = cloud::<N>(c, n, 10.0);
    let mut b: Vec<Point<f64, N>> = match c.rng.below(4) {
        0 => a.iter().map(mv).collect(),
        1 => a.iter().map(|p| mv(p) + SVector::<f64, N>::from_fn(|_, _| c.rng.f(-0.3, 0.3))).collect(),
        2 => a.iter().map(|p| { let mut q = *p; q[0] = -q[0]; q }).collect(),
        _ => cloud::<N>(c, 1 + n / 2, 10.0),
    };
    for i in (1..b.len()).rev() {
        let j = c.rng.below(i + 1);
        b.swap(i, j);
    }
    Setup { a, b }
}

// ------------------------------------------------------------------ C17
macro_rules! c17 { ($name:ident, $t:ty, $n:literal) => {
    fn $name(c: &mut Ctx, a: &[Point<f64, $n>], b: &[Point<f64, $n>], iters: usize, interval: f64, abs: Option<f64>, kd: bool) -> Result<usize, Fail> {
        let cv = |v: &[Point<f64, $n>]| v.iter().map(|p| Point::from(std::array::from_fn(|i| p[i] as $t))).collect::<Vec<Point<$t, $n>>>();
        let (a, b, interval, abs) = (cv(a), cv(b), interval as $t, abs.map(|v| v as $t));
        c.case(format!("icp {}D ({}): {} source points {:?}, {} target points {:?}, {iters} iterations, interval {interval:?}, absolute {abs:?}, KD-tree {kd}", $n, stringify!($t), a.len(), &a[..a.len().min(60)], b.len(), &b[..b.len().min(60)]), true);
        let conf = call(|| ICPConfiguration::<$t>::builder().with_kd_tree(kd).with_max_iterations(iters).with_mse_interval_threshold(interval).with_absolute_mse_threshold(abs).build())?;
        let got = call(|| icp(&a, &b, conf.clone()))?;
        let tree = if kd { Some(call(|| KDTree::from(b.as_slice()))?) } else { None };
        let mut pts = a.clone();
        let mut t: Iso<$t, $n> = Isometry::identity();
        let mut mse = <$t>::MAX;
        for k in 0..iters {
            if let Ok(e) = call(|| icp_iteration::<$t, $n>(&a, &mut pts, &b, tree.as_ref(), &mut t, &mut mse, &conf))? {
                return match got {
                    Ok(g) => ensure(g.transform == t && g.mse == e && g.iteration_num == k, || format!("iteration {} with error {} and transform {:?}; stepping by hand converges at iteration {k} with {e} and {t:?}", g.iteration_num, g.mse, g.transform)).map(|_| k),
                    Err(g) => fail(format!("{g:?}; stepping by hand converges at iteration {k}")),
                };
            }
        }
        ensure(matches!(got, Err(ICPError::AlrogithmDidNotConverge)), || format!("{got:?}; stepping by hand does not converge within {iters} iterations"))?;
        Ok(iters)
    }
} }
c17!(c17_2, f64, 2);
c17!(c17_3, f64, 3);
c17!(c17_2s, f32, 2);
c17!(c17_3s, f32, 3);
/// points along a wave, and a stretch of them further along: the alignment creeps
fn creep<const N: usize>(c: &mut Ctx, n: usize, m: usize, by: f64) -> (Vec<Point<f64, N>>, Vec<Point<f64, N>>) {
    let (w, h) = (c.rng.f(0.2, 0.5), c.rng.f(0.3, 1.0));
    let f = |x: f64| Point::from(std::array::from_fn(|i| match i { 0 => x, 1 => (x * w).sin() * h, _ => (x * 0.7 * w).cos() * h }));
    ((0..m).map(|k| f(k as f64 * 0.31 + by)).collect::<Vec<_>>().iter().map(|p: &Point<f64, N>| { let mut q = *p; q[0] += 1.5; q }).collect(), (0..n).map(|k| f(k as f64 * 0.013)).collect())
}
pub fn c17(c: &mut Ctx) -> Res {
    c.rule("random clouds of 1-40 points against moved, noisy, mirrored and unrelated targets, 2D and 3D, f32 and f64, six iteration limits, six interval and five absolute thresholds, with and without KD-tree, and slowly creeping alignments of up to several hundred iterations; compared with stepping icp_iteration by hand; every case is non-trivial");
    let mut longest = 0;
    for k in 0..c.rounds(4) {
        if !c.time_left() {
            break;
        }
        let (n, m, by) = (900 + c.rng.below(300), 20 + c.rng.below(15), c.rng.f(1.0, 3.0));
        let iters = [2000, 300, 50, 257][k % 4];
        let kd = k % 3 == 0;
        longest = longest.max(if k % 2 == 0 {
            let (a, b) = creep::<2>(c, n, m, by);
            c17_2(c, &a, &b, iters, 1e-12, None, kd)?
        } else {
            let (a, b) = creep::<3>(c, n, m, by);
            c17_3(c, &a, &b, iters, 1e-12, None, kd)?
        });
    }
    for k in 0..2 {
        // the same far more slowly: thousands of iterations
        let (w, h) = (c.rng.f(0.2, 0.4), [0.22, 0.3][k]);
        let f = |x: f64| Point2::new(x, (x * w).sin() * h);
        let a: Vec<Point2<f64>> = (0..20).map(|k| { let mut q = f(k as f64 * 0.31 + 2.0); q[0] += 2.5; q }).collect();
        let mut b: Vec<Point2<f64>> = (0..12_000).map(|k| f(k as f64 * 0.001)).collect();
        for i in (1..b.len()).rev() {
            let j = c.rng.below(i + 1);
            b.swap(i, j);
        }
        longest = longest.max(c17_2(c, &a, &b, 6000, 1e-13, None, true)?);
    }
    c.rule(&format!("longest run: {longest} iterations"));
    for k in 0..c.rounds(1500) {
        if !c.time_left() {
            break;
        }
        let iters = [1, 2, 3, 5, 20, 60][c.rng.below(6)];
        let interval = [1e-12, 1e-6, 0.01, 1.0, 30.0, f64::MAX][c.rng.below(6)];
        let abs = [None, Some(1e-10), Some(0.5), Some(20.0), Some(1e4)][c.rng.below(5)];
        let kd = c.rng.chance(1, 2);
        let (i32_, a32) = (interval.clamp(1e-6, f32::MAX as f64), abs.map(|v: f64| v.max(1e-5)));
        if k % 2 == 0 {
            let m = iso2(c, 0.4);
            let s = setup::<2>(c, &|p| m * p);
            if k % 4 == 0 { c17_2(c, &s.a, &s.b, iters, interval, abs, kd)?; } else { c17_2s(c, &s.a, &s.b, iters, i32_, a32, kd)?; }
        } else {
            let m = iso3(c, 0.4);
            let s = setup::<3>(c, &|p| m * p);
            if k % 4 == 1 { c17_3(c, &s.a, &s.b, iters, interval, abs, kd)?; } else { c17_3s(c, &s.a, &s.b, iters, i32_, a32, kd)?; }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
}
fn near_p<const N: usize>(a: &Point<f64, N>, b: &Point<f64, N>) -> bool {
    (0..N).all(|i| near(a[i], b[i]))
}
fn dsq<const N: usize>(a: &Point<f64, N>, b: &Point<f64, N>) -> f64 {
    (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}
fn mean<const N: usize>(v: &[Point<f64, N>]) -> Point<f64, N> {
    Point::from(std::array::from_fn(|i| v.iter().map(|p| p[i]).sum::<f64>() / v.len() as f64))
}
macro_rules! c18 { ($name:ident, $n:literal, $iso:ident) => {
    fn $name(c: &mut Ctx) -> Res {
        let m = $iso(c, 0.4);
        let mut s = setup::<$n>(c, &|p| m * p);
        if c.rng.chance(1, 150) {
            // a long source against a short target
            let n = 500 + c.rng.below(4500);
            s.a = cloud::<$n>(c, n, 10.0);
            s.b.truncate(40);
        }
        let old = if c.rng.chance(1, 3) { Isometry::identity() } else { $iso(c, 1.0) };
        let moved: Vec<Point<f64, $n>> = s.a.iter().map(|p| old * p).collect();
        // pairing, skipped when a point has two (nearly) nearest targets
        let mut pairs = vec![];
        for p in &moved {
            let mut d: Vec<(f64, usize)> = s.b.iter().enumerate().map(|(i, q)| (dsq(p, q), i)).collect();
            d.sort_by(|x, y| x.partial_cmp(y).unwrap());
            if d.len() > 1 && d[1].0 - d[0].0 < 1e-9 {
                return Ok(());
            }
            pairs.push(s.b[d[0].1]);
        }
        let (ma, mb) = (mean(&moved), mean(&pairs));
        let mut cov = SMatrix::<f64, $n, $n>::zeros();
        for (p, q) in moved.iter().zip(&pairs) {
            cov += (q - mb) * (p - ma).transpose();
        }
        let sv = cov.singular_values();
        let conditioned = sv[$n - 2] - sv[$n - 1] > 0.02 * sv[0] + 1e-3;
        let want_t = call(|| IsometryAbstractor::<f64, $n>::update_transform(&old, ma, mb, &cov))?;
        let want_pts: Vec<Point<f64, $n>> = s.a.iter().map(|p| want_t * p).collect();
        let err: f64 = want_pts.iter().zip(&pairs).map(|(p, q)| dsq(p, q)).sum();
        // thresholds on both sides of the error
        let abs = match c.rng.below(4) { 0 => Some(err * 1.1 + 1e-3), 1 => Some(err * 0.9 - 1e-3), 2 => Some(1e-9), _ => None };
        let interval = [1e-9, 0.01, 1.0, 50.0][c.rng.below(4)];
        let prev = match c.rng.below(5) { 0 => f64::MAX, 1 => err + interval * 0.9, 2 => err - interval * 0.9, 3 => err + interval * 1.1, _ => err - interval * 1.1 };
        let kd = c.rng.chance(1, 2);
        // the same problem in another unit of length, a power of two: nothing is rounded by that
        let unit = match c.rng.below(8) { 0 => 2f64.powi(10), 1 => 2f64.powi(30), 2 => 2f64.powi(-10), 3 => 2f64.powi(-40), 4 => 2f64.powi(100), _ => 1.0 };
        let square = unit * unit;
        let scaled = |v: f64| if v == f64::MAX { v } else { v * square };
        let unit = if abs.map_or(false, |v| scaled(v) <= 1e-15) || scaled(interval) <= 1e-15 { 1.0 } else { unit };
        let square = unit * unit;
        let scaled = |v: f64| if v == f64::MAX { v } else { v * square };
        let up = |v: &[Point<f64, $n>]| v.iter().map(|p| Point::from(p.coords * unit)).collect::<Vec<Point<f64, $n>>>();
        let (big_a, big_b) = (up(&s.a), up(&s.b));
        c.case(format!("icp_iteration {}D: source {big_a:?}, target {big_b:?}, transform {old:?} (its translation times {unit:?}), previous error {:?}, interval {:?}, absolute {:?}, KD-tree {kd}", $n, scaled(prev), scaled(interval), abs.map(scaled)), true);
        let conf = call(|| ICPConfiguration::<f64>::builder().with_kd_tree(kd).with_mse_interval_threshold(scaled(interval)).with_absolute_mse_threshold(abs.map(scaled)).build())?;
        let tree = if kd { Some(call(|| KDTree::from(big_b.as_slice()))?) } else { None };
        let (mut pts, mut t, mut mse) = (up(&moved), old, scaled(prev));
        t.translation.vector *= unit;
        let r = call(|| icp_iteration::<f64, $n>(&big_a, &mut pts, &big_b, tree.as_ref(), &mut t, &mut mse, &conf))?;
        for p in pts.iter_mut() {
            p.coords /= unit;
        }
        t.translation.vector /= unit;
        if mse != f64::MAX {
            mse /= square;
        }
        for (i, p) in pts.iter().enumerate() {
            let w = t * s.a[i];
            ensure(near_p(p, &w), || format!("transformed point {i} is {p:?}, the new transform maps the source point to {w:?}"))?;
        }
        if conditioned {
            ensure(want_pts.iter().zip(&pts).all(|(x, y)| near_p(x, y)), || format!("new transform {t:?}, aligning the points with their nearest targets gives {want_t:?}"))?;
        }
        let e: f64 = pts.iter().zip(&pairs).map(|(p, q)| dsq(p, q)).sum();
        let tol = 1e-7 * (1.0 + e);
        let (da, di) = (abs.map(|v| v - e), interval - (prev - e).abs());
        if da.map_or(false, |d| d.abs() < tol) || di.abs() < tol + 1e-9 * prev.abs().min(1e9) {
            return Ok(()); // too close to a threshold to call
        }
        let conv = da.map_or(false, |d| d > 0.0) || di > 0.0;
        match r {
            Ok(v) => {
                ensure(conv, || format!("reports convergence with error {v}, but neither threshold is met (error {e})"))?;
                ensure(near(v / square, e), || format!("error {v}, the squared distances sum up to {}", e * square))
            }
            Err(ICPError::IterationDidNotConverge((x, y))) => {
                let (x, y) = (Point::from(x.coords / unit), Point::from(y.coords / unit));
                ensure(!conv, || format!("reports no convergence although the error is {e}"))?;
                ensure(near(mse, e), || format!("stored error {mse}, the squared distances sum up to {e}"))?;
                ensure(near_p(&x, &ma) && near_p(&y, &mb), || format!("reported centroids {x:?} and {y:?}, expected {ma:?} and {mb:?}"))
            }
            Err(e) => fail(format!("{e:?}")),
        }
    }
} }
c18!(c18_2, 2, iso2);
c18!(c18_3, 3, iso3);
/// an error that is exact in floating point, met exactly by a threshold: both comparisons are strict
macro_rules! c18_edge { ($name:ident, $t:ty, $n:literal) => {
    fn $name(c: &mut Ctx) -> Res {
        // the target is the source stretched about the origin along the first axis: centroids agree, no rotation
        let mut a: Vec<Point<$t, $n>> = vec![];
        let mut b = vec![];
        let by = c.rng.int(1, 3) as $t * 0.5;
        for _ in 0..1 + c.rng.below(2) {
            let mut p: Point<$t, $n> = Point::from(std::array::from_fn(|i| c.rng.int(-3, 3) as $t * [64.0, 16.0, 4.0][i]));
            if p[0] == 0.0 { p[0] = 64.0; }
            let mut q = p;
            q[0] += by * p[0].signum();
            for s in [1.0 as $t, -1.0] {
                a.push(Point::from(p.coords * s));
                b.push(Point::from(q.coords * s));
            }
        }
        let kd = c.rng.chance(1, 2);
        let go = |abs: Option<$t>, interval: $t, prev: $t| {
            let conf = ICPConfiguration::<$t>::builder().with_kd_tree(kd).with_mse_interval_threshold(interval).with_absolute_mse_threshold(abs).build();
            let tree = if kd { Some(KDTree::from(b.as_slice())) } else { None };
            let (mut pts, mut t, mut mse) = (a.clone(), Isometry::identity(), prev);
            let r = icp_iteration::<$t, $n>(&a, &mut pts, &b, tree.as_ref(), &mut t, &mut mse, &conf);
            (match r { Ok(v) => Some(v), Err(_) => None }, mse)
        };
        c.case(format!("icp_iteration {}D ({}): source {a:?}, target {b:?}, from the identity, KD-tree {kd}", $n, stringify!($t)), true);
        let (Some(v), _) = call(|| go(None, 1e30, 0.0))? else { return fail("no convergence with an interval of 1e30 and an error far below") };
        if v * 64.0 != (v * 64.0).trunc() || !(v > 0.01 && v < 1e4) {
            return Ok(()); // rounding got in the way
        }
        let h = 0.015625 as $t;
        for (abs, interval, prev, want) in [
            (Some(v), 0.001, <$t>::MAX, false), (Some(v + h), 0.001, <$t>::MAX, true), (Some(v - h), 0.001, <$t>::MAX, false),
            (None, 0.5, v + 0.5, false), (None, 0.5, v - 0.5, false), (None, 0.5 + h, v + 0.5, true), (None, 0.5 + h, v - 0.5, true),
            (Some(v), 0.5, v + 0.5, false), (Some(v - h), 0.5, v - 0.5 + h, true), (Some(1e-3), 0.5, v, true), (Some(v + h), 0.5, v + 9.0, true), (Some(v), 0.5, v - 9.0, false),
        ] {
            c.case(format!("icp_iteration {}D ({}): source {a:?}, target {b:?}, from the identity, KD-tree {kd}, absolute {abs:?}, interval {interval:?}, previous error {prev:?}", $n, stringify!($t)), true);
            let (r, mse) = call(|| go(abs, interval, prev))?;
            ensure(r.is_some() == want, || format!("{}, the error is exactly {v}", if want { "no convergence" } else { "convergence" }))?;
            ensure(if want { r == Some(v) } else { mse == v }, || format!("reported {r:?}, stored {mse}; the error is {v}"))?;
        }
        Ok(())
    }
} }
c18_edge!(c18_e2, f64, 2);
c18_edge!(c18_e3, f64, 3);
c18_edge!(c18_e2s, f32, 2);
c18_edge!(c18_e3s, f32, 3);
pub fn c18(c: &mut Ctx) -> Res {
    c.rule("random clouds of 1-40 (some 400, some 5000) points, in units of length that are powers of two from 2^-40 to 2^100, against moved, noisy, mirrored and unrelated targets in 2D and 3D, arbitrary previous transforms, errors and thresholds on both sides of the error; pairs, transform, error, decision and centroids recomputed independently; clouds with an exact error and thresholds equal to it, f32 and f64; every case is non-trivial");
    for k in 0..c.rounds(4000) {
        if !c.time_left() {
            break;
        }
        if k % 2 == 0 { c18_2(c)? } else { c18_3(c)? }
        if k % 8 == 0 {
            c18_e2(c)?;
            c18_e3(c)?;
            c18_e2s(c)?;
            c18_e3s(c)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C25
macro_rules! c25 { ($name:ident, $t:ty, $n:literal, $iso:expr, $turn:expr, $tol:expr, $interval:expr) => {
    fn $name(c: &mut Ctx) -> Res {
        let single = std::mem::size_of::<$t>() == 4;
        let r = c.rng.f(0.5, 10.0);
        let n = match c.rng.below(40) { 0 if !single => 200 + c.rng.below(300), 1..=9 => 20 + c.rng.below(60), 10..=14 => $n, _ => $n + c.rng.below(10) };
        let spread: [f64; $n] = std::array::from_fn(|_| if c.rng.chance(1, 3) { c.rng.f(0.3, 1.0) } else { 1.0 });
        // shapes: free, planar (in 2D: on a line), the corners of a box, repeated points
        let shape = c.rng.below(8);
        let mut pts: Vec<[f64; $n]> = (0..n).map(|_| std::array::from_fn(|i| c.rng.f(-r, r) * spread[i])).collect();
        match shape {
            0 => { let w: [f64; $n] = std::array::from_fn(|_| c.rng.f(-1.0, 1.0)); for p in pts.iter_mut() { p[$n - 1] = (0..$n - 1).map(|i| w[i] * p[i]).sum(); } }
            1 => pts = (0..1usize << $n).map(|k| std::array::from_fn(|i| if k >> i & 1 == 1 { r * spread[i] } else { -r * spread[i] })).collect(),
            2 => { let m = pts.len(); for k in 0..m { if c.rng.chance(1, 2) { let p = pts[k]; pts.push(p); } } }
            3 => for p in pts.iter_mut() { p[c.rng.below($n)] = 0.0; },
            _ => {}
        }
        if shape != 3 {
            let turn: Isometry<f64, _, $n> = $turn(c.rng.f(-3.0, 3.0), 0.0, &std::array::from_fn::<f64, 6, _>(|_| c.rng.f(-1.0, 1.0)), &SVector::zeros());
            for p in pts.iter_mut() { *p = (turn * Point::from(*p)).coords.into(); }
        }
        let far = match c.rng.below(4) { 0 => if single { 10.0 } else { 1000.0 }, 1 => 5.0, _ => 0.0 };
        let off: [f64; $n] = std::array::from_fn(|_| c.rng.f(-far, far));
        let a: Vec<Point<$t, $n>> = pts.iter().map(|p| Point::from(std::array::from_fn(|i| (p[i] + off[i]) as $t))).collect();
        // not (nearly) on a line
        let ctr = a.iter().map(|p| p.coords.cast::<f64>()).sum::<SVector<f64, $n>>() / a.len() as f64;
        let mut sc = SMatrix::<f64, $n, $n>::zeros();
        for p in &a { let d = p.coords.cast::<f64>() - ctr; sc += d * d.transpose(); }
        let mut sv: Vec<f64> = sc.symmetric_eigenvalues().iter().copied().collect();
        sv.sort_by(|x, y| y.partial_cmp(x).unwrap());
        if sv[$n - 2] < 0.02 * sv[0] || sv[0] < 1e-2 * r * r { return Ok(()); }
        // nalgebra's 3x3 SVD loses digits as off-diagonal elements of M^T M, here the squared scatter, vanish, and as singular values meet:
        // the error goes with epsilon over either and reaches a few percent
        let sq = (sc * sc) / (sv[0] * sv[0]);
        let least = if single { 0.05 } else { 1e-3 };
        let exact_svd = $n == 2 || ((0..$n).all(|i| (0..i).all(|j| sq[(i, j)].abs() > least)) && (0..$n - 1).all(|i| sv[i] - sv[i + 1] > 0.03 * sv[0]));
        if !exact_svd && single { return Ok(()); }
        // the largest motion tried, halved until every image is clearly the nearest target
        let (mut ang, mut by) = (c.rng.f(-1.6, 1.6), c.rng.f(-1.0, 1.0) * r);
        let dir: [f64; 6] = std::array::from_fn(|_| c.rng.f(-1.0, 1.0));
        if c.rng.chance(1, 8) { ang = 0.0; }
        if c.rng.chance(1, 8) { by = 0.0; }
        let extra: Vec<Point<$t, $n>> = (0..c.rng.below(4)).map(|_| Point::from(std::array::from_fn(|i| (off[i] + c.rng.f(-3.0, 3.0) * r) as $t))).collect();
        let mut found = None;
        for _ in 0..24 {
            let rot: Isometry<$t, _, $n> = $iso(ang, by, &dir, &ctr);
            let img: Vec<Point<$t, $n>> = a.iter().map(|p| rot * p).collect();
            let ok = a.iter().zip(&img).all(|(p, q)| {
                let own = (p - q).cast::<f64>().norm();
                img.iter().chain(&extra).all(|o| (o - q).cast::<f64>().norm() <= 1e-9 || { let d = (o - p).cast::<f64>().norm(); d > own * 1.01 + 1e-3 * r })
            });
            if ok { found = Some((rot, img)); break; }
            ang *= 0.6;
            by *= 0.6;
        }
        let Some((want, mut b)) = found else { return Ok(()) };
        b.extend(extra);
        for i in (1..b.len()).rev() { let j = c.rng.below(i + 1); b.swap(i, j); }
        let kd = c.rng.chance(1, 2);
        let scale = r + far;
        let at_once = exact_svd && c.rng.chance(1, 3);
        let abs = if at_once || c.rng.chance(1, 3) { Some(($interval * if single { 1.0 } else { 1e-2 }) as $t) } else { None };
        let iters = if !exact_svd { 100 } else if at_once { 1 } else { [2usize, 2, 3, 10, 100][c.rng.below(5)] };
        // the same problem in another unit of length, a power of two: nothing is rounded by that
        let unit: $t = match c.rng.below(8) { 0 => (2.0 as $t).powi(16), 1 => (2.0 as $t).powi(if single { 20 } else { 100 }), 2 => (2.0 as $t).powi(if single { -3 } else { -12 }), _ => 1.0 };
        let up = |v: &[Point<$t, $n>]| v.iter().map(|p| Point::from(p.coords * unit)).collect::<Vec<Point<$t, $n>>>();
        let (big_a, big_b) = (up(&a), up(&b));
        let (interval, abs) = ($interval as $t * unit * unit, abs.map(|v: $t| v * unit * unit));
        c.case(format!("icp {}D ({}): source {big_a:?}, the target is its image under {want:?} (its translation times {unit:?}) with {} more points, shuffled: {big_b:?}; {iters} iterations, interval threshold {interval:?}, absolute threshold {abs:?}, KD-tree {kd}", $n, stringify!($t), b.len() - a.len()), true);
        let conf = call(|| ICPConfiguration::<$t>::builder().with_max_iterations(iters).with_mse_interval_threshold(interval).with_absolute_mse_threshold(abs).with_kd_tree(kd).build())?;
        let mut s = match call(|| icp(&big_a, &big_b, conf))? {
            Ok(s) => s,
            Err(e) => return fail(format!("no alignment found: {e:?}")),
        };
        s.transform.translation.vector /= unit;
        s.mse /= unit * unit;
        if !exact_svd { return ensure(a.iter().all(|p| (s.transform * p - want * p).cast::<f64>().norm() < 0.3 * r), || format!("the transform {:?} is far from the motion", s.transform)); }
        let off_by = |p: &Point<$t, $n>| (s.transform * p - want * p).cast::<f64>().norm();
        let probe: Vec<Point<$t, $n>> = (0..4).map(|_| Point::from(std::array::from_fn(|i| (off[i] + c.rng.f(-r, r)) as $t))).collect();
        for p in a.iter() {
            ensure(off_by(p) <= $tol * scale, || format!("the transform {:?} takes {p:?} to {:?}, the motion takes it to {:?}", s.transform, s.transform * p, want * p))?;
        }
        for p in probe.iter() {
            ensure(off_by(p) <= 20.0 * $tol * scale, || format!("the transform {:?} takes {p:?} to {:?}, the motion takes it to {:?}", s.transform, s.transform * p, want * p))?;
        }
        ensure((s.mse as f64) >= 0.0 && (s.mse as f64) <= a.len() as f64 * ($tol * scale).powi(2), || format!("error {:?} where the clouds coincide", s.mse))?;
        ensure(s.iteration_num <= 1, || format!("converged only at iteration {}, every point was paired with its counterpart from the start", s.iteration_num))
    }
} }
macro_rules! motion2 { ($t:ty) => { |ang: f64, by: f64, d: &[f64; 6], ctr: &SVector<f64, 2>| {
    let r = UnitComplex::new(ang as $t);
    let c: Vector2<$t> = ctr.map(|v| v as $t);
    Isometry2::<$t>::from_parts(Translation2::from(c - r * c + Vector2::new((d[0] * by) as $t, (d[1] * by) as $t)), r)
} } }
macro_rules! motion3 { ($t:ty) => { |ang: f64, by: f64, d: &[f64; 6], ctr: &SVector<f64, 3>| {
    let ax = Unit::new_normalize(Vector3::new(d[0] as $t, d[1] as $t, d[2] as $t + 1e-3));
    let r = UnitQuaternion::from_axis_angle(&ax, ang as $t);
    let c: Vector3<$t> = ctr.map(|v| v as $t);
    Isometry3::<$t>::from_parts(Translation3::from(c - r * c + Vector3::new((d[3] * by) as $t, (d[4] * by) as $t, (d[5] * by) as $t)), r)
} } }
c25!(c25_2, f64, 2, motion2!(f64), motion2!(f64), 1e-6, 1e-4);
c25!(c25_3, f64, 3, motion3!(f64), motion3!(f64), 1e-6, 1e-4);
c25!(c25_2s, f32, 2, motion2!(f32), motion2!(f64), 1e-4, 1e-3);
c25!(c25_3s, f32, 3, motion3!(f32), motion3!(f64), 3e-3, 1e-2);
pub fn c25(c: &mut Ctx) -> Res {
    c.rule("a cloud (free, planar, box corners, repeated points; 2-500 points, up to 1000 from the origin, in units of length that are powers of two from 2^-12 to 2^100) and its image under a rigid motion about its centroid, as large as leaves every image the nearest target of its point (up to 92 degrees), with further targets, shuffled; f32 and f64, 2D and 3D, with and without KD-tree, one iteration with an absolute threshold or two and more; clouds nearly on a line, and motions that stay too large are left out; where nalgebra's 3x3 SVD is known to lose digits (nearly diagonal or nearly equal scatter) only convergence and a coarse distance are required, f64 only; every case counted is non-trivial");
    for k in 0..c.rounds(12000) {
        if !c.time_left() {
            break;
        }
        match k % 4 { 0 => c25_2(c)?, 1 => c25_3(c)?, 2 => c25_2s(c)?, _ => c25_3s(c)? }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
macro_rules! c19 { ($name:ident, $t:ty, $n:literal, $iso:ident, $tol:expr) => {
    fn $name(c: &mut Ctx, m: SMatrix<f64, $n, $n>) -> Res {
        let tol: f64 = $tol;
        let old64 = if c.rng.chance(1, 4) { Isometry::identity() } else { $iso(c, 3.0) };
        let far = [20.0, 20.0, 1e-6, 3e3, 1e7, 1e9, 1e12][c.rng.below(7)];
        let other = if c.rng.chance(1, 2) { far } else { 20.0 };
        let (pa, pb) = (cloud::<$n>(c, 1, far)[0], cloud::<$n>(c, 1, other)[0]);
        let old: Iso<$t, $n> = nalgebra::convert(old64);
        let (a, b, mm): (Point<$t, $n>, Point<$t, $n>, SMatrix<$t, $n, $n>) = (nalgebra::convert(pa), nalgebra::convert(pb), nalgebra::convert(m));
        c.case(format!("update_transform ({}, {}D): covariance {:?}, centroids {a:?} and {b:?}, old transform {old:?}", stringify!($t), $n, mm.as_slice()), true);
        let r = call(|| IsometryAbstractor::<$t, $n>::update_transform(&old, a, b, &mm))?;
        let old64: Iso<f64, $n> = nalgebra::convert(old);
        let r64: Iso<f64, $n> = nalgebra::convert(r);
        let step = r64 * old64.inverse();
        let rot: SMatrix<f64, $n, $n> = step.rotation.to_rotation_matrix().into_inner();
        let ortho = (rot.transpose() * rot - SMatrix::<f64, $n, $n>::identity()).abs().max();
        ensure(ortho < tol && (rot.determinant() - 1.0).abs() < tol, || format!("the step's rotation part {:?} is not a proper rotation", rot.as_slice()))?;
        let (a64, b64): (Point<f64, $n>, Point<f64, $n>) = (nalgebra::convert(a), nalgebra::convert(b));
        let img = step * a64;
        ensure((img - b64).norm() < 5.0 * tol * far.max(20.0), || format!("the step takes the first centroid to {img:?}, not to {b64:?}"))?;
        let mm64: SMatrix<f64, $n, $n> = nalgebra::convert(mm);
        // rotation part = the best proper rotation for this covariance
        let sv = mm64.singular_values();
        let best: f64 = sv.iter().sum::<f64>() - if mm64.determinant() < 0.0 { 2.0 * sv[$n - 1] } else { 0.0 };
        let got = (rot.transpose() * mm64).trace();
        if $n == 2 {
            // in the plane the best rotation is known in closed form: the angle of (m00 + m11, m10 - m01)
            let (x, y) = (mm64[(0, 0)] + mm64[(1, 1)], mm64[(1, 0)] - mm64[(0, 1)]);
            let h = x.hypot(y);
            let off = (rot[(1, 0)] * x - rot[(0, 0)] * y).abs() / h;
            let near = rot[(0, 0)] * x + rot[(1, 0)] * y > 0.0;
            ensure(h <= 1e-3 * sv[0] || (near && off <= 40.0 * (<$t>::EPSILON as f64) * sv[0] / h), || format!("rotation part {:?} is {off} (sine) away from the best rotation, {} degrees", rot.as_slice(), y.atan2(x).to_degrees()))?;
        }
        ensure((got - best).abs() <= 20.0 * tol * sv[0] + f64::MIN_POSITIVE, || format!("rotation part {:?} aligns with {got}, the best proper rotation with {best}: more than the direction of least variance was changed", rot.as_slice()))
    }
} }
c19!(c19_2, f64, 2, iso2, 1e-9);
c19!(c19_3, f64, 3, iso3, 1e-7);
c19!(c19_2s, f32, 2, iso2, 2e-4);
c19!(c19_3s, f32, 3, iso3, 2e-3);
pub fn c19(c: &mut Ctx) -> Res {
    c.rule("random, rotated, mirrored, diagonal, half-turn, singular and near-singular covariance matrices at scales from 1e-8 to 1e8 in 2D and 3D, f32 and f64, arbitrary centroids up to 1e12 from the origin and previous transforms; the rotation part is compared with the optimum from the singular values; every case is non-trivial");
    for k in 0..c.rounds(6000) {
        if !c.time_left() {
            break;
        }
        let mut m2 = Matrix2::from_fn(|_, _| c.rng.f(-10.0, 10.0));
        let mut m3 = Matrix3::from_fn(|_, _| c.rng.f(-10.0, 10.0));
        let sg = |c: &mut Ctx| if c.rng.chance(1, 2) { 1.0 } else { -1.0 };
        match k / 4 % 6 {
            0 => {
                m2 = iso2(c, 3.0).rotation.to_rotation_matrix().into_inner() * Matrix2::from_diagonal(&Vector2::new(5.0, 3.0 * sg(c)));
                m3 = iso3(c, 3.0).rotation.to_rotation_matrix().into_inner() * Matrix3::from_diagonal(&Vector3::new(5.0, 3.0, 1.0 * sg(c)));
            }
            1 => {
                m2 = Matrix2::from_diagonal(&Vector2::new(5.0 * sg(c), 3.0 * sg(c)));
                m3 = Matrix3::from_diagonal(&Vector3::new(5.0 * sg(c), 3.0 * sg(c), 1.0 * sg(c)));
            }
            2 => {
                // nearly planar / linear clouds
                m2 = Matrix2::new(4.0, 2.0, 2.0, 1.0 + 0.1 * sg(c));
                let q = iso3(c, 3.0).rotation.to_rotation_matrix().into_inner();
                m3 = q * Matrix3::from_diagonal(&Vector3::new(7.0, 4.0, 0.1 * sg(c))) * q.transpose();
            }
            3 => {
                // points on a line, or all the same
                let (u, v) = (Vector3::new(c.rng.f(-3.0, 3.0), c.rng.int(-1, 1) as f64, c.rng.f(-3.0, 3.0)), Vector3::new(c.rng.int(-1, 1) as f64, c.rng.f(-3.0, 3.0), 1.0));
                m3 = u * v.transpose() * c.rng.int(0, 2) as f64;
                m2 = m3.fixed_view::<2, 2>(0, 0).into_owned();
            }
            4 => {
                // turned by next to nothing
                let t = [1e-2, 1e-3, 1e-4, 1e-5, 1e-7, 3e-9][c.rng.below(6)] * sg(c);
                let w = c.rng.f(-1.0, 1.0);
                m2 = nalgebra::Rotation2::new(t).into_inner() * Matrix2::new(6.0, w, w, 3.0);
                m3 = nalgebra::Rotation3::new(Vector3::new(0.3 * t, t, -t)).into_inner() * Matrix3::new(9.0, w, 0.4, w, 5.0, -0.3, 0.4, -0.3, 2.0);
            }
            _ => {}
        }
        let s = [1.0, 1.0, 1e-5, 1e5, 1e-2, 1e-8, 1e8][c.rng.below(7)];
        m2 *= s;
        m3 *= s;
        match k % 4 {
            0 => c19_2(c, m2)?,
            1 => c19_3(c, m3)?,
            2 => c19_2s(c, m2)?,
            _ => c19_3s(c, m3)?,
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C23
/// the value printed for a field, when there is a field of that name
fn field(s: &str, name: &str) -> Option<String> {
    let i = s.find(&format!("{name}: "))? + name.len() + 2;
    let mut depth = 0;
    let rest = &s[i..];
    let end = rest.char_indices().find(|(_, ch)| {
        match ch {
            '(' | '{' => depth += 1,
            ')' => depth -= 1,
            '}' if depth > 0 => depth -= 1,
            ',' | ' ' if depth == 0 => return true,
            '}' => return true,
            _ => {}
        }
        false
    }).map_or(rest.len(), |(i, _)| i);
    Some(rest[..end].to_string())
}
macro_rules! c23 { ($name:ident, $t:ty) => {
    fn $name(c: &mut Ctx, steps: &[usize]) -> Res {
        let vals = [0.0 as $t, 0.01, 0.5, -1.0, <$t>::NAN, <$t>::INFINITY, 1e-30, <$t>::MAX];
        let mut want: (bool, usize, Option<$t>, $t) = (false, 20, None, 0.01f32 as $t);
        let mut b = call(|| ICPConfiguration::<$t>::builder())?;
        let mut log = vec![];
        for step in 0..=steps.len() {
            c.case(format!("ICPConfiguration::<{}>::builder(){}", stringify!($t), log.join("")), !log.is_empty());
            let conf = format!("{:?}", call(|| b.build())?);
            for (n, w) in [("use_kd_tree", format!("{:?}", want.0)), ("max_iterations", format!("{:?}", want.1)), ("mse_absolute_threshold", format!("{:?}", want.2)), ("mse_interval_threshold", format!("{:?}", want.3))] {
                if let Some(g) = field(&conf, n) {
                    ensure(g == w, || format!("{n} is {g}, expected {w} ({conf})"))?;
                }
            }
            // the same options as icp sees them
            let p = [Point2::new(0.0 as $t, 0.0), Point2::new(1.0, 0.0)];
            let w = if want.1 == 0 { Some(ICPError::IterationNumIsZero) }
                else if want.3 <= <$t>::EPSILON { Some(ICPError::MSEIntervalThreshold) }
                else if want.2.map_or(false, |v| v != v || v <= <$t>::EPSILON) { Some(ICPError::MSEAbsoluteThreshold) }
                else { None };
            // a run that would take for ever is not tried
            if want.1 < 1000 {
                let e = match call(|| icp(&p, &p, b.build()))? { Ok(_) => None, Err(e) => Some(e) };
                let e = e.filter(|e| !matches!(e, ICPError::AlrogithmDidNotConverge));
                ensure(e == w, || format!("icp with this configuration: {e:?}, expected {w:?}"))?;
            }
            ensure(format!("{:?}", call(|| b.build())?) == conf, || "building twice gives different options".into())?;
            let before = format!("{b:?}");
            let Some(s) = steps.get(step) else { break };
            let next = match s % 4 {
                0 => { want.0 = s / 4 % 2 == 0; log.push(format!(".with_kd_tree({})", want.0)); call(|| b.with_kd_tree(want.0))? }
                1 => { want.1 = [0usize, 1, 20, 33, 7, 256, 65_536, (u32::MAX as usize).wrapping_add(1), usize::MAX][s / 4 % 9]; log.push(format!(".with_max_iterations({})", want.1)); call(|| b.with_max_iterations(want.1))? }
                2 => { want.2 = if s / 4 % 9 == 8 { None } else { Some(vals[s / 4 % 9]) }; log.push(format!(".with_absolute_mse_threshold({:?})", want.2)); call(|| b.with_absolute_mse_threshold(want.2))? }
                _ => { want.3 = vals[s / 4 % 8]; log.push(format!(".with_mse_interval_threshold({:?})", want.3)); call(|| b.with_mse_interval_threshold(want.3))? }
            };
            ensure(format!("{b:?}") == before && format!("{:?}", call(|| b.build())?) == conf, || format!("{} changed the builder it was called on", log.last().unwrap()))?;
            b = next;
        }
        Ok(())
    }
} }
c23!(c23_32, f32);
c23!(c23_64, f64);
pub fn c23(c: &mut Ctx) -> Res {
    c.rule("all setter sequences of length 2 with all values, random longer ones up to 12, f32 and f64, options read back from the Debug form and through icp; non-trivial: at least one setter");
    for len in 0..=2 {
        sequences(36, len, &mut |s| if len < 2 { c23_32(c, s)?; c23_64(c, s) } else { c23_64(c, s) })?;
    }
    for k in 0..c.rounds(600) {
        let n = 1 + c.rng.below(12);
        let s: Vec<usize> = (0..n).map(|_| c.rng.below(720)).collect();
        if k % 2 == 0 { c23_32(c, &s)? } else { c23_64(c, &s)? }
    }
    Ok(())
}
