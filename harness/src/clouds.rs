use crate::core::*;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::IsNan;
use nalgebra::{Isometry2, Isometry3, Point, Point2, Point3, Scalar, UnitQuaternion, Vector2, Vector3};
use std::collections::BTreeMap;

pub fn known(id: &str) -> Vec<String> {
    let mut out = vec![];
    if id == "C06" {
        let p = [Point2::new(200u8, 0), Point2::new(200, 0)];
        match call(|| downsample_point_cloud_voxel(&p, 1000.0f32)) {
            Ok(r) if r == vec![Point2::new(200u8, 0)] => {}
            _ => out.push("downsample_point_cloud_voxel over u8 points [(200,0),(200,0)], voxel 1000: the sum of a voxel's points is accumulated in the point type and overflows".to_string()),
        }
        let p = [Point2::new(1.0f64, 0.0), Point2::new(2.0, 0.0)];
        match call(|| downsample_point_cloud_voxel(&p, 1e-19f64)) {
            Ok(r) if r.len() == 2 => {}
            _ => out.push("downsample_point_cloud_voxel over f64 points [(1,0),(2,0)], voxel 1e-19: cell numbers beyond isize saturate, so different cells fall together".to_string()),
        }
    }
    out
}

// ------------------------------------------------------------------ C05
/// a total description of a value, distinguishing -0.0 from 0.0
fn key<T: Scalar, const N: usize>(p: &Point<T, N>) -> String {
    format!("{:?}", p.coords.as_slice())
}
fn cmp<T: PartialOrd + Scalar, const N: usize>(a: &Point<T, N>, b: &Point<T, N>) -> std::cmp::Ordering {
    for i in 0..N {
        match a[i].partial_cmp(&b[i]).unwrap() {
            std::cmp::Ordering::Equal => {}
            o => return o,
        }
    }
    std::cmp::Ordering::Equal
}
fn lex<T, const N: usize>(c: &mut Ctx, pts: &[Point<T, N>], nan: &dyn Fn(&T) -> bool) -> Res
where
    T: Scalar + PartialOrd + IsNan,
{
    let ty = std::any::type_name::<T>();
    c.case(format!("{ty}, N={N}: lex_sort of {:?}", pts.iter().map(key).collect::<Vec<_>>()), pts.len() > 1);
    let invalid = N == 0 || pts.iter().any(|p| p.coords.iter().any(|x| nan(x)));
    let before: Vec<String> = pts.iter().map(key).collect();
    let mut inplace = pts.to_vec();
    let ok = call(|| lex_sort_in_place(&mut inplace))?;
    let copy = call(|| lex_sort(pts))?;
    let refs = call(|| lex_sort_ref(pts))?;
    if invalid {
        ensure(!ok, || "lex_sort_in_place accepted NaN or dimension 0".into())?;
        ensure(inplace.iter().map(key).eq(before.iter().cloned()), || "lex_sort_in_place changed an input it rejected".into())?;
        ensure(copy.is_none(), || "lex_sort accepted NaN or dimension 0".into())?;
        ensure(refs.is_none(), || "lex_sort_ref accepted NaN or dimension 0".into())?;
        return Ok(());
    }
    // oracle: insertion sort (stable), tracking positions
    let mut idx: Vec<usize> = vec![];
    for i in 0..pts.len() {
        let mut k = idx.len();
        while k > 0 && cmp(&pts[idx[k - 1]], &pts[i]) == std::cmp::Ordering::Greater {
            k -= 1;
        }
        idx.insert(k, i);
    }
    let want: Vec<String> = idx.iter().map(|i| key(&pts[*i])).collect();
    ensure(ok, || "lex_sort_in_place rejected a NaN-free input".into())?;
    ensure(inplace.iter().map(key).eq(want.iter().cloned()), || format!("lex_sort_in_place: {:?}, expected {want:?}", inplace.iter().map(key).collect::<Vec<_>>()))?;
    match copy {
        None => return fail("lex_sort rejected a NaN-free input"),
        Some(v) => ensure(v.iter().map(key).eq(want.iter().cloned()), || format!("lex_sort: {:?}, expected {want:?}", v.iter().map(key).collect::<Vec<_>>()))?,
    }
    match refs {
        None => return fail("lex_sort_ref rejected a NaN-free input"),
        Some(v) => {
            let got: Vec<usize> = v.iter().map(|r| pts.iter().position(|p| std::ptr::eq(p, *r)).unwrap_or(usize::MAX)).collect();
            ensure(N == 0 || got == idx, || format!("lex_sort_ref: references to elements {got:?}, expected {idx:?}"))?
        }
    }
    Ok(())
}
pub fn c05(c: &mut Ctx) -> Res {
    c.rule("all 2-D sequences over {NaN,-0,0,1}^2 up to length 3 and 1-D up to length 5, random lists up to 100 points in f32/f64 and ten integer types, dimensions 0-9; non-trivial: at least two points");
    let vals = [f64::NAN, -0.0, 0.0, 1.0];
    for len in 0..=5 {
        sequences(4, len, &mut |s| lex::<f64, 1>(c, &s.iter().map(|v| Point::from([vals[*v]])).collect::<Vec<_>>(), &|x| x != x))?;
    }
    for len in 0..=3 {
        sequences(16, len, &mut |s| lex::<f64, 2>(c, &s.iter().map(|v| Point::from([vals[*v % 4], vals[*v / 4]])).collect::<Vec<_>>(), &|x| x != x))?;
    }
    lex::<f32, 0>(c, &[], &|x| x != x)?;
    lex::<f32, 0>(c, &[Point::from([]), Point::from([])], &|x| x != x)?;
    lex::<i32, 0>(c, &[Point::from([])], &|_| false)?;
    macro_rules! fl { ($t:ty, $n:literal, $rounds:expr) => {
        for k in 0..$rounds {
            let n = c.rng.below(if k % 8 == 0 { 100 } else { 12 });
            let pts: Vec<Point<$t, $n>> = (0..n).map(|_| Point::from(std::array::from_fn(|_| match c.rng.below(if k % 3 == 0 { 400 } else { 8 }) { 0 => -0.0 as $t, 1 => 0.0, 2 => -1.5, 3 => <$t>::INFINITY, 4 => <$t>::NEG_INFINITY, _ => c.rng.int(-2, 2) as $t }))).collect();
            lex::<$t, $n>(c, &pts, &|x| x != x)?;
            if n > 0 {
                let mut bad = pts.clone();
                let (i, d) = (c.rng.below(n), c.rng.below($n));
                bad[i][d] = if c.rng.chance(1, 2) { <$t>::NAN } else { -<$t>::NAN };
                lex::<$t, $n>(c, &bad, &|x| x != x)?;
            }
        }
    } }
    let r = c.rounds(300);
    fl!(f32, 1, r); fl!(f32, 2, r); fl!(f64, 3, r); fl!(f64, 4, r); fl!(f64, 2, r); fl!(f64, 5, r / 3); fl!(f32, 7, r / 3); fl!(f64, 9, r / 3);
    macro_rules! ints { ($($t:ty),*) => { $(
        for k in 0..c.rounds(60) {
            let n = c.rng.below(if k % 8 == 0 { 100 } else { 12 });
            let pts: Vec<Point<$t, 3>> = (0..n).map(|_| Point::from(std::array::from_fn(|_| match c.rng.below(7) { 0 => <$t>::MIN, 1 => <$t>::MAX, k => k as $t }))).collect();
            lex::<$t, 3>(c, &pts, &|_| false)?;
        }
    )* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    // long lists, with many equal points that can be told apart (signed zeros, positions of references)
    for n in [257usize, 1000, 5000, 70_000] {
        let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::from([0; 2].map(|_| match c.rng.below(6) { 0 => -0.0, 1 => 0.0, k => k as f64 }))).collect();
        c.case(format!("f64: {n} random points over a few coordinates, {:?}...", &pts[..8]), true);
        let mut idx: Vec<usize> = (0..n).collect();
        idx.sort_by(|a, b| cmp(&pts[*a], &pts[*b]));
        let (mut inplace, copy, refs) = (pts.clone(), call(|| lex_sort(&pts))?, call(|| lex_sort_ref(&pts))?);
        let bits = |p: &Point2<f64>| [p.x.to_bits(), p.y.to_bits()];
        ensure(call(|| lex_sort_in_place(&mut inplace))?, || "lex_sort_in_place rejected a NaN-free input".into())?;
        ensure(inplace.len() == n && inplace.iter().zip(&idx).all(|(p, i)| bits(p) == bits(&pts[*i])), || "lex_sort_in_place: not the stable order".into())?;
        ensure(copy.map_or(false, |v| v.len() == n && v.iter().zip(&idx).all(|(p, i)| bits(p) == bits(&pts[*i]))), || "lex_sort: not the stable order".into())?;
        ensure(refs.map_or(false, |v| v.len() == n && v.iter().zip(&idx).all(|(p, i)| std::ptr::eq(*p, &pts[*i]))), || "lex_sort_ref: not the stable order".into())?;
        // one NaN somewhere
        for at in [0, 1, n / 2, n - 2, n - 1] {
            for d in 0..2 {
                let mut bad = pts.clone();
                bad[at][d] = f64::NAN;
                c.case(format!("f64: {n} points with NaN in coordinate {d} of point {at}"), true);
                let before: Vec<[u64; 2]> = bad.iter().map(bits).collect();
                ensure(call(|| lex_sort(&bad))?.is_none() && call(|| lex_sort_ref(&bad))?.is_none() && !call(|| lex_sort_in_place(&mut bad))?, || "accepted NaN".into())?;
                ensure(bad.iter().map(bits).eq(before), || "changed an input it rejected".into())?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
trait Num: Copy + Scalar {
    fn to(self) -> f64;
}
macro_rules! num { ($($t:ty),*) => { $(impl Num for $t { fn to(self) -> f64 { self as f64 } })* } }
num!(f32, f64, i16, i32, i64, isize, u8, u16, u32);

fn voxels<T, const N: usize>(c: &mut Ctx, pts: &[Point<T, N>], voxel: f64, out: &dyn Fn(&[Point<T, N>]) -> Vec<Point<T, N>>, cell: &dyn Fn(T) -> i64, int: bool, tol: f64) -> Res
where
    T: Num,
{
    c.case(format!("{}, N={N}: downsample {} points {:?} with voxel size {voxel}", std::any::type_name::<T>(), pts.len(), pts.iter().take(400).map(key).collect::<Vec<_>>()), pts.len() > 1);
    let mut cells: BTreeMap<Vec<i64>, Vec<Point<T, N>>> = BTreeMap::new();
    for p in pts {
        cells.entry((0..N).map(|i| cell(p[i])).collect()).or_default().push(*p);
    }
    let got = call(|| out(pts))?;
    ensure(got.len() == cells.len(), || format!("{} points returned for {} occupied voxels", got.len(), cells.len()))?;
    let mut used = vec![false; got.len()];
    for (k, v) in &cells {
        let mean: Vec<f64> = (0..N).map(|i| { let m = v.iter().map(|p| p[i].to()).sum::<f64>() / v.len() as f64; if int { m.trunc() } else { m } }).collect();
        let hit = (0..got.len()).find(|&g| !used[g] && (0..N).all(|i| (got[g][i].to() - mean[i]).abs() <= tol * (1.0 + mean[i].abs())));
        match hit {
            Some(g) => used[g] = true,
            None => return fail(format!("no returned point is the mean {mean:?} of voxel {k:?}: {:?}", got.iter().map(key).collect::<Vec<_>>())),
        }
    }
    Ok(())
}
pub fn c06(c: &mut Ctx) -> Res {
    c.rule("random and grid clouds (duplicates, negative coordinates, points on voxel borders), f32/f64/i32/i64/u32 points, dimensions 1-6, nine voxel sizes; non-trivial: at least two points");
    let sizes = [0.5, 1.0, 2.0, 0.25, 3.0, 10.0, 0.1, 1e6, 0.7];
    macro_rules! go { ($t:ty, $o:ty, $n:literal, $int:expr, $tol:expr, $lo:expr, $hi:expr) => {
        for k in 0..c.rounds(500) {
            if !c.time_left() { break; }
            let n = c.rng.below(if k % 10 == 0 { 300 } else { 15 });
            let grid = c.rng.chance(1, 2);
            let pts: Vec<Point<$t, $n>> = (0..n).map(|_| Point::from(std::array::from_fn(|_| if grid || $int { (c.rng.int($lo * 2, $hi * 2) as f64 / if $int { 1.0 } else { 2.0 }) as $t } else { c.rng.f($lo as f64, $hi as f64) as $t }))).collect();
            let v = sizes[c.rng.below(sizes.len())];
            let vo = v as $o;
            voxels::<$t, $n>(c, &pts, v, &|p| downsample_point_cloud_voxel(p, vo), &|x| (x as $o / vo).floor() as i64, $int, $tol)?;
        }
    } }
    go!(f32, f32, 1, false, 1e-4, -8, 8);
    go!(f32, f32, 2, false, 1e-4, -4, 4);
    go!(f32, f32, 3, false, 1e-4, -3, 3);
    go!(f64, f64, 2, false, 1e-9, -4, 4);
    go!(f64, f64, 3, false, 1e-9, -50, 50);
    go!(f64, f64, 4, false, 1e-9, -2, 2);
    go!(f64, f64, 6, false, 1e-9, -1, 1);
    go!(f64, f32, 2, false, 1e-6, -4, 4);
    go!(i32, f32, 2, true, 1e-9, -6, 6);
    go!(i64, f64, 3, true, 1e-9, -9, 9);
    go!(u32, f64, 2, true, 1e-9, 0, 9);
    // cells far from the origin (beyond 32 bits) and tiny voxels
    for k in 0..c.rounds(60) {
        if !c.time_left() { break; }
        let n = c.rng.below(25);
        let far = [1e5, 1e9, 3e10][k % 3] * if k % 2 == 0 { -1.0 } else { 1.0 };
        let v = [1.0, 0.25, 4.0][c.rng.below(3)];
        // the same offset modulo 2^32 cells on some points
        let wrap = 4294967296.0 * v;
        let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(far + c.rng.int(-9, 9) as f64 * 0.5 + if c.rng.chance(1, 4) { wrap } else { 0.0 }, c.rng.int(-9, 9) as f64 * 0.5 - if c.rng.chance(1, 4) { wrap } else { 0.0 })).collect();
        voxels::<f64, 2>(c, &pts, v, &|p| downsample_point_cloud_voxel(p, v), &|x| (x / v).floor() as i64, false, 1e-14)?;
        let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.f(-1e-3, 1e-3), c.rng.f(-1e-3, 1e-3))).collect();
        voxels::<f64, 2>(c, &pts, 1e-4, &|p| downsample_point_cloud_voxel(p, 1e-4f64).iter().map(|p| *p).collect(), &|x| (x / 1e-4).floor() as i64, false, 1e-12)?;
    }
    for n in [1000usize, 4000, 70_000] {
        let pts: Vec<Point<f64, 2>> = (0..n).map(|i| Point::from([(i % 7) as f64 * 0.5, (i % 3) as f64])).collect();
        voxels::<f64, 2>(c, &pts, 1.0, &|p| downsample_point_cloud_voxel(p, 1.0f64), &|x| x.floor() as i64, false, 1e-9)?;
        // many occupied cells
        let pts: Vec<Point<f64, 2>> = (0..n).map(|i| Point::from([(i % 500) as f64 + 0.25, (i / 500) as f64 + 0.5])).collect();
        c.case(format!("f64: {n} points in {n} cells of size 1"), true);
        let mut got: Vec<[u64; 2]> = call(|| downsample_point_cloud_voxel(&pts, 1.0f64))?.iter().map(|p| [p.x.to_bits(), p.y.to_bits()]).collect();
        let mut want: Vec<[u64; 2]> = pts.iter().map(|p| [p.x.to_bits(), p.y.to_bits()]).collect();
        got.sort();
        want.sort();
        ensure(got == want, || format!("{} points returned, or not the points themselves", got.len()))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
pub fn c07(c: &mut Ctx) -> Res {
    c.rule("random clouds of 0-40 and 1000-5000 points, dimensions 1-5, f32/f64, and integer clouds with exactly divisible sums; non-trivial: at least two points");
    macro_rules! go { ($t:ty, $n:literal, $tol:expr, $rounds:expr) => {
        for k in 0..$rounds {
            if !c.time_left() { break; }
            let n = if k % 50 == 49 { 1000 + c.rng.below(4000) } else { c.rng.below(40) };
            let wide = k % 2 == 0;
            // a power of two: rounding is the same at every scale
            let s = (2.0 as $t).powi([0, -60, 60, -20, 0, 0, 30][k / 2 % 7]);
            let pts: Vec<Point<$t, $n>> = (0..n).map(|_| Point::from(std::array::from_fn(|_| s * if wide { c.rng.f(-100.0, 100.0) as $t } else { c.rng.int(-8, 8) as $t }))).collect();
            c.case(format!("{}, N={}: centre of {:?}", stringify!($t), $n, pts.iter().take(64).map(key).collect::<Vec<_>>()), n > 1);
            let got: Point<$t, $n> = call(|| calculate_point_cloud_center(&pts))?;
            for i in 0..$n {
                let want = if n == 0 { 0.0 } else { pts.iter().map(|p| p[i] as f64).sum::<f64>() / n as f64 };
                let mag = if n == 0 { 0.0 } else { pts.iter().map(|p| (p[i] as f64).abs()).sum::<f64>() / n as f64 };
                ensure((got[i] as f64 - want).abs() <= $tol * (s as f64 + mag) * (1.0 + (n as f64).sqrt() * 0.01), || format!("{n} points: coordinate {i} of the centre is {}, the mean is {want}", got[i]))?;
            }
        }
    } }
    let r = c.rounds(600);
    go!(f32, 2, 3e-5, r); go!(f32, 3, 3e-5, r); go!(f64, 1, 1e-11, r); go!(f64, 2, 1e-11, r); go!(f64, 3, 1e-11, r); go!(f64, 5, 1e-11, r); go!(f64, 7, 1e-11, r / 3);
    for _ in 0..c.rounds(300) {
        // integers: sum divisible by the count
        let n = 1 + c.rng.below(12);
        let m = [c.rng.int(-50, 50), c.rng.int(-50, 50)];
        let mut pts: Vec<Point<i64, 2>> = vec![];
        for _ in 0..n / 2 { let d = [c.rng.int(-9, 9), c.rng.int(-9, 9)]; pts.push(Point::from([m[0] + d[0], m[1] + d[1]])); pts.push(Point::from([m[0] - d[0], m[1] - d[1]])); }
        if n % 2 == 1 { pts.push(Point::from(m)); }
        c.case(format!("i64: centre of {pts:?}"), n > 1);
        let got: Point<i64, 2> = call(|| calculate_point_cloud_center(&pts))?;
        ensure(got == Point::from(m), || format!("centre {got:?}, mean {m:?}"))?;
    }
    // more points than sixteen bits count
    let n = 66_000 + c.rng.below(5000);
    let pts: Vec<Point<f64, 2>> = (0..n).map(|_| Point::from([c.rng.f(0.0, 10.0), c.rng.f(-10.0, 1.0)])).collect();
    c.case(format!("f64: centre of {n} random points"), true);
    let got: Point<f64, 2> = call(|| calculate_point_cloud_center(&pts))?;
    for i in 0..2 {
        let want = pts.iter().map(|p| p[i]).sum::<f64>() / n as f64;
        ensure((got[i] - want).abs() < 1e-8, || format!("{n} points: coordinate {i} of the centre is {}, the mean is {want}", got[i]))?;
    }
    let e: Point<f32, 3> = calculate_point_cloud_center(&[]);
    c.case("empty cloud".into(), false);
    ensure(e == Point::from([0.0f32; 3]), || format!("centre of the empty cloud is {e:?}"))
}

// ------------------------------------------------------------------ C08
pub fn c08(c: &mut Ctx) -> Res {
    c.rule("random clouds (0-60 points) and random 2-D/3-D isometries, f32/f64, against explicit rotation formulas; non-trivial: at least two points");
    macro_rules! go { ($t:ty, $tol:expr) => {
        for k in 0..c.rounds(1500) {
            if !c.time_left() { break; }
            let n = c.rng.below(60);
            let n = if k % 60 == 7 { 300 + n } else if k % 3000 == 9 { 66_000 + n } else { n };
            let s = 2f64.powi([0, 0, -40, 40, -20, 20][k / 2 % 6]);
            let (a, tx, ty, tz) = (c.rng.f(-7.0, 7.0), s * c.rng.f(-20.0, 20.0), s * c.rng.f(-20.0, 20.0), s * c.rng.f(-20.0, 20.0));
            let a = match k % 9 { 3 => a * 1e-4, 4 => 0.0, 5 => (a / 2.0).round() * std::f64::consts::FRAC_PI_2, _ => a };
            let pts: Vec<Point2<$t>> = (0..n).map(|_| Point2::new((s * c.rng.f(-20.0, 20.0)) as $t, (s * c.rng.f(-20.0, 20.0)) as $t)).collect();
            let iso = Isometry2::new(Vector2::new(tx as $t, ty as $t), a as $t);
            c.case(format!("{} 2-D: {n} points {:?} under angle {a}, translation ({tx},{ty})", stringify!($t), &pts[..n.min(60)]), n > 1);
            let src = pts.clone();
            let got = call(|| transform_point_cloud(&pts, iso))?;
            ensure(src == pts, || "the source cloud changed".into())?;
            ensure(got.len() == n, || format!("{} points returned for {n}", got.len()))?;
            let a = (a as $t) as f64;
            for (i, p) in pts.iter().enumerate() {
                let (x, y) = (p.x as f64, p.y as f64);
                let w = [a.cos() * x - a.sin() * y + tx, a.sin() * x + a.cos() * y + ty];
                ensure((got[i].x as f64 - w[0]).abs() < $tol * s && (got[i].y as f64 - w[1]).abs() < $tol * s, || format!("point {i}: {:?}, expected {w:?}", got[i]))?;
            }
            // 3-D: Rodrigues
            let ax = Vector3::new(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
            let pts: Vec<Point3<$t>> = (0..n).map(|_| Point3::new((s * c.rng.f(-20.0, 20.0)) as $t, (s * c.rng.f(-20.0, 20.0)) as $t, (s * c.rng.f(-20.0, 20.0)) as $t)).collect();
            let iso = Isometry3::from_parts(Vector3::new(tx as $t, ty as $t, tz as $t).into(), UnitQuaternion::from_scaled_axis(ax.map(|v| v as $t)));
            c.case(format!("{} 3-D: {n} points {:?} under rotation vector {ax:?}, translation ({tx},{ty},{tz})", stringify!($t), &pts[..n.min(60)]), n > 1);
            let src = pts.clone();
            let got = call(|| transform_point_cloud(&pts, iso))?;
            ensure(src == pts, || "the source cloud changed".into())?;
            ensure(got.len() == n, || format!("{} points returned for {n}", got.len()))?;
            let th = ax.norm();
            if th > 1e-6 {
                let k = ax / th;
                for (i, p) in pts.iter().enumerate() {
                    let v = Vector3::new(p.x as f64, p.y as f64, p.z as f64);
                    let w = v * th.cos() + k.cross(&v) * th.sin() + k * (k.dot(&v) * (1.0 - th.cos())) + Vector3::new(tx, ty, tz);
                    ensure((0..3).all(|d| (got[i][d] as f64 - w[d]).abs() < $tol * s), || format!("point {i}: {:?}, expected {w:?}", got[i]))?;
                }
            }
        }
    } }
    go!(f32, 1e-3);
    go!(f64, 1e-10);
    // exact cases: quarter turns of integer points, the identity, and pure translations at any scale
    for k in 0..c.rounds(200) {
        let n = c.rng.below(9);
        let s = [1.0, 1e-6, 1e6, 1e12][k % 4];
        let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.int(-9, 9) as f64 * s, c.rng.int(-9, 9) as f64 * s)).collect();
        let t = Vector2::new(c.rng.int(-9, 9) as f64 * s, c.rng.int(-9, 9) as f64 * s);
        c.case(format!("f64 2-D: {pts:?} under translation {t:?}"), n > 1);
        let got = call(|| transform_point_cloud(&pts, Isometry2::new(t, 0.0)))?;
        ensure(got.len() == n && got.iter().zip(&pts).all(|(g, p)| (g - p - t).norm() <= 1e-14 * s * 20.0), || format!("{got:?}"))?;
        let (re, im) = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][c.rng.below(4)];
        let iso = Isometry2::from_parts(t.into(), nalgebra::Unit::new_unchecked(nalgebra::Complex::new(re, im)));
        c.case(format!("f64 2-D: {pts:?} under rotation {re}+{im}i, translation {t:?}"), n > 1);
        let got = call(|| transform_point_cloud(&pts, iso))?;
        ensure(got.len() == n && got.iter().zip(&pts).all(|(g, p)| (g.coords - Vector2::new(re * p.x - im * p.y, im * p.x + re * p.y) - t).norm() <= 1e-14 * s * 20.0), || format!("{got:?}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
pub fn c09(c: &mut Ctx) -> Res {
    c.rule("random sizes (0-60, some 2000) and random per-axis ranges (including degenerate and disjoint ones), dimensions 0-4, f32/f64/i32/u8; non-trivial: at least one point and differing ranges");
    macro_rules! go { ($t:ty, $n:literal) => {
        for k in 0..c.rounds(500) {
            if !c.time_left() { break; }
            let n = if k % 40 == 0 { 2000 } else if k % 3000 == 5 { 66_000 + c.rng.below(1000) } else { c.rng.below(60) };
            let ranges: [std::ops::RangeInclusive<$t>; $n] = std::array::from_fn(|_| { let lo = c.rng.int(0, 100) as $t; let w = if c.rng.chance(1, 5) { 0 } else { c.rng.int(0, 20) }; lo..=(lo + w as $t) });
            c.case(format!("{}: {n} points in {ranges:?}", stringify!($t)), n > 0);
            let a = call(|| generate_point_cloud(n, ranges.clone()))?;
            ensure(a.len() == n, || format!("{} points generated, {n} requested", a.len()))?;
            for (i, p) in a.iter().enumerate() {
                for d in 0..$n {
                    ensure(p[d] >= *ranges[d].start() && p[d] <= *ranges[d].end(), || format!("point {i}: coordinate {d} = {:?} is outside {:?}", p[d], ranges[d]))?;
                }
            }
            let b = call(|| generate_point_cloud(n, ranges.clone()))?;
            ensure(a == b, || "two calls with the same arguments differ".into())?;
        }
    } }
    go!(f32, 2); go!(f32, 3); go!(f64, 1); go!(f64, 4); go!(i32, 3); go!(u8, 2); go!(f64, 0); go!(f64, 6); go!(i64, 9);
    // other calls in between change nothing
    for k in 0..c.rounds(60) {
        let n = c.rng.below(300);
        let r = [0.0..=1.0f64, -5.0..=(c.rng.f(-5.0, 5.0)), 3.0..=3.0];
        c.case(format!("f64: {n} points in {r:?}, with other calls in between"), n > 0);
        let a = call(|| generate_point_cloud(n, r.clone()))?;
        for _ in 0..k % 5 {
            let m = c.rng.below(50);
            call(|| generate_point_cloud(m, [0i32..=9, 0..=9]))?;
            call(|| generate_point_cloud(m, [0.0f32..=9.0]))?;
        }
        let r2 = r.clone();
        let h = std::thread::spawn(move || generate_point_cloud(n, r2));
        let b = call(|| generate_point_cloud(n, r.clone()))?;
        let t = h.join().map_err(|_| Fail { what: "panicked in a second thread".into() })?;
        ensure(a.len() == n && a == b && a == t, || "two calls with the same arguments differ".into())?;
        ensure(a.iter().all(|p| (0..3).all(|d| r[d].contains(&p[d]))), || format!("out of range: {a:?}"))?;
    }
    // negative and large ranges
    for _ in 0..c.rounds(200) {
        let lo = c.rng.f(-1e6, 1e6);
        let hi = lo + [1e-9, 10.0, 1e3, 1e9][c.rng.below(4)] * c.rng.f(0.0, 1.0);
        let n = c.rng.below(30);
        c.case(format!("f64: {n} points in {lo}..={hi}"), n > 0);
        let a = call(|| generate_point_cloud(n, [lo..=hi, -3.0..=-2.0]))?;
        ensure(a.len() == n && a.iter().all(|p| p.x >= lo && p.x <= hi && p.y >= -3.0 && p.y <= -2.0), || format!("{a:?}"))?;
        ensure(a == generate_point_cloud(n, [lo..=hi, -3.0..=-2.0]), || "two calls with the same arguments differ".into())?;
    }
    Ok(())
}
