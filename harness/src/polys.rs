use crate::core::*;
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use mapping_algorithms::polygons::*;
use nalgebra::{Point, Point2};

pub fn known(id: &str) -> Vec<String> {
    let mut out = vec![];
    let u = [Point2::new(0u8, 0), Point2::new(0, 10), Point2::new(10, 10), Point2::new(10, 0)];
    let i = [Point2::new(0i8, 0), Point2::new(0, 20), Point2::new(20, 20), Point2::new(20, 0)];
    let bad = "panics: orientation differences and products are computed in the point type";
    match id {
        "C14" => {
            if call(|| graham_scan::<f32, u8>(&u, false, None)).is_err() {
                out.push(format!("graham_scan over u8 points (0,0),(0,10),(10,10),(10,0) {bad}"));
            }
            if call(|| graham_scan::<f32, i8>(&i, false, None)).is_err() {
                out.push(format!("graham_scan over i8 points (0,0),(0,20),(20,20),(20,0) {bad}"));
            }
        }
        "C15" => {
            if call(|| jarvis_march::<f32, u8>(&u, None)).is_err() {
                out.push(format!("jarvis_march over u8 points (0,0),(0,10),(10,10),(10,0) {bad}"));
            }
            if call(|| jarvis_march::<f32, i8>(&i, None)).is_err() {
                out.push(format!("jarvis_march over i8 points (0,0),(0,20),(20,20),(20,0) {bad}"));
            }
        }
        _ => {}
    }
    out
}

// ------------------------------------------------------------------ C11
macro_rules! extents { ($name:ident, $t:ty) => {
    fn $name<const N: usize>(c: &mut Ctx, poly: &[Point<$t, N>]) -> Res {
        c.case(format!("{}, N={N}: extents of {:?}", stringify!($t), poly.iter().map(|p| p.coords.as_slice().to_vec()).collect::<Vec<_>>()), poly.len() >= 3);
        let r = call(|| calculate_polygon_extents(poly))?;
        match r {
            None => ensure(poly.len() < 3, || "no extents for at least three vertices".into()),
            Some(x) => {
                ensure(poly.len() >= 3, || "extents for fewer than three vertices".into())?;
                for i in 0..N {
                    let lo = poly.iter().map(|p| p[i]).fold(<$t>::INFINITY, |a, b| if b < a { b } else { a });
                    let hi = poly.iter().map(|p| p[i]).fold(<$t>::NEG_INFINITY, |a, b| if b > a { b } else { a });
                    ensure(*x[i].start() == lo && *x[i].end() == hi, || format!("axis {i}: {:?}, expected {lo:?}..={hi:?}", x[i]))?;
                }
                Ok(())
            }
        }
    }
} }
extents!(ext32, f32);
extents!(ext64, f64);
pub fn c11(c: &mut Ctx) -> Res {
    c.rule("all 1-D vertex lists over {-1,0,2} up to length 5, random finite lists of 0-40 vertices in 1-4 dimensions, f32 and f64, including huge, tiny and signed-zero coordinates; non-trivial: at least three vertices");
    let vals = [-1.0, 0.0, 2.0];
    for len in 0..=5 {
        sequences(3, len, &mut |s| ext64::<1>(c, &s.iter().map(|v| Point::from([vals[*v]])).collect::<Vec<_>>()))?;
    }
    for len in 0..=3 {
        sequences(9, len, &mut |s| ext32::<2>(c, &s.iter().map(|v| Point::from([vals[*v % 3] as f32, vals[*v / 3] as f32])).collect::<Vec<_>>()))?;
    }
    for k in 0..c.rounds(4000) {
        if !c.time_left() {
            break;
        }
        let n = c.rng.below(if k % 1000 == 7 { 3000 } else if k % 10 == 0 { 40 } else { 7 });
        let mut v = || match c.rng.below(9) {
            0 => f32::MAX as f64,
            1 => f32::MIN as f64,
            2 => -0.0,
            3 => 1e-40,
            _ => {
                let s = if k % 3 == 0 { 100.0 } else if k % 3 == 1 { -50.0 } else { 0.0 };
                s + c.rng.f(-40.0, 40.0)
            }
        };
        let pts: Vec<[f64; 4]> = (0..n).map(|_| [v(), v(), v(), v()]).collect();
        match k % 5 {
            0 => ext64::<2>(c, &pts.iter().map(|p| Point::from([p[0], p[1]])).collect::<Vec<_>>())?,
            1 => ext32::<2>(c, &pts.iter().map(|p| Point::from([p[0] as f32, p[1] as f32])).collect::<Vec<_>>())?,
            2 => ext64::<3>(c, &pts.iter().map(|p| Point::from([p[0], p[1], p[2]])).collect::<Vec<_>>())?,
            3 => ext64::<4>(c, &pts.iter().map(|p| Point::from(*p)).collect::<Vec<_>>())?,
            _ => ext32::<3>(c, &pts.iter().map(|p| Point::from([p[0] as f32, p[1] as f32, p[2] as f32])).collect::<Vec<_>>())?,
        }
    }
    // long lists with one extreme vertex at either end or in between
    for n in [256usize, 300, 70_000] {
        for at in [0, 1, n / 2, 255, n - 2, n - 1] {
            let mut pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.f(3.0, 4.0), c.rng.f(-4.0, -3.0))).collect();
            pts[at] = Point2::new(-1.0, 1e6);
            c.case(format!("f64: extents of {n} random vertices in [3,4] x [-4,-3], vertex {at} replaced by (-1, 1e6)"), true);
            let (hi, lo) = (pts.iter().map(|p| p.x).fold(-1e9, f64::max), pts.iter().map(|p| p.y).fold(1e9, f64::min));
            let r = call(|| calculate_polygon_extents(&pts))?;
            ensure(r.as_ref().map_or(false, |x| x[0] == (-1.0..=hi) && x[1] == (lo..=1e6)), || format!("{r:?}, expected {:?}", [-1.0..=hi, lo..=1e6]))?;
        }
    }
    // vertices closer together than any fixed tolerance, and far from the origin
    for k in 0..c.rounds(100) {
        let n = 3 + c.rng.below(6);
        let (o, s) = [(0.0, 1e-12), (1e6, 1e-9), (-3.0, 1e-15), (0.0, 1e-300), (0.0, 1e300)][k % 5];
        let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(o + c.rng.int(-9, 9) as f64 * s, o - c.rng.int(-9, 9) as f64 * s)).collect();
        ext64::<2>(c, &pts)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12 / C13
/// even-odd count in floating point; None when a crossing is too close to call
fn inside_f(p: &Point2<f64>, poly: &[Point2<f64>], eps: f64) -> Option<bool> {
    let mut n = 0;
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        let (lo, hi) = (a.y.min(b.y), a.y.max(b.y));
        if !(p.y > lo && p.y <= hi) {
            continue;
        }
        let x = a.x + (p.y - a.y) * ((b.x - a.x) / (b.y - a.y));
        if (x - p.x).abs() <= eps * (a.x.abs() + b.x.abs() + p.x.abs()) * (1.0 + (a.y.abs() + b.y.abs()) / (hi - lo)) {
            return None;
        }
        n += (p.x < x) as usize;
    }
    Some(n % 2 == 1)
}
fn inexact(c: &mut Ctx, batch: bool) -> Res {
    for k in 0..c.rounds(500) {
        if !c.time_left() {
            break;
        }
        let n = 3 + c.rng.below(if k % 50 == 3 { 400 } else if k % 7 == 0 { 40 } else { 8 });
        let s = [1.0, 1e-3, 1e4, 1e-9, 1e7, 1e-12, 1e12, 1e-80, 1e80][c.rng.below(9)];
        let fits = (1e-12..=1e12).contains(&s);
        let (ox, oy) = if k % 2 == 0 { (0.0, 0.0) } else { (s * c.rng.f(-50.0, 50.0), s * c.rng.f(-50.0, 50.0)) };
        let poly: Vec<Point2<f64>> = if k % 3 == 0 {
            let mut a: Vec<f64> = (0..n).map(|_| c.rng.f(0.0, std::f64::consts::TAU)).collect();
            a.sort_by(|x, y| x.partial_cmp(y).unwrap());
            a.iter().map(|t| { let r = s * c.rng.f(5.0, 10.0); Point2::new(ox + t.cos() * r, oy + t.sin() * r) }).collect()
        } else {
            (0..n).map(|_| Point2::new(ox + s * c.rng.f(-10.0, 10.0), oy + s * c.rng.f(-10.0, 10.0))).collect()
        };
        let m = if k % 40 == 0 { 600 } else { 20 };
        let q: Vec<Point2<f64>> = (0..m).map(|j| match j % 4 {
            0 => Point2::new(ox + s * c.rng.f(-12.0, 12.0), poly[c.rng.below(n)].y),
            1 => Point2::new(poly[c.rng.below(n)].x, oy + s * c.rng.f(-12.0, 12.0)),
            2 => Point2::new(ox + s * c.rng.f(-12.0, 12.0), oy + s * c.rng.f(-12.0, 12.0)),
            _ => Point2::new(ox + s * c.rng.f(-300.0, 300.0), oy + s * c.rng.f(-300.0, 300.0)),
        }).collect();
        let f = |v: &Point2<f64>| Point2::new(v.x as f32, v.y as f32);
        let (p32, q32): (Vec<_>, Vec<_>) = (poly.iter().map(f).collect(), q.iter().map(f).collect());
        if batch {
            c.case(format!("batch test of {q:?} in {poly:?}"), true);
            let r = call(|| are_multiple_points_in_polygon(&q, &poly))?;
            let single: Vec<bool> = call(|| q.iter().map(|p| is_single_point_in_polygon(p, &poly)).collect())?;
            ensure(r.as_ref() == Some(&single), || format!("batch {r:?}, one by one {single:?}"))?;
            if !fits { continue }
            let r = call(|| are_multiple_points_in_polygon(&q32, &p32))?;
            let single: Vec<bool> = call(|| q32.iter().map(|p| is_single_point_in_polygon(p, &p32)).collect())?;
            ensure(r.as_ref() == Some(&single), || format!("batch (f32) {r:?}, one by one {single:?}"))?;
            continue;
        }
        let g = |v: &Point2<f32>| Point2::new(v.x as f64, v.y as f64);
        let wide: Vec<Point2<f64>> = p32.iter().map(g).collect();
        for (p, p4) in q.iter().zip(&q32) {
            if let Some(want) = inside_f(p, &poly, 1e-13) {
                c.case(format!("is {p:?} in {poly:?}"), true);
                let r = call(|| is_single_point_in_polygon(p, &poly))?;
                ensure(r == want, || format!("f64: {r}, an even-odd count says {want}"))?;
                let mut o = poly.clone();
                o.rotate_left(c.rng.below(n));
                if c.rng.chance(1, 2) { o.reverse(); }
                let r = call(|| is_single_point_in_polygon(p, &o))?;
                ensure(r == want, || format!("{r} for {o:?}, {want} for the list as given"))?;
            }
            if let Some(want) = if fits { inside_f(&g(p4), &wide, 1e-5) } else { None } {
                c.case(format!("is {p4:?} in {p32:?}"), true);
                let r = call(|| is_single_point_in_polygon(p4, &p32))?;
                ensure(r == want, || format!("f32: {r}, an even-odd count says {want}"))?;
            }
        }
    }
    Ok(())
}
/// None: the point lies exactly on an edge whose crossing is not exact in floating point
fn crosses(p: (i64, i64), a: (i64, i64), b: (i64, i64)) -> Option<bool> {
    let (lo, hi) = (a.1.min(b.1), a.1.max(b.1));
    if !(p.1 > lo && p.1 <= hi) {
        return Some(false);
    }
    // px <= a.x + (py - a.y) (b.x - a.x) / (b.y - a.y)
    let dy = (b.1 - a.1) as i128;
    let (mut l, mut r) = ((p.0 - a.0) as i128 * dy, (p.1 - a.1) as i128 * (b.0 - a.0) as i128);
    if dy < 0 {
        l = -l;
        r = -r;
    }
    if l == r && a.0 != b.0 && !(dy.unsigned_abs().is_power_of_two()) {
        return None;
    }
    Some(l <= r)
}
fn inside(p: (i64, i64), poly: &[(i64, i64)]) -> Option<bool> {
    let mut n = 0;
    for i in 0..poly.len() {
        n += crosses(p, poly[i], poly[(i + 1) % poly.len()])? as usize;
    }
    Some(n % 2 == 1)
}
fn pip(c: &mut Ctx, poly: &[(i64, i64)], q: &[(i64, i64)], batch: bool) -> Res {
    // in a unit of length that is a power of two; far from the origin only f64 is exact enough
    let (u64, u32) = ([1.0, 2f64.powi(-12), 2f64.powi(-100), 2f64.powi(80)][c.rng.below(4)], [1.0, 2f32.powi(-12), 2f32.powi(-30), 2f32.powi(30)][c.rng.below(4)]);
    let f = |v: &(i64, i64)| Point2::new(v.0 as f64 * u64, v.1 as f64 * u64);
    let far = poly.iter().any(|v| v.0.abs().max(v.1.abs()) > 6000);
    let g = |v: &(i64, i64)| if far { Point2::new(0.0, 0.0) } else { Point2::new(v.0 as f32 * u32, v.1 as f32 * u32) };
    let (p64, p32): (Vec<_>, Vec<_>) = (poly.iter().map(f).collect(), poly.iter().map(g).collect());
    if batch {
        c.case(format!("batch test of {q:?} in {poly:?}, all times {u64:?} (f64) or {u32:?} (f32)"), poly.len() >= 3 && !q.is_empty());
        let (q64, q32): (Vec<_>, Vec<_>) = (q.iter().map(f).collect(), q.iter().map(g).collect());
        let r = call(|| are_multiple_points_in_polygon(&q64, &p64))?;
        let r32 = call(|| are_multiple_points_in_polygon(&q32, &p32))?;
        if poly.len() < 3 {
            ensure(r.is_none() && r32.is_none(), || "an answer for fewer than three vertices".into())?;
            return Ok(());
        }
        let Some(r) = r else { return fail("no answer for at least three vertices") };
        let Some(r32) = r32 else { return fail("no answer for at least three vertices") };
        let single: Vec<bool> = call(|| q64.iter().map(|p| is_single_point_in_polygon(p, &p64)).collect())?;
        let single32: Vec<bool> = call(|| q32.iter().map(|p| is_single_point_in_polygon(p, &p32)).collect())?;
        ensure(r == single, || format!("batch (f64) {r:?}, one by one {single:?}"))?;
        return ensure(r32 == single32, || format!("batch (f32) {r32:?}, one by one {single32:?}"));
    }
    for p in q {
        let Some(want) = inside(*p, poly) else { continue };
        c.case(format!("is {p:?} in {poly:?}, all times {u64:?} (f64) or {u32:?} (f32)"), poly.len() >= 3);
        let r = call(|| is_single_point_in_polygon(&f(p), &p64))?;
        ensure(r == want, || format!("f64: {r}, an even-odd count says {want}"))?;
        if !far {
            let r = call(|| is_single_point_in_polygon(&g(p), &p32))?;
            ensure(r == want, || format!("f32: {r}, an even-odd count says {want}"))?;
        }
        if poly.len() > 1 {
            let k = 1 + c.rng.below(poly.len() - 1);
            let mut o = p64.clone();
            o.rotate_left(k);
            let r = call(|| is_single_point_in_polygon(&f(p), &o))?;
            ensure(r == want, || format!("{r} when the list starts at vertex {k}, {want} otherwise"))?;
            o.reverse();
            let r = call(|| is_single_point_in_polygon(&f(p), &o))?;
            ensure(r == want, || format!("{r} when the list is reversed, {want} otherwise"))?;
        }
    }
    Ok(())
}
/// the batch against the single test on coordinates as they come: nothing here is exact, and the queries sit on, just
/// inside and just outside the bounding box, level with the vertices
macro_rules! c13_rounded { ($c:expr, $t:ty) => {{
    let c: &mut Ctx = $c;
    let up = |x: $t, k: i64| { let mut x = x; for _ in 0..k.abs() { x = if k > 0 { x.next_up() } else { x.next_down() }; } x };
    for k in 0..c.rounds(4000) {
        let n = 3 + c.rng.below(if k % 9 == 0 { 40 } else { 6 });
        let e = [0i32, 0, 3, -3, if std::mem::size_of::<$t>() == 4 { 15 } else { 140 }, if std::mem::size_of::<$t>() == 4 { -15 } else { -140 }][k % 6];
        let unit = (10.0 as $t).powi(e);
        let wild = k % 10 == 9;
        let mut co = || { let m = if wild { (10.0 as $t).powi(c.rng.int(-18, 18) as i32) } else { 1.0 }; (c.rng.int(-200, 200) as $t) / 10.0 * unit * m };
        let poly: Vec<Point2<$t>> = (0..n).map(|_| Point2::new(co(), co())).collect();
        let (mut x0, mut x1) = (poly[0].x, poly[0].x);
        for v in &poly { x0 = x0.min(v.x); x1 = x1.max(v.x); }
        let mut q = vec![];
        for v in &poly {
            for x in [x0, x1, v.x] { for d in [-2, -1, 0, 1, 2] { q.push(Point2::new(up(x, d), v.y)); } }
            q.push(Point2::new(x0, up(v.y, 1)));
            q.push(Point2::new(up(x0, -1), up(v.y, -1)));
            q.push(Point2::new(up(x0, -1), co()));
            q.push(Point2::new(v.x, co()));
        }
        c.case(format!("batch test of {q:?} in {poly:?}"), true);
        let r = call(|| are_multiple_points_in_polygon(&q, &poly))?;
        let Some(r) = r else { return fail("no answer for at least three vertices") };
        ensure(r.len() == q.len(), || format!("{} answers for {} points", r.len(), q.len()))?;
        for (i, p) in q.iter().enumerate() {
            let one = call(|| is_single_point_in_polygon(p, &poly))?;
            ensure(r[i] == one, || format!("point {i}, {p:?}: batch {}, single-point test {one}", r[i]))?;
        }
    }
}} }
fn pips(c: &mut Ctx, batch: bool) -> Res {
    let grid: Vec<(i64, i64)> = (0..16).map(|k| (k % 4 - 0, k / 4)).collect();
    let q5: Vec<(i64, i64)> = (0..25).map(|k| (k % 5 - 1, k / 5 - 1)).collect();
    for len in 0..=3 {
        sequences(16, len, &mut |s| pip(c, &s.iter().map(|v| (grid[*v].0, grid[*v].1)).collect::<Vec<_>>(), &q5, batch))?;
    }
    sequences(9, 4, &mut |s| pip(c, &s.iter().map(|v| ((v % 3) as i64, (v / 3) as i64)).collect::<Vec<_>>(), &q5, batch))?;
    for k in 0..c.rounds(1500) {
        if !c.time_left() {
            break;
        }
        let (n, m) = (c.rng.below(if k % 7 == 0 { 40 } else { 9 }), if k % 2 == 0 { 4 } else { 40 });
        let o = [60, 60, 4000, 1 << 40][k / 5 % 4];
        let (ox, oy) = (c.rng.int(-o, o), c.rng.int(-o, o));
        let poly: Vec<(i64, i64)> = if k % 3 == 0 {
            // star-shaped, in angular order
            let mut a: Vec<f64> = (0..n).map(|_| c.rng.f(0.0, std::f64::consts::TAU)).collect();
            a.sort_by(|x, y| x.partial_cmp(y).unwrap());
            a.iter().map(|t| (ox + (t.cos() * m as f64 * 2.0) as i64, oy + (t.sin() * m as f64 * 2.0) as i64)).collect()
        } else {
            (0..n).map(|_| (ox + c.rng.int(-m, m), oy + c.rng.int(-m, m))).collect()
        };
        let mut q: Vec<(i64, i64)> = (0..12).map(|_| (ox + c.rng.int(-m - 2, m + 2), oy + c.rng.int(-m - 2, m + 2))).collect();
        for v in &poly {
            q.push(*v); // level with a vertex, on a corner of the bounding box, ...
            q.push((v.0 + c.rng.int(-3, 3), v.1));
            q.push((v.0, v.1 + c.rng.int(-3, 3)));
        }
        pip(c, &poly, &q, batch)?;
    }
    if batch {
        pip(c, &[(0, 0), (0, 2), (2, 2)], &[], true)?;
        // more queries than fit a byte, or two
        for n in [256usize, 1000, 70_000] {
            let poly: Vec<Point2<f64>> = (0..9).map(|k| Point2::new((k as f64).cos() * (3.0 + k as f64), (k as f64 * 1.3).sin() * 7.0)).collect();
            let q: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.f(-12.0, 12.0), c.rng.f(-9.0, 9.0))).collect();
            c.case(format!("batch test of {n} random points in {poly:?}"), true);
            let r = call(|| are_multiple_points_in_polygon(&q, &poly))?;
            let single: Vec<bool> = q.iter().map(|p| is_single_point_in_polygon(p, &poly)).collect();
            ensure(r.as_ref() == Some(&single), || format!("{:?} answers, differing from the single-point test", r.as_ref().map(|r| r.len())))?;
        }
        c13_rounded!(c, f64);
        c13_rounded!(c, f32);
    }
    inexact(c, batch)
}
pub fn c12(c: &mut Ctx) -> Res {
    c.rule("all polygons of up to 3 vertices on a 4x4 grid and of 4 on a 3x3 grid with 25 query points, random self-intersecting and star-shaped polygons up to 40 vertices, queries level with vertices, f32 and f64, every start and direction sampled, up to 2^40 from the origin and in units that are powers of two, plus inexact coordinates at nine scales from 1e-80 to 1e80 with up to 400 vertices (crossings too close to call left out); queries exactly on a slanted edge only where its crossing is exact; non-trivial: at least three vertices");
    pips(c, false)
}
pub fn c13(c: &mut Ctx) -> Res {
    c.rule("the polygons of C12 with all their queries in one batch, plus random inexact ones at nine scales and up to 70000 queries, plus polygons of decimal coordinates with queries up to two roundings from the bounding box and level with the vertices; non-trivial: at least three vertices and one query");
    pips(c, true)
}

// ------------------------------------------------------------------ C14 / C15
type P = (i128, i128);
fn det(a: P, b: P, c: P) -> i128 {
    (b.1 - a.1) * (c.0 - b.0) - (b.0 - a.0) * (c.1 - b.1)
}
/// strictly convex hull, clockwise from the lexicographically smallest point; None when degenerate
fn hull(pts: &[P]) -> Option<Vec<P>> {
    if pts.len() < 3 {
        return None;
    }
    let mut s = pts.to_vec();
    s.sort();
    s.dedup();
    let half = |it: &mut dyn Iterator<Item = &P>| {
        let mut h: Vec<P> = vec![];
        for p in it {
            while h.len() > 1 && det(h[h.len() - 2], h[h.len() - 1], *p) <= 0 {
                h.pop();
            }
            h.push(*p);
        }
        h.pop();
        h
    };
    let mut u = half(&mut s.iter());
    u.extend(half(&mut s.iter().rev()));
    (u.len() > 2).then_some(u)
}
trait Co: Copy + PartialEq + std::fmt::Debug + 'static {
    
    fn from_i(v: i64, q: i64) -> Self;
    fn to_i(self) -> i128;
}
macro_rules! coi { ($($t:ty),*) => { $(impl Co for $t { fn from_i(v: i64, _q: i64) -> Self { v as $t } fn to_i(self) -> i128 { self as i128 * 64 } })* } }
macro_rules! cof { ($($t:ty),*) => { $(impl Co for $t { fn from_i(v: i64, q: i64) -> Self { v as $t / q as $t * (2.0 as $t).powi(POW.with(|p| p.get())) } fn to_i(self) -> i128 { let v = self * 64.0 * (2.0 as $t).powi(-POW.with(|p| p.get())); assert!(v == v.trunc()); v as i128 } })* } }
coi!(i8, i16, i32, i64, isize);
cof!(f32, f64);

#[derive(Clone, Copy, PartialEq)]
enum Alg {
    Graham,
    Jarvis,
}
fn check(alg: Alg, got: &Option<Vec<P>>, pts: &[P], what: &str) -> Res {
    let want = hull(pts);
    let Some(h) = got else {
        return ensure(want.is_none(), || format!("{what}: no hull, expected {want:?} (x64)"));
    };
    let Some(want) = want else {
        return fail(format!("{what}: a hull {h:?} (x64) of fewer than three or only collinear points"));
    };
    if alg == Alg::Graham {
        return ensure(*h == want, || format!("{what}: {h:?}, the strictly convex hull is {want:?} (x64)"));
    }
    ensure(h.len() >= 3, || format!("{what}: {} vertices", h.len()))?;
    ensure(h[0] == want[0], || format!("{what}: starts at {:?}, the lexicographically smallest point is {:?} (x64)", h[0], want[0]))?;
    for (i, v) in h.iter().enumerate() {
        ensure(pts.contains(v), || format!("{what}: vertex {v:?} (x64) is no input point"))?;
        ensure(!h[..i].contains(v), || format!("{what}: vertex {v:?} (x64) appears twice in {h:?}"))?;
        for p in pts {
            ensure(det(*v, h[(i + 1) % h.len()], *p) >= 0, || format!("{what}: point {p:?} lies outside the edge after vertex {i} of {h:?} (x64)"))?;
        }
    }
    let corners: Vec<P> = h.iter().filter(|v| want.contains(v)).cloned().collect();
    ensure(corners == want, || format!("{what}: corners {corners:?}, expected {want:?} (x64)"))
}
// power of two the floating-point clouds are scaled by: exactness and the hull do not depend on it
thread_local! { static POW: std::cell::Cell<i32> = const { std::cell::Cell::new(0) }; }
macro_rules! hulls { ($name:ident, $t:ty, $o:ty) => {
    fn $name(c: &mut Ctx, alg: Alg, pts: &[(i64, i64)], q: i64, voxel: Option<$o>) -> Res {
        let p: Vec<Point2<$t>> = pts.iter().map(|v| Point2::new(<$t>::from_i(v.0, q), <$t>::from_i(v.1, q))).collect();
        let ex = |v: &[Point2<$t>]| v.iter().map(|p| (p.x.to_i(), p.y.to_i())).collect::<Vec<P>>();
        let desc: Vec<($t, $t)> = p.iter().map(|p| (p.x, p.y)).collect();
        let name = if alg == Alg::Graham { "graham_scan" } else { "jarvis_march" };
        c.case(format!("{name}::<{}, {}> of {} points {:?}, voxel size {voxel:?}", stringify!($o), stringify!($t), p.len(), &desc[..p.len().min(800)]), p.len() >= 3);
        let base = match voxel {
            None => p.clone(),
            Some(v) if p.len() >= 3 => call(|| downsample_point_cloud_voxel(&p, v))?,
            _ => p.clone(),
        };
        let base = ex(&base);
        if alg == Alg::Jarvis {
            let r = call(|| jarvis_march::<$o, $t>(&p, voxel))?.map(|h| ex(&h));
            return check(alg, &r, &base, "hull");
        }
        let r = call(|| graham_scan::<$o, $t>(&p, false, voxel))?.map(|h| ex(&h));
        check(alg, &r, &base, "not declared sorted")?;
        let mut sorted = p.clone();
        if voxel.is_none() || c.evals % 2 == 0 {
            sorted.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap());
            let r = call(|| graham_scan::<$o, $t>(&sorted, true, voxel))?.map(|h| ex(&h));
            check(alg, &r, &base, "sorted and declared sorted")?;
        }
        if voxel.is_some() {
            // the downsampled cloud has no order of its own
            let r = call(|| graham_scan::<$o, $t>(&p, true, voxel))?.map(|h| ex(&h));
            check(alg, &r, &base, "with voxel size and declared sorted")?;
        }
        Ok(())
    }
} }
hulls!(h_f64, f64, f64);
hulls!(h_f32, f32, f32);
hulls!(h_i32, i32, f32);
hulls!(h_i64, i64, f64);
hulls!(h_i16, i16, f64);
hulls!(h_i8, i8, f32);
hulls!(h_isize, isize, f64);

fn cloud(c: &mut Ctx, k: usize, n: usize, m: i64) -> Vec<(i64, i64)> {
    let m = m.max(1);
    match k % 8 {
        // on two lines, on a circle, on a small grid, collinear, L-shaped, uniform
        0 => (0..n).map(|_| if c.rng.chance(1, 2) { (c.rng.int(-m, m), 0) } else { (c.rng.int(-m, m), m / 2) }).collect(),
        1 => (0..n).map(|_| { let t = c.rng.f(0.0, std::f64::consts::TAU); ((t.cos() * m as f64) as i64, (t.sin() * m as f64) as i64) }).collect(),
        2 => { let g = m.min(3); (0..n).map(|_| (c.rng.int(-g, g), c.rng.int(-g, g))).collect() }
        3 => { let (a, b) = (c.rng.int(-1, 1), c.rng.int(-1, 1)); (0..n).map(|_| { let t = c.rng.int(-m, m); (a * t, b * t) }).collect() }
        4 => (0..n).map(|_| if c.rng.chance(1, 2) { (c.rng.int(-m, m), -m) } else { (-m, c.rng.int(-m, m)) }).collect(),
        // axis-parallel rectangle border
        5 => (0..n).map(|_| { let t = c.rng.int(-m, m); match c.rng.below(4) { 0 => (t, m), 1 => (t, -m), 2 => (m, t), _ => (-m, t) } }).collect(),
        _ => (0..n).map(|_| (c.rng.int(-m, m), c.rng.int(-m, m))).collect(),
    }
}
/// points one unit or less away from a common line, the line long and steep or flat
fn near_line(c: &mut Ctx, n: usize, m: i64) -> Vec<(i64, i64)> {
    let steps = [1, 3, 40, 1000][c.rng.below(4)];
    let (dx, dy) = (c.rng.int(-m, m) / steps, c.rng.int(-m, m) / steps);
    (0..n).map(|_| { let t = c.rng.int(-steps, steps); ((dx * t + c.rng.int(-1, 1)).clamp(-m, m), (dy * t + c.rng.int(-1, 1)).clamp(-m, m)) }).collect()
}
/// a bow all of whose points are corners until one more point comes and takes them all away
fn bow(c: &mut Ctx, n: usize) -> Vec<(i64, i64)> {
    let n = n as i64;
    let mut p: Vec<(i64, i64)> = (0..n).map(|i| (i, -(i - n) * (i - n))).collect();
    p.push((n + c.rng.int(0, 1), n * n * c.rng.int(1, 3)));
    let (sx, sy, swap) = (c.rng.int(0, 1) * 2 - 1, c.rng.int(0, 1) * 2 - 1, c.rng.chance(1, 3));
    let mut p: Vec<(i64, i64)> = p.into_iter().map(|(x, y)| if swap { (sy * y, sx * x) } else { (sx * x, sy * y) }).collect();
    if c.rng.chance(1, 2) {
        for i in (1..p.len()).rev() {
            let j = c.rng.below(i + 1);
            p.swap(i, j);
        }
    }
    p
}
fn hullscan(c: &mut Ctx, alg: Alg) -> Res {
    for len in 0..=4 {
        sequences(9, len, &mut |s| {
            let p: Vec<(i64, i64)> = s.iter().map(|v| ((v % 3) as i64, (v / 3) as i64)).collect();
            h_f64(c, alg, &p, 1, None)?;
            h_i32(c, alg, &p, 1, None)
        })?;
    }
    let f = if c.deep { 1 } else { 3 };
    let mut k = 0usize;
    sequences(9, 5, &mut |s| {
        k += 1;
        if k % f != 0 {
            return Ok(());
        }
        let p: Vec<(i64, i64)> = s.iter().map(|v| ((v % 3) as i64, (v / 3) as i64)).collect();
        h_f32(c, alg, &p, 1, None)
    })?;
    for k in 0..c.rounds(3000) {
        if !c.time_left() {
            break;
        }
        let n = c.rng.below(if k % 900 == 5 { 700 } else if k % 9 == 0 { 60 } else { 12 });
        POW.with(|p| p.set([0, -30, 20, 0, -12, 9][k / 56 % 6]));
        match k % 7 {
            0 => { let p = cloud(c, k / 7, n, 250); h_f32(c, alg, &p, 4, None)? }
            1 => { let p = cloud(c, k / 7, n, 4000); h_i32(c, alg, &p, 1, None)? }
            2 => { let p = cloud(c, k / 7, n, 60); h_i16(c, alg, &p, 1, None)? }
            3 => { let p = cloud(c, k / 7, n, 3); h_i8(c, alg, &p, 1, None)? }
            4 => { let p = cloud(c, k / 7, n, 90000); h_i64(c, alg, &p, 1, None)? }
            5 => { let p = cloud(c, k / 7, n, 40); h_isize(c, alg, &p, 1, None)? }
            _ => { POW.with(|p| p.set([0, -30, 200, -200, -12, 400, 40][k / 49 % 7])); let p = cloud(c, k / 7, n, 30000); h_f64(c, alg, &p, 8, None)? }
        }
    }
    POW.with(|p| p.set(0));
    // integer coordinates whose products fit the coordinate type and not the output type
    for k in 0..c.rounds(300) {
        let n = 3 + c.rng.below(9);
        let near = k % 3 != 0;
        match k % 2 {
            0 => { let p = if near { near_line(c, n, 15_000) } else { cloud(c, k, n, 15_000) }; h_i32(c, alg, &p, 1, None)? }
            _ => { let p = if near { near_line(c, n, 1_000_000_000) } else { cloud(c, k, n, 1_000_000_000) }; h_i64(c, alg, &p, 1, None)? }
        }
    }
    for n in [5, 30, 66, 130, 258, 300] {
        for k in 0..4 {
            let p = bow(c, n + k);
            if k % 2 == 0 { h_i64(c, alg, &p, 1, None)? } else { h_f64(c, alg, &p, 1, None)? }
        }
    }
    if alg == Alg::Jarvis {
        // hull corners anywhere in a long input
        for n in [600, 1200, 3000, 6000] {
            let mut p: Vec<(i64, i64)> = (0..n).map(|_| (c.rng.int(-200, 200), c.rng.int(-200, 200))).collect();
            for q in [(-700, 10), (20, 800), (900, -30), (-50, -600)] {
                let j = n as usize * 9 / 10 + c.rng.below(n as usize / 10);
                p[j] = q;
            }
            h_f64(c, alg, &p, 1, None)?;
        }
        // an edge of many points: one of them first, then those on one side of it, those on the other, and the rest of the cloud
        for n in [2, 3, 9, 70, 300, 600, 1100] {
            for k in 0..8i64 {
                let mut p: Vec<(i64, i64)> = vec![(0, 0)];
                p.extend((1..=n).map(|i| (0, -i)));
                p.extend((1..=3).map(|i| (0, i * c.rng.int(1, 2) + 3 * i)));
                p.extend((0..4).map(|_| (c.rng.int(1, 50), c.rng.int(-n, 5))));
                let p: Vec<(i64, i64)> = p.into_iter().map(|(x, y)| { let (x, y) = (x * ((k & 1) * 2 - 1), y * ((k & 2) - 1)); if k & 4 == 0 { (x, y) } else { (y, x) } }).collect();
                h_f64(c, alg, &p, 1, None)?;
            }
        }
    }
    if alg == Alg::Graham {
        // many points, in order and not, collinear runs among them
        for k in 0..3 {
            let p = cloud(c, [7, 5, 1][k], 70_000, 30_000);
            h_f64(c, alg, &p, 1, None)?;
        }
    } else {
        for k in 0..4 {
            let p = cloud(c, [7, 5, 4, 2][k], 20_000, [300, 20, 100, 3][k]);
            h_f64(c, alg, &p, 1, None)?;
        }
    }
    // voxels: cells of size 4 (quarters: 1, 2 or 4 points per occupied cell, so centroids are exact)
    for k in 0..c.rounds(1200) {
        if !c.time_left() {
            break;
        }
        let n = c.rng.below(10);
        let mut p: Vec<(i64, i64)> = vec![];
        let mut cells = vec![];
        for v in cloud(c, k, n, if k % 2 == 0 { 6 } else { 2 }) {
            if cells.contains(&v) {
                continue;
            }
            cells.push(v);
            for _ in 0..[1, 1, 2, 4][c.rng.below(4)] {
                p.push((v.0 * 4 + c.rng.int(0, 3), v.1 * 4 + c.rng.int(0, 3)));
            }
        }
        for i in (1..p.len()).rev() {
            let j = c.rng.below(i + 1);
            p.swap(i, j);
        }
        match k % 3 {
            0 => h_f64(c, alg, &p, 1, Some(4.0))?,
            1 => h_f32(c, alg, &p, 2, Some(2.0))?,
            _ => h_i32(c, alg, &p, 1, Some(4.0))?,
        }
    }
    Ok(())
}
// any rounding: ends, with nothing or at least three input points from the lexicographically smallest on
macro_rules! ends { ($name:ident, $t:ty) => {
    fn $name(c: &mut Ctx, alg: Alg, pts: &[(f64, f64)]) -> Res {
        let p: Vec<Point2<$t>> = pts.iter().map(|v| Point2::new(v.0 as $t, v.1 as $t)).collect();
        let name = if alg == Alg::Graham { "graham_scan" } else { "jarvis_march" };
        c.case(format!("{name}::<{0}, {0}> of {1:?} (inexact orientation)", stringify!($t), p.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()), p.len() >= 3);
        let r = call(|| if alg == Alg::Graham { graham_scan::<$t, $t>(&p, false, None) } else { jarvis_march::<$t, $t>(&p, None) })?;
        let Some(h) = r else { return Ok(()) };
        ensure(h.len() >= 3, || format!("{} vertices: {h:?}", h.len()))?;
        for v in &h {
            ensure(p.contains(v), || format!("vertex {v:?} is no input point"))?;
        }
        let least = p.iter().min_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap()).unwrap();
        ensure(h[0] == *least, || format!("starts at {:?}, the lexicographically smallest point is {least:?}", h[0]))
    }
} }
ends!(ends_f64, f64);
ends!(ends_f32, f32);
fn rounded(c: &mut Ctx, alg: Alg) -> Res {
    for k in 0..c.rounds(6000) {
        if !c.time_left() {
            break;
        }
        let n = c.rng.below(if k % 100 == 7 { 200 } else { 14 });
        let (a, b, s) = (c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0), [0.0, 1e-7, 1e-16, 1e-3][k / 2 % 4]);
        let p: Vec<(f64, f64)> = (0..n).map(|_| {
            let (t, e) = (c.rng.f(-5.0, 5.0), c.rng.f(-s, s));
            // points on a line, on a line through thirds, nearly the same point
            match k / 8 % 3 {
                0 => (t, a * t + b + e),
                1 => { let t = c.rng.int(-9, 9) as f64 / 3.0; (a + t * b, b - t * a + e) }
                _ => (a + c.rng.int(-3, 3) as f64 * 1e-16, b + c.rng.int(-3, 3) as f64 * 1e-16 + e),
            }
        }).collect();
        if k % 2 == 0 { ends_f64(c, alg, &p)? } else { ends_f32(c, alg, &p)? }
    }
    Ok(())
}
pub fn c14(c: &mut Ctx) -> Res {
    c.rule("every sequence of up to 4 (and a third of those of 5) points on a 3x3 grid, random clouds up to 60 points (lines, circles, grids, borders, collinear) in f32/f64/i8/i16/i32/i64/isize within exact orientation, all option combinations, voxel sizes with exact centroids; compared with an exact hull; 6000 clouds with inexact orientation (ends, at least three points, the smallest first); non-trivial: at least three points");
    rounded(c, Alg::Graham)?;
    hullscan(c, Alg::Graham)
}
pub fn c15(c: &mut Ctx) -> Res {
    c.rule("the clouds of C14, in random order, with duplicates, and those with inexact orientation; non-trivial: at least three points");
    rounded(c, Alg::Jarvis)?;
    hullscan(c, Alg::Jarvis)
}
