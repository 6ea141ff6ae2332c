//! C24: every pre-generated function against the generic one (a binary of its own: it only compiles
//! when all of them exist with the types their names state)
#[path = "../core.rs"]
#[allow(dead_code)]
mod core;
use crate::core::*;
use mapping_algorithms::{geo, lines, point_clouds as pc, polygons as pg};
use nalgebra::{Isometry2, Isometry3, Point, Point2, Point3, UnitComplex, UnitQuaternion, Vector2, Vector3};
use std::fmt::Debug;
use std::time::Duration;

fn show<R: Debug>(r: Result<R, Fail>) -> String {
    match r {
        Ok(r) => format!("{r:?}"),
        Err(f) => f.what,
    }
}
fn same<R: Debug>(c: &mut Ctx, what: String, a: impl FnOnce() -> R, b: impl FnOnce() -> R) -> Res {
    c.case(what, true);
    let (x, y) = (show(call(a)), show(call(b)));
    ensure(x == y, || format!("pre-generated: {x}, generic: {y}"))
}
fn coord(c: &mut Ctx) -> f64 {
    match c.rng.below(5) {
        0 => c.rng.f(-40.0, 40.0),
        1 => c.rng.int(0, 30) as f64 + 0.5,
        2 => c.rng.int(0, 100) as f64,
        _ => c.rng.int(-30, 30) as f64,
    }
}
macro_rules! line { ($c:expr, $p:ident, $prec:ty, $n:literal, $($out:ident $f:ident),*) => { $( for k in 0..$c.rounds(40) {
    let pos = k % 2 == 0;
    // every fifth line lies far from the origin, every seventh is long
    let (off, long) = if k % 5 == 3 { (if std::mem::size_of::<$prec>() == 4 { 8e6 } else if k % 10 == 3 { 1e12 } else { 2147483640.0 }, 1.0) } else { (0.0, if k % 7 == 5 { 40.0 } else { 1.0 }) };
    let mut v = || { let x = coord($c) * long; (if pos { off + x.abs() } else { x - off }) as $prec };
    let s: [$prec; $n] = std::array::from_fn(|_| v());
    let e: [$prec; $n] = std::array::from_fn(|_| v());
    let (s, e): (Point<$prec, $n>, Point<$prec, $n>) = (Point::from(s), Point::from(e));
    same($c, format!("lines::{}::{} from {s:?} to {e:?}", stringify!($p), stringify!($f)), || -> Vec<Point<$out, $n>> { lines::$p::$f(s, e) }, || lines::plot_bresenham_line::<$prec, $out, $n>(s, e))?;
} )* } }
macro_rules! hull { ($c:expr, $p:ident, $prec:ty, $($t:ident $g:ident $j:ident),*) => { $( for k in 0..$c.rounds(60) {
    let n = $c.rng.below(9);
    let m = if k % 3 == 0 { 5 } else { 20 };
    let lo = if (<$t>::MIN as f64) < 0.0 && k % 2 == 0 { -m } else { 0 };
    let mut pts: Vec<Point2<$t>> = (0..n).map(|_| Point2::new($c.rng.int(lo, m) as $t, $c.rng.int(lo, m) as $t)).collect();
    if k % 2 == 0 { pts.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap()); }
    let sorted = k % 2 == 0 && k % 4 != 0;
    // one cell for all points, or (three points) any size: the result does not depend on the order of the downsampled points
    let voxel: Option<$prec> = match k % 5 { 0 | 1 => None, 2 => Some(1000.0), 3 if n == 3 && <$t>::MIN as f64 != 0.0 && std::mem::size_of::<$t>() > 1 => Some([0.5, -0.5][k / 5 % 2]), _ => Some(77.0) };
    let voxel = if lo < 0 && n != 3 { None } else { voxel };
    let sortable = voxel.is_none() || std::mem::size_of::<$t>() > 1;
    if sortable || n < 8 {
        same($c, format!("polygons::{}::{} of {pts:?}, sorted {sorted}, voxel {voxel:?}", stringify!($p), stringify!($g)), || pg::$p::$g(&pts, sorted, voxel), || pg::graham_scan::<$prec, $t>(&pts, sorted, voxel))?;
        if lo >= 0 || voxel.is_none() {
            same($c, format!("polygons::{}::{} of {pts:?}, voxel {voxel:?}", stringify!($p), stringify!($j)), || pg::$p::$j(&pts, voxel), || pg::jarvis_march::<$prec, $t>(&pts, voxel))?;
        }
    }
} )* } }
// integers wide enough for every product: the scan is exact, whatever the order of the downsampled points
macro_rules! wide_hull { ($c:expr, $p:ident, $prec:ty, $($t:ident $g:ident $j:ident),*) => { $( for k in 0..$c.rounds(40) {
    let n = [12, 40, 130, 300][k % 4];
    let m = [9, 60, 1000][k % 3];
    let pts: Vec<Point2<$t>> = (0..n).map(|_| Point2::new($c.rng.int(0, m) as $t, $c.rng.int(0, m) as $t)).collect();
    let voxel: Option<$prec> = match k % 5 { 3 => Some(0.5), 4 => Some(-0.5), _ => None };
    same($c, format!("polygons::{}::{} of {pts:?}, voxel {voxel:?}", stringify!($p), stringify!($g)), || pg::$p::$g(&pts, false, voxel), || pg::graham_scan::<$prec, $t>(&pts, false, voxel))?;
    // on collinear points the march depends on their order, which downsampling leaves open
    same($c, format!("polygons::{}::{} of {pts:?}, no voxel size", stringify!($p), stringify!($j)), || pg::$p::$j(&pts, None), || pg::jarvis_march::<$prec, $t>(&pts, None))?;
    // the caller's promise that the points are sorted changes nothing about which function runs
    same($c, format!("polygons::{}::{} of {pts:?}, sorted true", stringify!($p), stringify!($g)), || pg::$p::$g(&pts, true, None), || pg::graham_scan::<$prec, $t>(&pts, true, None))?;
} )* } }
fn odd(c: &mut Ctx, lim: f64) -> f64 {
    match c.rng.below(16) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => -0.0,
        4 => 0.0,
        5 => c.rng.f(-1.0, 1.0) * 1e-30,
        6 => c.rng.f(-1.0, 1.0) * 1e30,
        7 => lim,
        8 => -lim,
        9 => 2.0 * lim,
        _ => c.rng.f(-3.0 * lim, 3.0 * lim),
    }
}
macro_rules! all { ($c:expr, $p:ident, $prec:ident) => {{
    let c: &mut Ctx = $c;
    line!(c, $p, $prec, 2, i32 plot_2d_i32_bresenham_line, i64 plot_2d_i64_bresenham_line, isize plot_2d_isize_bresenham_line, u32 plot_2d_u32_bresenham_line, u64 plot_2d_u64_bresenham_line, usize plot_2d_usize_bresenham_line, f32 plot_2d_f32_bresenham_line, f64 plot_2d_f64_bresenham_line);
    line!(c, $p, $prec, 3, i32 plot_3d_i32_bresenham_line, i64 plot_3d_i64_bresenham_line, isize plot_3d_isize_bresenham_line, u32 plot_3d_u32_bresenham_line, u64 plot_3d_u64_bresenham_line, usize plot_3d_usize_bresenham_line, f32 plot_3d_f32_bresenham_line, f64 plot_3d_f64_bresenham_line);
    hull!(c, $p, $prec, u8 graham_scan_u8 jarvis_march_u8, u16 graham_scan_u16 jarvis_march_u16, u32 graham_scan_u32 jarvis_march_u32, u64 graham_scan_u64 jarvis_march_u64, usize graham_scan_usize jarvis_march_usize,
        i8 graham_scan_i8 jarvis_march_i8, i16 graham_scan_i16 jarvis_march_i16, i32 graham_scan_i32 jarvis_march_i32, i64 graham_scan_i64 jarvis_march_i64, isize graham_scan_isize jarvis_march_isize, f32 graham_scan_f32 jarvis_march_f32, f64 graham_scan_f64 jarvis_march_f64);
    for _ in 0..c.rounds(300) {
        let n = c.rng.below(9);
        let mut pt = || Point2::new(coord(c) as $prec, coord(c) as $prec);
        let poly: Vec<Point2<$prec>> = (0..n).map(|_| pt()).collect();
        let q: Vec<Point2<$prec>> = (0..6).map(|_| pt()).collect();
        same(c, format!("polygons::{}::are_multiple_points_in_polygon of {q:?} in {poly:?}", stringify!($p)), || pg::$p::are_multiple_points_in_polygon(&q, &poly), || pg::are_multiple_points_in_polygon(&q, &poly))?;
        same(c, format!("polygons::{}::is_single_point_in_polygon of {:?} in {poly:?}", stringify!($p), q[0]), || pg::$p::is_single_point_in_polygon(&q[0], &poly), || pg::is_single_point_in_polygon(&q[0], &poly))?;
        let (a, b, r) = (Point2::new(c.rng.f(-90.0, 90.0) as $prec, c.rng.f(-180.0, 180.0) as $prec), Point2::new(c.rng.f(-90.0, 90.0) as $prec, c.rng.f(-180.0, 180.0) as $prec), c.rng.f(1.0, 7000.0) as $prec);
        same(c, format!("geo::{}::calculate_haversine_distance from {a:?} to {b:?}, radius {r:?}", stringify!($p)), || geo::$p::calculate_haversine_distance(a, b, r), || geo::calculate_haversine_distance(a, b, r))?;
        same(c, format!("geo::{}::calculate_sphere_bearing from {a:?} to {b:?}", stringify!($p)), || geo::$p::calculate_sphere_bearing(a, b), || geo::calculate_sphere_bearing(a, b))?;
    }
    for k in 0..c.rounds(1500) {
        // any value at all, antipodes and equal points among them
        let a = Point2::new(odd(c, 90.0) as $prec, odd(c, 180.0) as $prec);
        let b = match k % 4 { 0 => a, 1 => Point2::new(-a.x, a.y - 180.0), _ => Point2::new(odd(c, 90.0) as $prec, odd(c, 180.0) as $prec) };
        let r = odd(c, 6371.0) as $prec;
        same(c, format!("geo::{}::calculate_haversine_distance from {a:?} to {b:?}, radius {r:?}", stringify!($p)), || geo::$p::calculate_haversine_distance(a, b, r), || geo::calculate_haversine_distance(a, b, r))?;
        same(c, format!("geo::{}::calculate_sphere_bearing from {a:?} to {b:?}", stringify!($p)), || geo::$p::calculate_sphere_bearing(a, b), || geo::calculate_sphere_bearing(a, b))?;
    }
    for k in 0..c.rounds(120) {
        let n = [1, 5, 60, 400][k % 4];
        let strange = k % 3 == 0;
        let mut pt = |on: bool| if strange && on { Point2::new(odd(c, 30.0) as $prec, odd(c, 30.0) as $prec) } else { Point2::new(coord(c) as $prec, coord(c) as $prec) };
        let poly: Vec<Point2<$prec>> = (0..n).map(|i| pt(i % 7 == 3)).collect();
        let mut q: Vec<Point2<$prec>> = (0..[0, 1, 6, 90][(k / 4) % 4]).map(|i| pt(i % 5 == 2)).collect();
        q.push(poly[0]);
        same(c, format!("polygons::{}::are_multiple_points_in_polygon of {q:?} in {poly:?}", stringify!($p)), || pg::$p::are_multiple_points_in_polygon(&q, &poly), || pg::are_multiple_points_in_polygon(&q, &poly))?;
        for q in &q {
            same(c, format!("polygons::{}::is_single_point_in_polygon of {q:?} in {poly:?}", stringify!($p)), || pg::$p::is_single_point_in_polygon(q, &poly), || pg::is_single_point_in_polygon(q, &poly))?;
        }
    }
    wide_hull!(c, $p, $prec, i64 graham_scan_i64 jarvis_march_i64, isize graham_scan_isize jarvis_march_isize, i32 graham_scan_i32 jarvis_march_i32, f64 graham_scan_f64 jarvis_march_f64, f32 graham_scan_f32 jarvis_march_f32);
    for k in 0..c.rounds(24) {
        // larger clouds, other units, every threshold; some targets shorter than the source
        let n = [20, 100, 300, 700][k % 4];
        let w = [1e-3, 9.0, 5e4][k % 3];
        let conf = pc::ICPConfiguration::<$prec>::builder().with_kd_tree(k % 5 < 2).with_max_iterations([1, 3, 8, 25][(k / 4) % 4]).with_absolute_mse_threshold([None, Some(0.5), Some(-1.0), Some(0.0)][k % 4]).with_mse_interval_threshold([0.01, 0.0, -1.0, 1e-9][(k / 2) % 4]).build();
        let mut a2: Vec<Point2<$prec>> = (0..n).map(|_| Point2::new(c.rng.f(-w, w) as $prec, c.rng.f(-w, w) as $prec)).collect();
        let m2 = Isometry2::new(Vector2::new(0.02 * w as $prec, -0.01 * w as $prec), 0.1);
        let b2: Vec<Point2<$prec>> = a2.iter().skip(k % 7).map(|p| m2 * p).collect();
        if k % 6 == 5 { a2[n / 2].x = [<$prec>::NAN, <$prec>::INFINITY][(k / 6) % 2]; }
        same(c, format!("point_clouds::{}::icp_2d of {n} and {} points with {conf:?}", stringify!($p), b2.len()), || -> pc::ICPResult<$prec, UnitComplex<$prec>, 2> { pc::$p::icp_2d(&a2, &b2, conf.clone()) }, || pc::icp::<$prec, 2>(&a2, &b2, conf.clone()))?;
        let a3: Vec<Point3<$prec>> = (0..n).map(|_| Point3::new(c.rng.f(-w, w) as $prec, c.rng.f(-w, w) as $prec, c.rng.f(-w, w) as $prec)).collect();
        let m3 = Isometry3::new(Vector3::new(0.02 * w as $prec, -0.01 * w as $prec, 0.03 * w as $prec), Vector3::new(0.1, 0.2, -0.1));
        let b3: Vec<Point3<$prec>> = a3.iter().skip(k % 7).map(|p| m3 * p).collect();
        same(c, format!("point_clouds::{}::icp_3d of {n} and {} points with {conf:?}", stringify!($p), b3.len()), || -> pc::ICPResult<$prec, UnitQuaternion<$prec>, 3> { pc::$p::icp_3d(&a3, &b3, conf.clone()) }, || pc::icp::<$prec, 3>(&a3, &b3, conf.clone()))?;
    }
    for k in 0..c.rounds(100) {
        let n = c.rng.below(12);
        let conf = pc::ICPConfiguration::<$prec>::builder().with_kd_tree(k % 2 == 0).with_max_iterations(c.rng.below(9)).with_absolute_mse_threshold([None, Some(0.5)][k % 2]).build();
        let a2: Vec<Point2<$prec>> = (0..n).map(|_| Point2::new(c.rng.f(-9.0, 9.0) as $prec, c.rng.f(-9.0, 9.0) as $prec)).collect();
        let m2 = Isometry2::new(Vector2::new(0.2 as $prec, -0.1), 0.1);
        let b2: Vec<Point2<$prec>> = a2.iter().skip(k % 2).map(|p| m2 * p).collect();
        same(c, format!("point_clouds::{}::icp_2d of {a2:?} and {b2:?} with {conf:?}", stringify!($p)), || -> pc::ICPResult<$prec, UnitComplex<$prec>, 2> { pc::$p::icp_2d(&a2, &b2, conf.clone()) }, || pc::icp::<$prec, 2>(&a2, &b2, conf.clone()))?;
        let a3: Vec<Point3<$prec>> = (0..n).map(|_| Point3::new(c.rng.f(-9.0, 9.0) as $prec, c.rng.f(-9.0, 9.0) as $prec, c.rng.f(-9.0, 9.0) as $prec)).collect();
        let m3 = Isometry3::new(Vector3::new(0.2 as $prec, -0.1, 0.3), Vector3::new(0.1, 0.2, -0.1));
        let b3: Vec<Point3<$prec>> = a3.iter().skip(k % 2).map(|p| m3 * p).collect();
        same(c, format!("point_clouds::{}::icp_3d of {a3:?} and {b3:?} with {conf:?}", stringify!($p)), || -> pc::ICPResult<$prec, UnitQuaternion<$prec>, 3> { pc::$p::icp_3d(&a3, &b3, conf.clone()) }, || pc::icp::<$prec, 3>(&a3, &b3, conf.clone()))?;
    }
}} }
fn c24(c: &mut Ctx) -> Res {
    c.rule("each of the 92 pre-generated functions on random arguments (signed and unsigned coordinates, sorted or not, with and without voxel size, all cloud sizes up to 700, polygons of up to 400 edges, NaN and infinite values included), compared with the generic function including panics; every case is non-trivial");
    all!(c, single_precision, f32);
    all!(c, double_precision, f64);
    Ok(())
}
fn js(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let deep = args.iter().any(|a| a == "--deep");
    std::panic::set_hook(Box::new(|_| {}));
    let mut ctx = Ctx::new(seed, deep, Duration::from_secs(600));
    let r = c24(&mut ctx);
    let case = CURRENT.lock().map(|s| s.clone()).unwrap_or_else(|e| e.into_inner().clone());
    let ok = r.is_ok();
    println!(
        "{{\"ok\":{ok},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"out_of_time\":false,\"case\":{},\"what\":{}}}",
        ctx.evals,
        ctx.seen.len(),
        js(&ctx.rules.join("; ")),
        ctx.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        if ok { "null".to_string() } else { js(&case) },
        js(&r.err().map(|f| f.what).unwrap_or_default())
    );
    std::process::exit(if ok { 0 } else { 1 });
}
