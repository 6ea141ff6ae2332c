//! Runs the text tools/vx extracted from /repo beside the functions of the crate it was extracted from, on the same
//! inputs, and compares the results bit for bit. Prints `ok <function> <n>` or `DIFF <function> <input>`.
#![allow(unused, non_camel_case_types)]
mod shim;
macro_rules! dim {
    ($m:ident, $n:literal, $r:ty, $f:literal) => {
        pub mod $m {
            use crate::shim::*;
            pub type S = f64;
            pub type T = f64;
            pub type O = f64;
            pub type F = f64;
            pub type R = $r;
            pub type Rot = $r;
            pub const N: usize = $n;
            pub type PolygonExtents<A, const D: usize> = [RangeInclusive<A>; D];
            pub struct VxFnMut<'a>(pub &'a mut dyn FnMut(&Point<f64, N>));
            impl VxFnMut<'_> { pub fn vx_call(&mut self, p: &Point<f64, N>) { (self.0)(p) } }
            pub struct VxFnMutMut<'a>(pub &'a mut dyn FnMut(&mut Point<f64, N>));
            impl VxFnMutMut<'_> { pub fn vx_call(&mut self, p: &mut Point<f64, N>) { (self.0)(p) } }
            pub struct IsometryAbstractor<A, const D: usize>(A);
            include!(concat!(env!("LOWERED"), "/", $f, ".rs"));
        }
    };
}
dim!(d1, 1, (), "d1");
dim!(d2, 2, UnitComplex<f64>, "d2");
dim!(d3, 3, UnitQuaternion<f64>, "d3");

use mapping_algorithms as ma;
use nalgebra::{Isometry, Point, Point2};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct G(u64);
impl G {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn f(&mut self, m: f64) -> f64 { m * (2.0 * ((self.next() >> 11) as f64 / (1u64 << 53) as f64) - 1.0) }
    fn v(&mut self, k: usize) -> f64 {
        match k {
            0 => self.below(5) as f64 - 2.0,
            1 => self.below(40) as f64 - 20.0,
            2 => self.f(100.0),
            _ => [0.0, -0.0, 0.5, -0.5, 1.0, 1e30, -1e30, f64::NAN][self.below(8)],
        }
    }
    fn pt<const D: usize>(&mut self, k: usize) -> Point<f64, D> { Point::from(std::array::from_fn(|_| self.v(k))) }
    fn pts<const D: usize>(&mut self, k: usize, m: usize) -> Vec<Point<f64, D>> { let n = self.below(m + 1); (0..n).map(|_| self.pt(k)).collect() }
}
/// value, or the fact that it panics, in a form that shows every bit
fn show<X: std::fmt::Debug>(f: impl FnOnce() -> X) -> String {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => format!("{x:?}"), Err(_) => "panic".into() }
}
fn sorted<X: std::fmt::Debug>(v: Vec<X>) -> Vec<String> { let mut s: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect(); s.sort(); s }
struct Cmp { n: std::collections::BTreeMap<&'static str, (u64, u64)>, bad: std::collections::BTreeSet<&'static str> }
impl Cmp {
    fn eq(&mut self, name: &'static str, a: String, b: String, input: impl FnOnce() -> String) {
        let e = self.n.entry(name).or_default();
        e.0 += 1;
        if a != "panic" { e.1 += 1; }
        if a != b && self.bad.insert(name) { println!("DIFF {name} {} extracted {a} crate {b}", input()); }
    }
}
macro_rules! common {
    ($m:ident, $n:literal, $c:ident, $g:ident, $k:ident) => {{
        use ma::point_clouds as pc;
        let pts: Vec<Point<f64, $n>> = $g.pts($k, 9);
        let q: Point<f64, $n> = $g.pt($k);
        let inp = || format!("{:?} {:?}", pts, q);
        $c.eq("find_nearest_neighbour_naive", show(|| $m::find_nearest_neighbour_naive(&q, &pts)), show(|| pc::find_nearest_neighbour_naive(&q, &pts)), inp);
        let tree = |_: ()| {
            let mut t = $m::KDTree::from(&pts[..]);
            let mut v = vec![];
            t.traverse_tree(&mut $m::VxFnMut(&mut |p| v.push(*p)));
            let a = (t.len(), t.is_empty(), t.nearest(&q), v.clone());
            t.insert(q);
            t.traverse_tree_mut(&mut $m::VxFnMutMut(&mut |p| { p[0] += 0.5 * v.len() as f64; v.push(*p) }));
            (a, t.len(), v)
        };
        let real = |_: ()| {
            let mut t = ma::kd_tree::KDTree::from(&pts[..]);
            let mut v = vec![];
            t.traverse_tree(|p| v.push(*p));
            let a = (t.len(), t.is_empty(), t.nearest(&q), v.clone());
            t.insert(q);
            t.traverse_tree_mut(|p| { p[0] += 0.5 * v.len() as f64; v.push(*p) });
            (a, t.len(), v)
        };
        $c.eq("KDTree", show(|| tree(())), show(|| real(())), inp);
        $c.eq("lex_sort", show(|| $m::lex_sort(&pts)), show(|| pc::lex_sort(&pts)), inp);
        $c.eq("lex_sort_ref", show(|| $m::lex_sort_ref(&pts).map(|v| v.iter().map(|x| (*x) as *const Point<f64, $n> as usize).collect::<Vec<_>>())),
            show(|| pc::lex_sort_ref(&pts).map(|v| v.iter().map(|x| (*x) as *const Point<f64, $n> as usize).collect::<Vec<_>>())), inp);
        $c.eq("lex_sort_in_place", show(|| { let mut v = pts.clone(); let r = $m::lex_sort_in_place(&mut v); (r, v) }), show(|| { let mut v = pts.clone(); let r = pc::lex_sort_in_place(&mut v); (r, v) }), inp);
        $c.eq("calculate_polygon_extents", show(|| $m::calculate_polygon_extents(&pts)), show(|| ma::polygons::calculate_polygon_extents(&pts)), inp);
        $c.eq("calculate_point_cloud_center", show(|| $m::calculate_point_cloud_center(&pts)), show(|| pc::calculate_point_cloud_center(&pts)), inp);
        let h = [1.0, 0.5, 3.0, 7.25][$g.below(4)];
        $c.eq("downsample_point_cloud_voxel", show(|| sorted($m::downsample_point_cloud_voxel(&pts, h))), show(|| sorted(pc::downsample_point_cloud_voxel(&pts, h))), inp);
        let lo: [f64; $n] = std::array::from_fn(|_| $g.f(5.0));
        let rg: [std::ops::RangeInclusive<f64>; $n] = std::array::from_fn(|i| lo[i]..=lo[i] + 0.5 + i as f64);
        let k = $g.below(9);
        $c.eq("generate_point_cloud", show(|| $m::generate_point_cloud(k, rg.clone())), show(|| pc::generate_point_cloud(k, rg.clone())), inp);
        let (a, b): (Point<f64, $n>, Point<f64, $n>) = ($g.pt($k.min(1)), $g.pt($k.min(2)));
        $c.eq("plot_bresenham_line", show(|| $m::plot_bresenham_line(a, b)), show(|| ma::lines::plot_bresenham_line::<f64, f64, $n>(a, b)), || format!("{a:?} {b:?}"));
    }};
}
macro_rules! rigid {
    ($m:ident, $n:literal, $c:ident, $g:ident, $k:ident, $iso:expr) => {{
        use ma::point_clouds as pc;
        let a: Vec<Point<f64, $n>> = $g.pts($k, 12);
        let iso: Isometry<f64, _, $n> = $iso;
        let b: Vec<Point<f64, $n>> = if $g.below(4) == 0 { $g.pts($k, 12) } else { a.iter().map(|p| iso.transform_point(p)).collect() };
        let inp = || format!("{:?} {:?} {:?}", a, b, iso);
        $c.eq("transform_point_cloud", show(|| $m::transform_point_cloud(&a, iso)), show(|| pc::transform_point_cloud(&a, iso)), inp);
        let (kd, it, th, iv) = ($g.below(2) == 0, $g.below(6), [None, Some(1e-3), Some(1.0), Some(f64::NAN), Some(0.0)][$g.below(5)], [1e-3, 0.5, 0.0][$g.below(3)]);
        let dflt = $g.below(6) == 0;
        let lc = || {
            let x = $m::ICPConfiguration::builder();
            let y = if dflt { x.with_kd_tree(kd) } else { x.with_mse_interval_threshold(iv).with_kd_tree(kd).with_max_iterations(it).with_absolute_mse_threshold(th) };
            (format!("{y:?}"), y.build())
        };
        let rc = || {
            let x = pc::ICPConfiguration::builder();
            let y = if dflt { x.with_kd_tree(kd) } else { x.with_mse_interval_threshold(iv).with_kd_tree(kd).with_max_iterations(it).with_absolute_mse_threshold(th) };
            (format!("{y:?}"), y.build())
        };
        $c.eq("ICPConfigurationBuilder", show(lc), show(rc), || format!("{kd} {it} {th:?} {iv} {dflt}"));
        let (lcfg, rcfg) = (lc().1, rc().1);
        let one = |x: Option<()>| {
            let tree = if kd { Some($m::KDTree::from(&b[..])) } else { None };
            let (mut tp, mut tf, mut mse) = (a.clone(), Isometry::identity(), f64::MAX);
            let r = $m::icp_iteration(&a, &mut tp, &b, tree.as_ref(), &mut tf, &mut mse, &lcfg);
            (format!("{r:?}"), tp, tf, mse)
        };
        let two = |x: Option<()>| {
            let tree = if kd { Some(ma::kd_tree::KDTree::from(&b[..])) } else { None };
            let (mut tp, mut tf, mut mse) = (a.clone(), Isometry::identity(), f64::MAX);
            let r = pc::icp_iteration(&a, &mut tp, &b, tree.as_ref(), &mut tf, &mut mse, &rcfg);
            (format!("{r:?}"), tp, tf, mse)
        };
        if !a.is_empty() { $c.eq("icp_iteration", show(|| one(None)), show(|| two(None)), inp); }
        $c.eq("icp", show(|| $m::icp(&a, &b, lcfg.clone())), show(|| pc::icp(&a, &b, rcfg.clone())), inp);
    }};
}
fn main() {
    let rounds: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(300);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = G(seed);
    let g = &mut g;
    let mut c = Cmp { n: Default::default(), bad: Default::default() };
    for i in 0..rounds {
        let k = i % 4;
        common!(d1, 1, c, g, k);
        common!(d2, 2, c, g, k);
        common!(d3, 3, c, g, k);
        let kk = k.min(2);
        let (x, y, z, w) = (g.f(3.0), g.f(3.0), g.f(3.0), g.f(3.0));
        rigid!(d2, 2, c, g, kk, Isometry::<f64, nalgebra::UnitComplex<f64>, 2>::new(nalgebra::Vector2::new(x, y), z));
        rigid!(d3, 3, c, g, kk, Isometry::<f64, nalgebra::UnitQuaternion<f64>, 3>::new(nalgebra::Vector3::new(x, y, z), nalgebra::Vector3::new(w, x * 0.3, y * 0.2)));
        let poly: Vec<Point2<f64>> = g.pts(k, 8);
        let qs: Vec<Point2<f64>> = g.pts(k, 5);
        let inp = || format!("{poly:?} {qs:?}");
        for q in &qs {
            c.eq("is_single_point_in_polygon", show(|| d2::is_single_point_in_polygon(q, &poly)), show(|| ma::polygons::is_single_point_in_polygon(q, &poly)), inp);
        }
        c.eq("are_multiple_points_in_polygon", show(|| d2::are_multiple_points_in_polygon(&qs, &poly)), show(|| ma::polygons::are_multiple_points_in_polygon(&qs, &poly)), inp);
        let h = [None, Some(1.0), Some(4.0)][g.below(3)];
        // the order of a downsampled cloud is not fixed, and rounding may make hulls depend on it
        let as_set = |r: Option<Vec<Point2<f64>>>| r.map(sorted);
        let sort = g.below(2) == 0;
        if h.is_none() || k < 2 {
            c.eq("graham_scan", show(|| as_set(d2::graham_scan(&poly, sort, h))), show(|| as_set(ma::polygons::graham_scan(&poly, sort, h))), inp);
            
        }
        // which of several collinear points the march keeps depends on their order: no downsampling here
        if k < 3 { c.eq("jarvis_march", show(|| d2::jarvis_march(&poly, None::<f64>)), show(|| ma::polygons::jarvis_march(&poly, None::<f64>)), inp); }
        let (a, b) = (Point2::new(g.f(90.0), g.f(400.0)), Point2::new(g.f(90.0), g.f(400.0)));
        c.eq("calculate_haversine_distance", show(|| d2::calculate_haversine_distance(a, b, 6371.0)), show(|| ma::geo::calculate_haversine_distance(a, b, 6371.0)), || format!("{a:?} {b:?}"));
        c.eq("calculate_sphere_bearing", show(|| d2::calculate_sphere_bearing(a, b)), show(|| ma::geo::calculate_sphere_bearing(a, b)), || format!("{a:?} {b:?}"));
    }
    for (k, (n, v)) in &c.n { println!("{} {k} {n} {v}", if c.bad.contains(k) { "bad" } else { "ok" }); }
}
