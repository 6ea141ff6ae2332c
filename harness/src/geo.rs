use crate::core::*;
use mapping_algorithms::geo::*;
use nalgebra::{Point2, Vector3};
use std::f64::consts::{PI, TAU};

fn vec(lat: f64, lon: f64) -> Vector3<f64> {
    let (a, o) = (lat.to_radians(), lon.to_radians());
    Vector3::new(a.cos() * o.cos(), a.cos() * o.sin(), a.sin())
}
macro_rules! hav { ($name:ident, $t:ty, $eps:expr) => {
    fn $name(c: &mut Ctx, a: (f64, f64), b: (f64, f64), r: f64) -> Res {
        let (pa, pb, rr) = (Point2::new(a.0 as $t, a.1 as $t), Point2::new(b.0 as $t, b.1 as $t), r as $t);
        c.case(format!("haversine distance ({}) from {:?} to {:?}, radius {rr:?}", stringify!($t), (pa.x, pa.y), (pb.x, pb.y)), pa != pb);
        let d = call(|| calculate_haversine_distance(pa, pb, rr))?;
        ensure(d == d, || "NaN".into())?;
        let (u, v) = (vec(pa.x as f64, pa.y as f64), vec(pb.x as f64, pb.y as f64));
        let angle = u.cross(&v).norm().atan2(u.dot(&v));
        let eps: f64 = $eps;
        // haversine loses precision towards the antipode: d(asin sqrt h) = dh / sin(angle)
        let tol = 40.0 * eps + (60.0 * eps / angle.sin().abs().max(1e-300)).min(12.0 * eps.sqrt()) * if angle > 1.0 { 1.0 } else { 0.0 };
        let got = d as f64 / rr as f64;
        ensure((got - angle).abs() <= tol, || format!("{d:?}, the great-circle distance is {}", angle * r))?;
        // half a great circle along a meridian or the equator is computed without cancellation
        if (pa.x == 90.0 && pb.x == -90.0 && pa.y == pb.y) || (pa.x == 0.0 && pb.x == 0.0 && (pa.y - pb.y).abs() == 180.0) {
            ensure((got - PI).abs() <= eps.sqrt() / 8.0, || format!("{d:?} between antipodes, half the circumference is {}", PI * r))?;
        }
        ensure(d >= 0.0 && got <= PI * (1.0 + 4.0 * eps), || format!("{d:?} is negative or more than half the circumference"))?;
        let back = call(|| calculate_haversine_distance(pb, pa, rr))?;
        ensure(((back - d) as f64 / rr as f64).abs() <= tol, || format!("{d:?} one way, {back:?} back"))?;
        let twice = call(|| calculate_haversine_distance(pa, pb, rr + rr))?;
        ensure(((twice - d - d) as f64 / rr as f64).abs() <= 8.0 * eps * PI, || format!("{d:?} for the radius, {twice:?} for twice the radius"))?;
        if pa == pb {
            ensure(d == 0.0, || format!("{d:?} between equal points"))?;
        }
        Ok(())
    }
} }
hav!(hav64, f64, f64::EPSILON);
hav!(hav32, f32, f32::EPSILON as f64);
pub fn c20(c: &mut Ctx) -> Res {
    c.rule("all pairs of a 15-degree latitude / 30-degree longitude grid (f32 and f64), random pairs, pairs near the poles, the date line, coincident and antipodal pairs, radii from 1e-3 to 1e7; compared with the angle between the position vectors; non-trivial: distinct points");
    for i in 0..13 * 13 {
        for j in 0..13 * 13 {
            let f = |k: i32| ((k / 13 * 15 - 90) as f64, (k % 13 * 30 - 180) as f64);
            hav64(c, f(i), f(j), 6371.0)?;
            if (i + j) % 2 == 0 {
                hav32(c, f(i), f(j), 6371.0)?;
            }
        }
    }
    for k in 0..c.rounds(20000) {
        if !c.time_left() {
            break;
        }
        let a = (c.rng.f(-90.0, 90.0), c.rng.f(-180.0, 180.0));
        let r = [1.0, 6371.0, 6371000.0, 1e-3, c.rng.f(0.1, 1e7)][c.rng.below(5)];
        let tiny = [1e-3, 1e-7, 1e-12, 0.0][c.rng.below(4)];
        let b = match k % 6 {
            0 => (c.rng.f(-90.0, 90.0), c.rng.f(-180.0, 180.0)),
            1 => (-a.0 + c.rng.f(-tiny, tiny), a.1 + 180.0 + c.rng.f(-tiny, tiny)),
            2 => (a.0 + c.rng.f(-tiny, tiny), a.1 + c.rng.f(-tiny, tiny)),
            3 => (-a.0, a.1 - 180.0),
            4 => (c.rng.f(-90.0, 90.0), a.1 + 360.0 * c.rng.int(-1, 1) as f64 + c.rng.f(-5.0, 5.0)),
            _ => ([90.0, -90.0, 0.0][c.rng.below(3)], c.rng.f(-180.0, 180.0)),
        };
        let b = (b.0.clamp(-90.0, 90.0), b.1);
        hav64(c, a, b, r)?;
        hav32(c, a, b, r)?;
    }
    Ok(())
}
macro_rules! bear { ($name:ident, $t:ty, $eps:expr, $tau:expr) => {
    fn $name(c: &mut Ctx, a: (f64, f64), b: (f64, f64)) -> Res {
        let (pa, pb) = (Point2::new(a.0 as $t, a.1 as $t), Point2::new(b.0 as $t, b.1 as $t));
        let (u, v) = (vec(pa.x as f64, pa.y as f64), vec(pb.x as f64, pb.y as f64));
        let (la, lo) = ((pa.x as f64).to_radians(), (pa.y as f64).to_radians());
        let north = Vector3::new(-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos());
        let east = Vector3::new(-lo.sin(), lo.cos(), 0.0);
        let sine = u.cross(&v).norm();
        let defined = sine > 4e3 * $eps && (pa.x as f64).abs() < 89.5 && (pb.x as f64).abs() <= 90.0;
        c.case(format!("bearing ({}) from {:?} to {:?}", stringify!($t), (pa.x, pa.y), (pb.x, pb.y)), defined);
        let r = call(|| calculate_sphere_bearing(pa, pb))?;
        ensure(r >= 0.0 && r < $tau, || format!("{r:?} is not in [0, 2 pi)"))?;
        if defined {
            let want = v.dot(&east).atan2(v.dot(&north));
            let mut d = (r as f64 - want).rem_euclid(TAU);
            d = d.min(TAU - d);
            let eps: f64 = $eps;
            ensure(d <= 60.0 * eps + 40.0 * eps / sine, || format!("{r:?}, expected {} (modulo 2 pi)", want.rem_euclid(TAU)))?;
        }
        Ok(())
    }
} }
bear!(bear64, f64, f64::EPSILON, std::f64::consts::TAU);
bear!(bear32, f32, f32::EPSILON as f64, std::f32::consts::TAU);
pub fn c21(c: &mut Ctx) -> Res {
    c.rule("all pairs of a 15-degree latitude / 30-degree longitude grid away from the poles (f32 and f64), random pairs, the four cardinal directions; compared with the direction of the target in the local north/east frame; non-trivial: distinct, non-antipodal, start away from the poles");
    for i in 0..11 * 13 {
        for j in 0..11 * 13 {
            let f = |k: i32| ((k / 13 * 15 - 75) as f64, (k % 13 * 30 - 180) as f64);
            bear64(c, f(i), f(j))?;
            bear32(c, f(i), f(j))?;
        }
    }
    for k in 0..c.rounds(20000) {
        if !c.time_left() {
            break;
        }
        let a = (c.rng.f(-89.0, 89.0), c.rng.f(-180.0, 180.0));
        let b = match k % 4 {
            0 | 1 => (c.rng.f(-89.0, 89.0), c.rng.f(-180.0, 180.0)),
            2 => (c.rng.f(-89.0, 89.0), a.1), // due north or south
            _ => {
                let d = [4.0, 0.3, 1e-2, 1e-4, 1e-6, 1e-9][c.rng.below(6)];
                ((a.0 + c.rng.f(-d, d)).clamp(-89.0, 89.0), a.1 + c.rng.f(-d, d))
            }
        };
        bear64(c, a, b)?;
        bear32(c, a, b)?;
    }
    for k in 1..170 {
        let d = k as f64;
        for (b, want) in [((d.min(89.0), 0.0), 0.0), ((0.0, d), PI / 2.0), ((-d.min(89.0), 0.0), PI), ((0.0, -d), 1.5 * PI)] {
            c.case(format!("cardinal bearing from the origin to {b:?}"), true);
            let r = call(|| calculate_sphere_bearing(Point2::new(0.0, 0.0), Point2::new(b.0, b.1)))?;
            ensure((r - want).abs() < 1e-12, || format!("{r}, expected {want}"))?;
        }
    }
    Ok(())
}
