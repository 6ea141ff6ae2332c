//! The contracts /verif/shim assumes of nalgebra, num-traits, rand and std, run against the real ones on generated
//! values at f32 and f64. Equalities that the contracts state exactly are compared exactly; the trigonometric, matrix and
//! isometry laws, stated over the reals, up to a tolerance (the product of the SVD factors to 1e-5 relative: nalgebra's
//! closed 3x3 form is itself off by about 1e-6 on badly scaled matrices). Prints `ok <contract> <n>` or `DIFF <contract> <case>`.
use nalgebra::{ComplexField, Isometry2, Isometry3, Point, RealField, Rotation, Rotation2, Rotation3, SMatrix, SVector, Translation, UnitComplex, UnitQuaternion};
use num_traits::{AsPrimitive, Bounded, Float, One, Zero};
use rand::{rngs::SmallRng, Rng, SeedableRng};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};

struct G(u64);
impl G {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn u(&mut self) -> f64 { 2.0 * ((self.next() >> 11) as f64 / (1u64 << 53) as f64) - 1.0 }
    fn v(&mut self) -> f64 {
        match self.below(5) {
            0 => self.below(5) as f64 - 2.0,
            1 => self.below(2000) as f64 - 1000.0,
            2 => self.u() * 100.0,
            3 => self.u() * 1e-3,
            _ => [0.0, -0.0, 0.5, 1.0, -1.0][self.below(5)],
        }
    }
    fn p<const D: usize>(&mut self) -> Point<f64, D> { Point::from(std::array::from_fn(|_| self.v())) }
    fn m<const D: usize>(&mut self) -> SMatrix<f64, D, D> {
        let k = self.below(4);
        let mut m: SMatrix<f64, D, D> = SMatrix::from_fn(|_, _| if k == 1 { self.below(4) as f64 - 1.0 } else { self.v() });
        if k == 2 { for i in 0..D { let c = m[(i, 0)]; m[(i, D - 1)] = c; } }
        if k == 3 && self.below(3) == 0 { m.fill(0.0); }
        m
    }
}
struct C { n: BTreeMap<&'static str, u64>, bad: HashSet<&'static str> }
impl C {
    fn t(&mut self, name: &'static str, ok: bool, case: impl FnOnce() -> String) {
        *self.n.entry(name).or_default() += 1;
        if !ok && self.bad.insert(name) { println!("DIFF {name} {}", case()); }
    }
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) }
fn pnear<const D: usize>(a: &Point<f64, D>, b: &Point<f64, D>) -> bool { (0..D).all(|i| near(a[i], b[i])) }
fn mnear<const D: usize>(a: &SMatrix<f64, D, D>, b: &SMatrix<f64, D, D>, tol: f64) -> bool { (a - b).amax() <= tol }
fn minor<const D: usize>(m: &SMatrix<f64, D, D>) -> f64 {
    if D == 2 { return m[(0, 0)] * m[(1, 1)] - m[(0, 1)] * m[(1, 0)]; }
    m[(0, 0)] * (m[(1, 1)] * m[(2, 2)] - m[(1, 2)] * m[(2, 1)]) - m[(0, 1)] * (m[(1, 0)] * m[(2, 2)] - m[(1, 2)] * m[(2, 0)]) + m[(0, 2)] * (m[(1, 0)] * m[(2, 1)] - m[(1, 1)] * m[(2, 0)])
}
macro_rules! scalar {
    ($t:ty, $c:ident, $g:ident) => {{
        let (a, b) = ($g.v() as $t, $g.v() as $t);
        let nan = <$t>::NAN;
        let s = || format!("{} {a:?} {b:?}", stringify!($t));
        $c.t("scalar: partial_cmp and == follow the values", a.partial_cmp(&b).is_some() && (a.partial_cmp(&b) == Some(Ordering::Less)) == ((a as f64) < b as f64) && (a == b) == (a as f64 == b as f64), s);
        $c.t("scalar: NaN is unordered", a.partial_cmp(&nan).is_none() && nan != nan && !(a < nan) && !(nan <= a), s);
        $c.t("scalar: rounding is exact on representable results, odd, and idempotent", (-a) + a == 0.0 && -(a - b) == b - a && (a * b) == -((-a) * b), s);
        $c.t("scalar: + and * round the exact result monotonically", a + b.abs() >= a && (b.abs() >= 1.0 || (a * b).abs() <= a.abs()), s);
        let fl = ComplexField::floor(a);
        $c.t("scalar: floor", fl as f64 == (a as f64).floor() && fl <= a && a < fl + 1.0 && AsPrimitive::<isize>::as_(fl) as f64 == fl as f64, s);
        $c.t("scalar: abs", ComplexField::abs(a) == (if a < 0.0 { -a } else { a }), s);
        $c.t("scalar: zero, one, default, sum", <$t>::zero() == 0.0 && <$t>::one() == 1.0 && <$t>::default() == 0.0 && core::iter::empty::<$t>().sum::<$t>() == 0.0 && <$t>::zero().is_zero() && (a.is_zero() == (a == 0.0)), s);
        $c.t("scalar: max_value and min_value bound the finite values", a <= <$t as Bounded>::max_value() && a >= <$t as Bounded>::min_value() && <$t as Bounded>::max_value().is_finite(), s);
        let (mn, mx) = (Float::min(a, b), Float::max(a, b));
        let (rn, rx) = (RealField::min(a, b), RealField::max(a, b));
        $c.t("scalar: min and max", (mn == a || mn == b) && mn <= a && mn <= b && (mx == a || mx == b) && mx >= a && mx >= b && rn == mn && rx == mx, s);
        let cl = num_traits::clamp(a, Float::min(b, 1.0), 1.0);
        $c.t("scalar: clamp", cl == (if a < Float::min(b, 1.0) { Float::min(b, 1.0) } else if a > 1.0 { 1.0 } else { a }) && num_traits::clamp(nan, 0.0 as $t, 1.0).is_nan(), s);
        $c.t("scalar: epsilon is positive", <$t>::EPSILON > 0.0, s);
        let n = $g.below(1 << 20);
        $c.t("scalar: usize converts exactly below 2^24", AsPrimitive::<$t>::as_(n) as f64 == n as f64, || n.to_string());
        let b2 = Float::abs(b) + 0.25;
        let r = Float::abs(a) % b2;
        $c.t("scalar: % of a non-negative by a positive", r >= 0.0 && r < b2 && { let q = (Float::abs(a) as f64 - r as f64) / b2 as f64; (q - q.round()).abs() < 1e-3 }, s);
        $c.t("range: contains, start and end", (mn..=mx).contains(&a) && *(mn..=mx).start() == mn && *(mn..=mx).end() == mx && ((0.0..=1.0).contains(&a) == (0.0 <= a && a <= 1.0)), s);
    }};
}
fn trig(c: &mut C, g: &mut G) {
    let (a, b) = (g.u() * 7.0, g.u() * 7.0);
    // the contracts know no negative zero
    let (x, y) = (g.v() + 0.0, g.v() + 0.0);
    let pi = <f64 as RealField>::pi();
    let s = || format!("{a} {b} {x} {y}");
    c.t("trig: pi", 3.14159 < pi && pi < 3.1416 && <f64 as RealField>::two_pi() == 2.0 * pi && <f64 as RealField>::frac_pi_2() == pi / 2.0, s);
    c.t("trig: to_radians", near(x.to_radians(), x * pi / 180.0), s);
    c.t("trig: sin^2 + cos^2", near(a.sin() * a.sin() + a.cos() * a.cos(), 1.0), s);
    c.t("trig: angle sums", near((a + b).sin(), a.sin() * b.cos() + a.cos() * b.sin()) && near((a + b).cos(), a.cos() * b.cos() - a.sin() * b.sin()), s);
    c.t("trig: odd and even, values at 0 and pi", (-a).sin() == -a.sin() && (-a).cos() == a.cos() && 0f64.sin() == 0.0 && 0f64.cos() == 1.0 && near(pi.sin(), 0.0) && near(pi.cos(), -1.0), s);
    let (u, v) = (((g.u() + 1.0) / 2.0) * pi, ((g.u() + 1.0) / 2.0) * pi);
    c.t("trig: cos decreases on [0, pi]", u == v || (u < v) == (u.cos() > v.cos()) || near(u, v), || format!("{u} {v}"));
    let (t, h) = (y.atan2(x), (x * x + y * y).sqrt());
    c.t("trig: atan2", -pi <= t && t <= pi && near(h * t.cos(), x) && near(h * t.sin(), y) && (!(y > 0.0) || t > 0.0) && (!(y < 0.0) || t < 0.0) && (x < 0.0 || y < 0.0 || t <= pi / 2.0) && 0f64.atan2(0.0) == 0.0, s);
    let w = g.u();
    c.t("trig: asin, acos, sqrt, powi", near(w.asin().sin(), w) && near(w.acos().cos(), w) && w.acos() >= 0.0 && w.acos() <= pi && w.asin().abs() <= pi / 2.0 && near(w.abs().sqrt() * w.abs().sqrt(), w.abs()) && (-1.0f64).sqrt().is_nan() && w.powi(2) == w * w, || w.to_string());
}
macro_rules! linear {
    ($c:ident, $g:ident, $n:literal) => {{
        let (a, b): (Point<f64, $n>, Point<f64, $n>) = ($g.p(), $g.p());
        let k = $g.v();
        let s = || format!("{a:?} {b:?} {k}");
        $c.t("nalgebra: point and vector arithmetic is coordinate-wise", (0..$n).all(|i| (a - b)[i] == a[i] - b[i] && (a.coords + b.coords)[i] == a[i] + b[i] && (a + b.coords)[i] == a[i] + b[i] && (a - b.coords)[i] == a[i] - b[i] && (a.coords - b.coords)[i] == a[i] - b[i] && (a.coords * k)[i] == a[i] * k && (k == 0.0 || (a / k)[i] == a[i] / k) && a.coords[i] == a[i]), s);
        $c.t("nalgebra: points compare, iterate and map coordinate by coordinate", (a == b) == (0..$n).all(|i| a[i] == b[i]) && a.iter().enumerate().all(|(i, x)| *x == a[i]) && a.iter().count() == $n && a.map(|x| x + 1.0) == Point::from(std::array::from_fn(|i| a[i] + 1.0)) && a.coords.iter().count() == $n && a.coords.data.0[0].iter().zip(a.iter()).all(|(x, y)| x == y), s);
        $c.t("nalgebra: default and origin are zero", Point::<f64, $n>::default().iter().all(|x| *x == 0.0) && Point::<f64, $n>::origin() == Point::default() && SVector::<f64, $n>::zeros().iter().all(|x| *x == 0.0), s);
    }};
}
macro_rules! matrix {
    ($c:ident, $g:ident, $n:literal) => {{
        let (m, o): (SMatrix<f64, $n, $n>, SMatrix<f64, $n, $n>) = ($g.m(), $g.m());
        let p: Point<f64, $n> = $g.p();
        let s = || format!("{m:?} {o:?} {p:?}");
        let scale = 1.0 + m.amax() * (1.0 + o.amax());
        $c.t("nalgebra: data.0[column][row]", (0..$n).all(|i| (0..$n).all(|j| m.data.0[j][i] == m[(i, j)] && (m + o)[(i, j)] == m[(i, j)] + o[(i, j)] && m.transpose()[(i, j)] == m[(j, i)])), s);
        $c.t("nalgebra: matrix product", (0..$n).all(|i| (0..$n).all(|j| ((m * o)[(i, j)] - (0..$n).map(|k| m[(i, k)] * o[(k, j)]).sum::<f64>()).abs() <= 1e-12 * scale * scale)), s);
        $c.t("nalgebra: matrix times vector", (0..$n).all(|i| ((m * p.coords)[i] - (0..$n).map(|k| m[(i, k)] * p[k]).sum::<f64>()).abs() <= 1e-12 * scale * (1.0 + p.coords.amax())), s);
        $c.t("nalgebra: determinant", (m.determinant() - minor(&m)).abs() <= 1e-12 * (1.0 + m.amax()).powi($n), s);
        let mut q = m;
        q.column_mut($n - 1).iter_mut().for_each(|x| *x *= -1.0);
        $c.t("nalgebra: column_mut visits one column", (0..$n).all(|i| (0..$n).all(|j| q[(i, j)] == if j == $n - 1 { -m[(i, j)] } else { m[(i, j)] })) && m.column($n - 1).len() == $n, s);
        let svd = m.svd(true, true);
        let (u, v, d) = (svd.u.unwrap(), svd.v_t.unwrap(), svd.singular_values);
        let id = SMatrix::<f64, $n, $n>::identity();
        let tol = 1e-9;
        $c.t("nalgebra: svd factors are orthogonal", mnear(&(u * u.transpose()), &id, tol) && mnear(&(v * v.transpose()), &id, tol), || format!("{s} u {u:?} v {v:?}", s = s()));
        $c.t("nalgebra: svd factors the matrix", mnear(&(u * SMatrix::from_diagonal(&d) * v), &m, 1e-5 * (m.amax() + 1e-30)), || format!("{s} u {u:?} v {v:?} d {d:?}", s = s()));
        $c.t("nalgebra: singular values are non-negative, in descending order", d.iter().all(|x| *x >= 0.0) && (1..$n).all(|i| d[i] <= d[i - 1] + 1e-12 * d.amax()), || format!("{} {d:?}", s()));
        $c.t("nalgebra: svd computes what is asked", m.svd(false, true).u.is_none() && m.svd(true, false).v_t.is_none(), s);
    }};
}
macro_rules! rigid {
    ($c:ident, $g:ident, $n:literal, $iso:ty, $rot:ty, $q:ty, $mk:expr) => {{
        let (i1, i2): ($iso, $iso) = ($mk, $mk);
        let p: Point<f64, $n> = $g.p();
        let s = || format!("{i1:?} {i2:?} {p:?}");
        $c.t("isometry: transform_point turns, then moves, exactly", i1.transform_point(&p) == Point::from((i1.rotation * p).coords + i1.translation.vector) && i1.transform_point(&p) == i1 * p && i1 * &p == i1 * p, s);
        $c.t("isometry: parts act alone", i1.rotation.transform_point(&p) == i1.rotation * p && i1.translation.transform_point(&p) == Point::from(p.coords + i1.translation.vector) && i1.translation.inverse_transform_point(&p) == Point::from(p.coords - i1.translation.vector), s);
        $c.t("isometry: inverse_transform_point undoes it", i1.inverse_transform_point(&p) == i1.rotation.inverse_transform_point(&Point::from(p.coords - i1.translation.vector)) && pnear(&i1.inverse_transform_point(&i1.transform_point(&p)), &p), s);
        $c.t("isometry: a product acts as its factors in turn", pnear(&((i1 * i2) * p), &(i1 * (i2 * p))) && (i1 * &i2) == i1 * i2, s);
        $c.t("isometry: identity", <$iso>::identity() * p == p, s);
        let rm: $rot = i1.rotation.to_rotation_matrix();
        let r2: Rotation<f64, $n> = Rotation::from_matrix_unchecked(rm.into_inner());
        $c.t("isometry: from_matrix_unchecked keeps the matrix; the representation acts as it", r2.into_inner() == rm.into_inner() && pnear(&(<$q>::from_rotation_matrix(&r2) * p), &Point::from(r2.into_inner() * p.coords)), s);
        let t: Translation<f64, $n> = i2.translation.vector.into();
        let f = <$iso>::from_parts(t, i1.rotation);
        $c.t("isometry: from_parts keeps its parts", f.rotation == i1.rotation && f.translation.vector == i2.translation.vector, s);
    }};
}
fn collections(c: &mut C, g: &mut G) {
    let v: Vec<(i32, usize)> = (0..g.below(40)).map(|i| (g.below(6) as i32, i)).collect();
    let mut w = v.clone();
    w.sort_by(|a, b| a.0.cmp(&b.0));
    c.t("std: sort_by is the stable sort", w.len() == v.len() && w.windows(2).all(|p| p[0].0 < p[1].0 || (p[0].0 == p[1].0 && p[0].1 < p[1].1)) && { let mut x: Vec<usize> = w.iter().map(|e| e.1).collect(); x.sort_unstable(); x.iter().enumerate().all(|(i, e)| i == *e) }, || format!("{v:?}"));
    c.t("std: max_by keeps the last maximum, min_by the first minimum", v.iter().max_by(|a, b| a.0.cmp(&b.0)).map(|e| e.1) == w.last().map(|e| e.1) && v.iter().min_by(|a, b| a.0.cmp(&b.0)).map(|e| e.1) == w.first().map(|e| e.1), || format!("{v:?}"));
    let mut m: HashMap<[isize; 2], Vec<usize>> = HashMap::new();
    let mut b: BTreeMap<[isize; 2], Vec<usize>> = BTreeMap::new();
    for (k, i) in &v { m.entry([*k as isize, 0]).or_default().push(*i); b.entry([*k as isize, 0]).or_default().push(*i); }
    let want: Vec<Vec<usize>> = (0..6).map(|k| v.iter().filter(|e| e.0 == k).map(|e| e.1).collect::<Vec<_>>()).filter(|x| !x.is_empty()).collect();
    let mut got: Vec<Vec<usize>> = m.into_values().collect();
    got.sort_by_key(|x| want.iter().position(|y| y == x));
    c.t("std: a map lists the vector of every key once", got == want && b.into_values().collect::<Vec<_>>() == want, || format!("{v:?}"));
    let seed = g.next();
    let (lo, w) = (g.v(), (g.u() + 1.0) * [0.0, 1e-9, 1.0, 100.0][g.below(4)]);
    let (mut r1, mut r2) = (SmallRng::seed_from_u64(seed), SmallRng::seed_from_u64(seed));
    let (a, b) = (r1.gen_range(lo..=lo + w), r2.gen_range(lo..=lo + w));
    let (a2, b2) = (r1.gen_range(lo..=lo + w), r2.gen_range(lo..=lo + w));
    c.t("rand: gen_range is a function of the state and stays in the range", a == b && a2 == b2 && lo <= a && a <= lo + w && lo <= a2 && a2 <= lo + w, || format!("{seed} {lo} {w}"));
    let (f1, f2) = (lo as f32, (lo + w) as f32);
    let x = SmallRng::seed_from_u64(seed).gen_range(f1..=f2);
    c.t("rand: gen_range stays in the range (f32)", f1 <= x && x <= f2, || format!("{seed} {f1} {f2}"));
    let o = [Ordering::Less, Ordering::Equal, Ordering::Greater][g.below(3)];
    c.t("std: Ordering", o.reverse().reverse() == o && o.is_lt() == (o == Ordering::Less) && o.is_ge() != o.is_lt() && o.is_le() != o.is_gt() && o.is_eq() != o.is_ne() && Ordering::Equal.then(o) == o && Ordering::Less.then(o) == Ordering::Less, || format!("{o:?}"));
}
fn main() {
    let rounds: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(2000);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut g, mut c) = (G(seed), C { n: BTreeMap::new(), bad: HashSet::new() });
    let (g, c) = (&mut g, &mut c);
    for _ in 0..rounds {
        scalar!(f64, c, g);
        scalar!(f32, c, g);
        trig(c, g);
        linear!(c, g, 1);
        linear!(c, g, 2);
        linear!(c, g, 3);
        linear!(c, g, 5);
        matrix!(c, g, 2);
        matrix!(c, g, 3);
        rigid!(c, g, 2, Isometry2<f64>, Rotation2<f64>, UnitComplex<f64>, Isometry2::new(nalgebra::Vector2::new(g.v(), g.v()), g.u() * 7.0));
        rigid!(c, g, 3, Isometry3<f64>, Rotation3<f64>, UnitQuaternion<f64>, Isometry3::new(nalgebra::Vector3::new(g.v(), g.v(), g.v()), nalgebra::Vector3::new(g.u(), g.u(), g.u()) * 3.0));
        collections(c, g);
    }
    for (k, n) in &c.n { println!("{} {n} {k}", if c.bad.contains(k) { "bad" } else { "ok" }); }
}
