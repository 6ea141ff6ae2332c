use crate::core::*;
use mapping_algorithms::{kd_tree::KDTree, point_clouds::find_nearest_neighbour_naive};
use nalgebra::Point;
use std::cell::Cell;

// extent of the clouds being generated
thread_local! { static SCALE: Cell<f64> = const { Cell::new(100.0) }; }
// where they lie, and whether they reach the limits of the type (insertion and traversal only compare coordinates)
thread_local! { static AWAY: Cell<f64> = const { Cell::new(0.0) }; static EXTREME: Cell<bool> = const { Cell::new(false) }; }

macro_rules! tree_props {
    ($m:ident, $t:ty, $float:expr, $eps:expr) => {
        mod $m {
            use super::*;
            type T = $t;
            pub fn pool(r: &mut Rng, wide: bool) -> T {
                if EXTREME.with(|e| e.get()) && r.chance(2, 3) {
                    return match r.below(14) {
                        0 => <T>::MIN,
                        1 => <T>::MAX,
                        k => [f64::INFINITY, f64::NEG_INFINITY, 1e-310, 2e-310, 1e-40, 1.0, 1.0000000000000002, 1.0000001, 0.9999999, -1e-300, 1e19, 1e-20][k - 2] as T,
                    };
                }
                if wide {
                    if $float { let m = SCALE.with(|s| s.get()); (AWAY.with(|a| a.get()) + r.f(-m, m)) as T } else { r.int(-300, 300) as T }
                } else if $float && r.chance(1, 6) {
                    [-0.0f64, 0.0, 0.5, -0.5][r.below(4)] as T
                } else {
                    r.int(-2, 3) as T
                }
            }
            pub fn point<const N: usize>(r: &mut Rng, wide: bool) -> Point<T, N> {
                Point::from(std::array::from_fn(|_| pool(r, wide)))
            }
            fn model<const N: usize>(pts: &[Point<T, N>]) -> Vec<Point<T, N>> {
                let mut m: Vec<Point<T, N>> = vec![];
                for p in pts {
                    if !m.iter().any(|q| q.coords.iter().zip(p.coords.iter()).all(|(a, b)| a == b)) {
                        m.push(*p);
                    }
                }
                m
            }
            pub fn exact<const N: usize>(a: &Point<T, N>, b: &Point<T, N>) -> f64 {
                (0..N).map(|i| (a[i] as f64 - b[i] as f64) * (a[i] as f64 - b[i] as f64)).sum()
            }
            fn same<const N: usize>(got: &[Point<T, N>], want: &[Point<T, N>], what: &str) -> Res {
                ensure(got.len() == want.len(), || format!("{what}: {} points visited, {} distinct points inserted: {got:?}", got.len(), want.len()))?;
                for w in want {
                    ensure(got.iter().filter(|g| *g == w).count() == 1, || format!("{what}: {w:?} not stored exactly once: {got:?}"))?;
                }
                Ok(())
            }
            fn all<const N: usize>(t: &KDTree<T, N>) -> Vec<Point<T, N>> {
                let mut v = vec![];
                t.traverse_tree(|p| v.push(*p));
                v
            }
            pub fn contents<const N: usize>(c: &mut Ctx, pts: &[Point<T, N>]) -> Res {
                let m = model(pts);
                c.case(format!("{}: insert {:?}", stringify!($t), pts), pts.len() > 1);
                let mut tree = KDTree::<T, N>::default();
                let mut sofar: Vec<Point<T, N>> = vec![];
                ensure(call(|| tree.is_empty() && tree.len() == 0)?, || "fresh tree is not empty".into())?;
                for p in pts {
                    call(|| tree.insert(*p))?;
                    if !sofar.contains(p) {
                        sofar.push(*p);
                    }
                    ensure(tree.len() == sofar.len() && !tree.is_empty(), || format!("after inserting {p:?}: len() = {}, {} distinct points inserted", tree.len(), sofar.len()))?;
                }
                same(&call(|| all(&tree))?, &m, "insert")?;
                let bulk = call(|| KDTree::from(pts))?;
                ensure(bulk.len() == m.len() && bulk.is_empty() == m.is_empty(), || format!("from: len() = {}, expected {}", bulk.len(), m.len()))?;
                same(&call(|| all(&bulk))?, &m, "from")?;
                let before = all(&tree);
                for p in pts {
                    call(|| tree.insert(*p))?;
                }
                ensure(tree.len() == m.len() && all(&tree).iter().map(|p| format!("{p:?}")).eq(before.iter().map(|p| format!("{p:?}"))), || "re-inserting stored points changed the tree".into())
            }
            pub fn nearest<const N: usize>(c: &mut Ctx, pts: &[Point<T, N>], target: Point<T, N>, exactly: bool) -> Res {
                c.case(format!("{}: tree of {:?}, nearest to {:?}", stringify!($t), pts, target), pts.len() > 1);
                let tree = call(|| KDTree::from(pts))?;
                let got = call(|| tree.nearest(&target))?;
                check_min(got, pts, &target, exactly)?;
                let mut inc = KDTree::<T, N>::default();
                for p in pts {
                    inc.insert(*p);
                }
                check_min(call(|| inc.nearest(&target))?, pts, &target, exactly)
            }
            fn check_min<const N: usize>(got: Option<Point<T, N>>, pts: &[Point<T, N>], target: &Point<T, N>, exactly: bool) -> Res {
                match got {
                    None => ensure(pts.is_empty(), || "nothing found in a non-empty set".into()),
                    Some(g) => {
                        ensure(pts.contains(&g), || format!("{g:?} is not one of the points"))?;
                        let d = exact(&g, target);
                        // a squared distance is off by one rounding per difference, product and sum
                        let slack = if exactly { 0.0 } else { 4.0 * (N as f64 + 3.0) * $eps * d + 1e-40 };
                        for p in pts {
                            ensure(d <= exact(p, target) + slack, || format!("returned {g:?} at squared distance {d}, but {p:?} is at {}", exact(p, target)))?;
                        }
                        Ok(())
                    }
                }
            }
            pub fn naive<const N: usize>(c: &mut Ctx, pts: &[Point<T, N>], target: Point<T, N>, exactly: bool) -> Res {
                c.case(format!("{}: naive search in {:?}, nearest to {:?}", stringify!($t), pts, target), pts.len() > 1);
                check_min(call(|| find_nearest_neighbour_naive(&target, pts))?, pts, &target, exactly)?;
                Ok(())
            }
            pub fn traverse<const N: usize>(c: &mut Ctx, pts: &[Point<T, N>]) -> Res {
                c.case(format!("{}: traverse tree of {:?}", stringify!($t), pts), pts.len() > 1);
                let mut tree = call(|| KDTree::from(pts))?;
                let m = model(pts);
                let n = tree.len();
                let before = call(|| all(&tree))?;
                same(&before, &m, "traverse_tree")?;
                ensure(before.iter().map(|p| format!("{p:?}")).eq(call(|| all(&tree))?.iter().map(|p| format!("{p:?}"))) && tree.len() == n, || "a read-only traversal changed the tree".into())?;
                // mutate: every visited point gets a unique value
                let (mut seen, mut k) = (vec![], 0i64);
                call(|| tree.traverse_tree_mut(|p| {
                    seen.push(*p);
                    *p = Point::from(std::array::from_fn(|i| (k * 7 + i as i64 + 11) as T));
                    k += 1;
                }))?;
                same(&seen, &m, "traverse_tree_mut")?;
                let mut after: Vec<i64> = call(|| all(&tree))?.iter().map(|p| p[0] as i64).collect();
                after.sort();
                ensure(after == (0..n as i64).map(|k| k * 7 + 11).collect::<Vec<_>>(), || format!("points after a mutating traversal: {after:?}"))?;
                ensure(tree.len() == n, || format!("a mutating traversal changed len() from {n} to {}", tree.len()))?;
                // a traversal that changes only some points, and one that changes none
                let snap: Vec<String> = all(&tree).iter().map(|p| format!("{p:?}")).collect();
                call(|| tree.traverse_tree_mut(|_| {}))?;
                let now: Vec<String> = all(&tree).iter().map(|p| format!("{p:?}")).collect();
                ensure(snap == now, || "a mutating traversal whose closure does nothing changed the tree".into())
            }
            pub fn rand<const N: usize>(c: &mut Ctx, max: usize, wide: bool) -> Vec<Point<T, N>> {
                let n = c.rng.below(max + 1);
                let mut v: Vec<Point<T, N>> = vec![];
                for _ in 0..n {
                    if !v.is_empty() && c.rng.chance(1, 6) {
                        let p = v[c.rng.below(v.len())];
                        v.push(p);
                    } else {
                        v.push(point(&mut c.rng, wide));
                    }
                }
                v
            }
            pub fn random<const N: usize>(c: &mut Ctx, which: u8, rounds: usize) -> Res {
                for k in 0..rounds {
                    if !c.time_left() {
                        break;
                    }
                    let wide = k % 3 == 2;
                    SCALE.with(|s| s.set([100.0, 1.0, 0.1, 30000.0, 1e-4, 1e-12][k / 3 % 6]));
                    AWAY.with(|a| a.set(if k % 7 == 3 { [1000.0, -50.0, 3.0][k % 3] * SCALE.with(|s| s.get()) } else { 0.0 }));
                    EXTREME.with(|e| e.set((which == 1 || which == 3) && k % 5 == 4));
                    let max = if k % 10 == 9 || k % 12 == 5 { 120 } else { 14 };
                    let mut pts = rand::<N>(c, max, wide);
                    if k % 14 == 6 {
                        // long runs in order: a tree of one long branch
                        pts.sort_by(|a, b| a.coords.as_slice().partial_cmp(b.coords.as_slice()).unwrap());
                        if k % 28 == 6 {
                            pts.reverse();
                        }
                    }
                    match which {
                        1 => contents(c, &pts)?,
                        3 => traverse(c, &pts)?,
                        _ => {
                            let t = if !pts.is_empty() && c.rng.chance(1, 8) { pts[c.rng.below(pts.len())] } else { point(&mut c.rng, wide) };
                            let exactly = !wide || !$float;
                            if which == 2 { nearest(c, &pts, t, exactly)? } else { naive(c, &pts, t, exactly)? }
                        }
                    }
                }
                Ok(())
            }
            /// points of a ring around the target, at distances a few roundings apart: compared as the type itself computes them
            #[allow(dead_code)]
            pub fn ring(c: &mut Ctx, which: u8, rounds: usize) -> Res {
                for k in 0..rounds {
                    if !c.time_left() {
                        break;
                    }
                    // also where squared distances overflow to infinity, and where they vanish: all of them tie then
                    let e = if $eps < 1e-10 { 200 } else { 25 };
                    let r = [1.0, 1.4, 1.9, 300.0, 1e-3, 10f64.powi(e), 10f64.powi(-e), 10f64.powi(e * 3 / 4)][k % 8];
                    let t: Point<T, 2> = if k % 2 == 0 { Point::from([0 as T, 0 as T]) } else { point(&mut c.rng, true) };
                    let mut pts: Vec<Point<T, 2>> = (0..2 + c.rng.below(60)).map(|_| { let a = c.rng.f(0.0, 6.28); Point::from([t[0] + (r * a.cos()) as T, t[1] + (r * a.sin()) as T]) }).collect();
                    if k % 3 == 0 {
                        pts.sort_by(|a, b| b[0].partial_cmp(&a[0]).unwrap());
                    }
                    let d = |p: &Point<T, 2>| (p[0] - t[0]) * (p[0] - t[0]) + (p[1] - t[1]) * (p[1] - t[1]);
                    c.case(format!("{}: {} {:?}, nearest to {:?}", stringify!($t), if which == 2 { "tree of" } else { "naive search in" }, pts, t), true);
                    let got = if which == 2 { let tree = call(|| KDTree::from(pts.as_slice()))?; call(|| tree.nearest(&t))? } else { call(|| find_nearest_neighbour_naive(&t, &pts))? };
                    let Some(g) = got else { return fail("nothing found in a non-empty set") };
                    ensure(pts.contains(&g), || format!("{g:?} is not one of the points"))?;
                    for p in &pts {
                        ensure(d(&g) <= d(p), || format!("returned {g:?} at squared distance {:?}, but {p:?} is at {:?}", d(&g), d(p)))?;
                    }
                }
                Ok(())
            }
            #[allow(dead_code)]
            pub fn small(c: &mut Ctx, which: u8) -> Res {
                // every 1-D sequence over 4 values up to length 5, every 2-D sequence over a 3x3 grid up to length 4
                for len in 0..=5 {
                    sequences(4, len, &mut |s| {
                        let pts: Vec<Point<T, 1>> = s.iter().map(|v| Point::from([*v as T])).collect();
                        match which {
                            1 => contents(c, &pts),
                            3 => traverse(c, &pts),
                            2 => { let t = Point::from([c.rng.int(-1, 4) as T]); nearest(c, &pts, t, true) }
                            _ => { let t = Point::from([c.rng.int(-1, 4) as T]); naive(c, &pts, t, true) }
                        }
                    })?;
                }
                for len in 0..=4 {
                    sequences(9, len, &mut |s| {
                        let pts: Vec<Point<T, 2>> = s.iter().map(|v| Point::from([(*v % 3 * 2) as T, (*v / 3 * 2) as T])).collect();
                        match which {
                            1 => contents(c, &pts),
                            3 => traverse(c, &pts),
                            w => {
                                let t = Point::from([c.rng.int(-1, 5) as T, c.rng.int(-1, 5) as T]);
                                if w == 2 { nearest(c, &pts, t, true) } else { naive(c, &pts, t, true) }
                            }
                        }
                    })?;
                }
                Ok(())
            }
        }
    };
}
tree_props!(tf32, f32, true, f32::EPSILON as f64);
tree_props!(tf64, f64, true, f64::EPSILON);
tree_props!(ti32, i32, false, 0.0);
tree_props!(ti64, i64, false, 0.0);

/// many points: counters, recursion and pruning deep in the tree
fn large(c: &mut Ctx, which: u8) -> Res {
    type P = Point<i64, 2>;
    let sizes: &[(usize, i64, u8)] = &[(300, 40, 0), (300, 9, 1), (1500, 1000, 2), (600, 30, 3), (600, 30, 4), (1200, 30, 5), (1200, 30, 6), (70_000, 1000, 0)];
    for &(n, m, order) in sizes {
        let mut pts: Vec<P> = (0..n).map(|_| Point::from([c.rng.int(-m, m), c.rng.int(-m, m)])).collect();
        if order == 1 || order == 2 {
            pts.sort_by_key(|p| (p[0], p[1]));
        }
        if order == 2 {
            pts.reverse();
        }
        if order > 2 {
            // a chain of every fifth of the points down one side, the others scattered below its end
            let k = (n / 5) as i64;
            let mut chain: Vec<P> = (0..k).map(|i| Point::from([i - m - k, i - m - k])).collect();
            chain.extend(pts.iter().skip(k as usize));
            pts = chain;
            if order == 4 {
                pts.iter_mut().for_each(|p| *p = -*p);
            }
        }
        if order > 4 {
            // a diagonal chain of 400, then points that share one coordinate with its end
            pts = (0..n as i64).map(|i| if i < 400 { Point::from([i - 400, i - 400]) } else if i < 800 { Point::from([-1, i - 400]) } else { Point::from([i - 800, -1]) }).collect();
            if order == 6 {
                pts.iter_mut().for_each(|p| *p = Point::from([-p[1], -p[0]]));
            }
        }
        c.case(format!("i64: {n} random points within {m} ({}), seeded", ["as drawn", "sorted", "reversed", "below a chain to the right", "below a chain to the left", "in line with the end of a chain", "in line with the end of a falling chain"][order as usize]), true);
        let model: std::collections::BTreeSet<[i64; 2]> = pts.iter().map(|p| [p[0], p[1]]).collect();
        if which == 4 {
            for _ in 0..if n > 2000 { 40 } else { 100 } {
                let t = Point::from([c.rng.int(-m - 3, m + 3), c.rng.int(-m - 3, m + 3)]);
                let g = call(|| find_nearest_neighbour_naive(&t, &pts))?;
                let best = pts.iter().map(|p| (p - t).norm2()).min();
                ensure(g.map(|g| (g - t).norm2()) == best && g.map_or(false, |g| pts.contains(&g)), || format!("nearest to {t:?}: {g:?}, the smallest squared distance is {best:?}"))?;
            }
            continue;
        }
        let bulk = call(|| KDTree::from(pts.as_slice()))?;
        let mut tree = KDTree::<i64, 2>::default();
        let mut sofar = std::collections::BTreeSet::new();
        for p in &pts {
            call(|| tree.insert(*p))?;
            sofar.insert([p[0], p[1]]);
            ensure(tree.len() == sofar.len(), || format!("len() = {} after {} distinct points", tree.len(), sofar.len()))?;
        }
        for (t, how) in [(&tree, "one by one"), (&bulk, "from a slice")] {
            let mut seen: Vec<[i64; 2]> = vec![];
            call(|| t.traverse_tree(|p| seen.push([p[0], p[1]])))?;
            seen.sort();
            ensure(t.len() == model.len() && !t.is_empty(), || format!("{how}: len() = {}, {} distinct points inserted", t.len(), model.len()))?;
            ensure(seen.iter().eq(model.iter()), || format!("{how}: {} points visited, {} distinct points inserted", seen.len(), model.len()))?;
            if which == 2 {
                for _ in 0..if n > 2000 { 60 } else { 150 } {
                    let q = Point::from([c.rng.int(-m - 3, m + 3), c.rng.int(-m - 3, m + 3)]);
                    let g = call(|| t.nearest(&q))?;
                    let best = pts.iter().map(|p| (p - q).norm2()).min();
                    ensure(g.map(|g| (g - q).norm2()) == best && g.map_or(false, |g| model.contains(&[g[0], g[1]])), || format!("{how}: nearest to {q:?}: {g:?}, the smallest squared distance is {best:?}"))?;
                }
            }
        }
        if which == 1 {
            for p in &pts {
                call(|| tree.insert(*p))?;
            }
            ensure(tree.len() == model.len(), || format!("re-inserting stored points changed len() from {} to {}", model.len(), tree.len()))?;
        }
        if which == 3 {
            let mut k = 0i64;
            call(|| tree.traverse_tree_mut(|p| { *p = Point::from([k, -k]); k += 1; }))?;
            let mut seen: Vec<i64> = vec![];
            call(|| tree.traverse_tree(|p| seen.push(p[0])))?;
            seen.sort();
            ensure(tree.len() == model.len() && seen.iter().cloned().eq(0..model.len() as i64), || format!("after a mutating traversal: {} points, len() = {}, expected {}", seen.len(), tree.len(), model.len()))?;
        }
    }
    Ok(())
}
trait Norm2 {
    fn norm2(&self) -> i64;
}
impl Norm2 for nalgebra::SVector<i64, 2> {
    fn norm2(&self) -> i64 {
        self[0] * self[0] + self[1] * self[1]
    }
}

fn all(c: &mut Ctx, which: u8) -> Res {
    c.rule("all 1-D sequences over 4 values (length <= 5) and all 2-D sequences over a 3x3 grid (length <= 4), then random point lists (ties, duplicates, signed zeros; dimensions 1-9; f32, f64, i32, i64; also sorted runs), trees of 300 to 70000 points, some below a deep chain, rings of points at distances a few roundings apart; non-trivial: at least two points");
    tf64::small(c, which)?;
    ti32::small(c, which)?;
    large(c, which)?;
    let n = c.rounds(700);
    if which == 2 || which == 4 {
        tf64::ring(c, which, n)?;
        tf32::ring(c, which, n)?;
    }
    tf32::random::<1>(c, which, n)?;
    tf32::random::<2>(c, which, n)?;
    tf32::random::<3>(c, which, n)?;
    tf64::random::<2>(c, which, n)?;
    tf64::random::<3>(c, which, n)?;
    tf64::random::<5>(c, which, n)?;
    ti32::random::<2>(c, which, n)?;
    ti32::random::<4>(c, which, n)?;
    ti64::random::<1>(c, which, n)?;
    ti64::random::<3>(c, which, n)?;
    tf64::random::<7>(c, which, n / 3)?;
    ti64::random::<9>(c, which, n / 3)?;
    Ok(())
}
pub fn c01(c: &mut Ctx) -> Res { all(c, 1) }
pub fn c02(c: &mut Ctx) -> Res { all(c, 2) }
pub fn c03(c: &mut Ctx) -> Res {
    written(c)?;
    all(c, 3)
}
// a mutating traversal keeps whatever its closure writes: NaN, infinities, signed zeros, equal points
fn written(c: &mut Ctx) -> Res {
    for k in 0..c.rounds(400) {
        let n = 1 + c.rng.below(12);
        let p: Vec<Point<f64, 2>> = (0..n).map(|_| Point::from([c.rng.int(-3, 3) as f64, c.rng.int(-3, 3) as f64])).collect();
        let mut tree = call(|| KDTree::from(p.as_slice()))?;
        let v: Vec<[f64; 2]> = (0..n).map(|_| [0; 2].map(|_| [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, 7.5, f64::MAX, 1.0][c.rng.below(if k % 4 == 0 { 1 } else { 8 })])).collect();
        c.case(format!("KDTree of {p:?}, a mutating traversal writes {v:?}"), n > 1);
        let mut i = 0;
        call(|| tree.traverse_tree_mut(|q| { *q = Point::from(v[i % n]); i += 1 }))?;
        let mut got = vec![];
        call(|| tree.traverse_tree(|q| got.push(q.coords.data.0[0].map(f64::to_bits))))?;
        let mut want: Vec<[u64; 2]> = v[..i.min(n)].iter().map(|q| q.map(f64::to_bits)).collect();
        got.sort();
        want.sort();
        ensure(got == want, || format!("the points written in {i} calls are not those a traversal then visits: {got:x?}, expected {want:x?}"))?;
        ensure(tree.len() == i, || format!("len() is {} after a traversal of {i} points", tree.len()))?;
    }
    Ok(())
}
pub fn c04(c: &mut Ctx) -> Res { all(c, 4) }
