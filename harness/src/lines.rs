use crate::core::*;
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::Point;

fn check<const N: usize>(got: &[[f64; N]], s: &[i64; N], e: &[i64; N]) -> Res {
    let d: Vec<i64> = (0..N).map(|i| (e[i] - s[i]).abs()).collect();
    let dp = *d.iter().max().unwrap();
    ensure(got.len() as i64 == dp + 1, || format!("{} cells for a longest extent of {dp}: {:?}...", got.len(), &got[..got.len().min(60)]))?;
    let cells: Vec<[i64; N]> = got.iter().map(|p| std::array::from_fn(|i| p[i] as i64)).collect();
    ensure(cells.iter().zip(got).all(|(c, g)| (0..N).all(|i| c[i] as f64 == g[i])), || format!("a cell is not on integer coordinates: {:?}...", &got[..got.len().min(60)]))?;
    ensure(cells[0] == *s, || format!("starts at {:?}", cells[0]))?;
    ensure(cells[cells.len() - 1] == *e, || format!("ends at {:?}", cells[cells.len() - 1]))?;
    // some axis of longest extent is the one every step follows
    let ok = (0..N).any(|p| d[p] == dp && cells.windows(2).all(|w| w[1][p] - w[0][p] == (e[p] - s[p]).signum()));
    ensure(ok, || format!("steps do not follow a longest axis one by one: {:?}...", &cells[..cells.len().min(60)]))?;
    for w in cells.windows(2) {
        for i in 0..N {
            let step = w[1][i] - w[0][i];
            ensure(step.abs() <= 1, || format!("step from {:?} to {:?} is longer than one on axis {i}", w[0], w[1]))?;
        }
    }
    for (k, cell) in cells.iter().enumerate() {
        for i in 0..N {
            // |cell - ideal| < 1, times dp
            let dev = (cell[i] - s[i]) * dp - (e[i] - s[i]) * k as i64;
            ensure(dp == 0 || dev.abs() < dp, || format!("cell {k} = {cell:?} is {} from the ideal line on axis {i}", dev as f64 / dp as f64))?;
        }
    }
    Ok(())
}
fn one<const N: usize>(c: &mut Ctx, s: [i64; N], e: [i64; N]) -> Res {
    c.case(format!("line from {s:?} to {e:?}"), s != e);
    let (a, b): (Point<f64, N>, Point<f64, N>) = (Point::from(s.map(|v| v as f64)), Point::from(e.map(|v| v as f64)));
    let (a4, b4): (Point<f32, N>, Point<f32, N>) = (Point::from(s.map(|v| v as f32)), Point::from(e.map(|v| v as f32)));
    let r: Vec<Point<f64, N>> = call(|| plot_bresenham_line::<f64, f64, N>(a, b))?;
    check(&r.iter().map(|p| std::array::from_fn(|i| p[i])).collect::<Vec<_>>(), &s, &e)?;
    let r: Vec<Point<i32, N>> = call(|| plot_bresenham_line::<f32, i32, N>(a4, b4))?;
    check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)?;
    match c.evals % 4 {
        0 => {
            let r: Vec<Point<i64, N>> = call(|| plot_bresenham_line::<f64, i64, N>(a, b))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
        }
        1 => {
            let r: Vec<Point<isize, N>> = call(|| plot_bresenham_line::<f64, isize, N>(a, b))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
        }
        2 if s.iter().chain(e.iter()).all(|v| *v >= 0) => {
            let r: Vec<Point<usize, N>> = call(|| plot_bresenham_line::<f32, usize, N>(a4, b4))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
        }
        // narrow, unsigned and floating-point cells
        3 if s.iter().chain(e.iter()).all(|v| (0..=255).contains(v)) => {
            let r: Vec<Point<u8, N>> = call(|| plot_bresenham_line::<f64, u8, N>(a, b))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)?;
            let r: Vec<Point<u32, N>> = call(|| plot_bresenham_line::<f32, u32, N>(a4, b4))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
        }
        3 if s.iter().chain(e.iter()).all(|v| (-128..=127).contains(v)) => {
            let r: Vec<Point<i8, N>> = call(|| plot_bresenham_line::<f32, i8, N>(a4, b4))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
        }
        _ => {
            let r: Vec<Point<f32, N>> = call(|| plot_bresenham_line::<f64, f32, N>(a, b))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)?;
            let r: Vec<Point<f64, N>> = call(|| plot_bresenham_line::<f32, f64, N>(a4, b4))?;
            check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
        }
    }
}
/// beyond what f32 and i32 can hold
fn far<const N: usize>(c: &mut Ctx, s: [i64; N], e: [i64; N]) -> Res {
    c.case(format!("line from {s:?} to {e:?} (f64)"), s != e);
    let (a, b): (Point<f64, N>, Point<f64, N>) = (Point::from(s.map(|v| v as f64)), Point::from(e.map(|v| v as f64)));
    let r: Vec<Point<f64, N>> = call(|| plot_bresenham_line::<f64, f64, N>(a, b))?;
    check(&r.iter().map(|p| std::array::from_fn(|i| p[i])).collect::<Vec<_>>(), &s, &e)?;
    let r: Vec<Point<i64, N>> = call(|| plot_bresenham_line::<f64, i64, N>(a, b))?;
    check(&r.iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect::<Vec<_>>(), &s, &e)
}
pub fn c10(c: &mut Ctx) -> Res {
    c.rule("every 1-D line within -12..12, every 2-D line with extents up to 22, every 3-D one up to 6, every 4-D one up to 2 (random start cells), random longer lines up to 400 (2-5 dimensions), lines of up to 440000 cells and up to 8000000 from the origin (2^51 in f64), f32/f64 input, ten output types; non-trivial: distinct end points");
    for a in -12..=12 {
        for b in -12..=12 {
            one(c, [a], [b])?;
        }
    }
    for dx in -22..=22 {
        for dy in -22..=22 {
            let s = [c.rng.int(-30, 30), c.rng.int(-30, 30)];
            one(c, s, [s[0] + dx, s[1] + dy])?;
            one(c, [30, 40], [30 + dx, 40 + dy])?;
        }
    }
    for k in 0..13i64.pow(3) {
        let s = [c.rng.int(-9, 9), c.rng.int(-9, 9), c.rng.int(-9, 9)];
        one(c, s, [s[0] + k % 13 - 6, s[1] + k / 13 % 13 - 6, s[2] + k / 169 - 6])?;
    }
    for k in 0..5i64.pow(4) {
        let s = [c.rng.int(-9, 9), c.rng.int(-9, 9), 0, 3];
        one(c, s, [s[0] + k % 5 - 2, s[1] + k / 5 % 5 - 2, s[2] + k / 25 % 5 - 2, s[3] + k / 125 - 2])?;
    }
    // long lines whose slopes are exact in either precision: every error term is, too
    for (n, d) in [(9000, 1), (9000, 2), (8192, 4), (8192, 16), (16384, 4096)] {
        for (sx, sy) in [(1, 1), (-1, 1), (1, -1), (-1, -1)] {
            one(c, [5, -7], [5 + sx * n, -7 + sy * n / d])?;
            one(c, [5, -7], [5 + sx * n / d, -7 + sy * n])?;
        }
        one(c, [0, 1, 2], [n / d, 1 - n, 2 + n])?;
    }
    // nearly as long as the error terms of f32 allow
    for _ in 0..2 {
        let y = c.rng.int(-440_000, 440_000);
        one(c, [3, -5], [440_003, y - 5])?;
        one(c, [-7, 2 - y], [-7 + y / 2, 440_002 - y])?;
    }
    // long lines, and lines far from the origin
    for k in 0..c.rounds(3) {
        if !c.time_left() {
            break;
        }
        let o = [0, 70_000, -1_000_000, 8_000_000][k % 4];
        let m = [300, 5000, 5000, 1000, 70_000][k % 5];
        let mut v = || o + c.rng.int(-m, m);
        let (s, e) = ([v(), v(), v()], [v(), v(), v()]);
        let (i, j) = (c.rng.int(-2, 2), c.rng.int(-2, 2));
        if k % 2 == 0 { one(c, s, e)? } else { one(c, [s[0], s[1]], [e[0], e[1]])? }
        one(c, [o + k as i64], [o - m])?;
        one(c, [s[0], s[1]], [s[0] + m, s[1] + i])?;
        one(c, [s[0], s[1]], [s[0] + j, s[1] - m])?;
    }
    for k in 0..c.rounds(60) {
        if !c.time_left() {
            break;
        }
        let o = [1i64 << 31, -(1 << 31), 1 << 33, -(1 << 45), 1 << 51][k % 5];
        let m = [20, 3000][k % 2];
        let mut v = || o + c.rng.int(-m, m);
        let (s, e) = ([v(), v(), v()], [v(), v(), v()]);
        far(c, s, e)?;
        far(c, [s[0], e[1]], [e[0], s[1]])?;
        let low = c.rng.int(-m, m);
        far(c, [s[0], 3], [s[0] + m, low])?;
    }
    for k in 0..c.rounds(2500) {
        if !c.time_left() {
            break;
        }
        let m = if k % 4 == 0 { 400 } else { 60 };
        let mut v = || c.rng.int(-m, m);
        let (s, e) = ([v(), v(), v(), v(), v()], [v(), v(), v(), v(), v()]);
        match k % 4 {
            0 => one(c, [s[0], s[1]], [e[0], e[1]])?,
            1 => one(c, [s[0], s[1], s[2]], [e[0], e[1], e[2]])?,
            2 => one(c, [s[0], s[1], s[2], s[3]], [e[0], e[1], e[2], e[3]])?,
            _ => one(c, s, e)?,
        }
    }
    Ok(())
}
