use crate::core::*;
use mapping_algorithms::types::IsNan;

pub fn c22(c: &mut Ctx) -> Res {
    c.rule("all f32 bit patterns, f64 patterns by exponent and random mantissa, boundary and random values of the twelve integer types; every case is non-trivial");
    macro_rules! fl { ($t:ty, $b:ty, $bits:expr) => {{
        let b: $b = $bits;
        let x = <$t>::from_bits(b);
        let r = IsNan::is_nan(x);
        if r != (x != x) {
            c.case(format!("is_nan of the {} with bits {b:#x}", stringify!($t)), true);
            return fail(format!("{r} for {x:?}"));
        }
    }} }
    let step: usize = 1;
    let mut b: u64 = 0;
    while b <= u32::MAX as u64 {
        fl!(f32, u32, b as u32);
        b += step as u64;
        if b & 0xffffff == 0 {
            CASES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    }
    c.evals += (1u64 << 32) / step as u64;
    for s in 0..2u32 {
        for e in 0..256u32 {
            for k in 0..200u32 {
                let m = if k < 23 { 1 << k } else if k == 23 { 0 } else { c.rng.next() as u32 & 0x7fffff };
                fl!(f32, u32, s << 31 | e << 23 | m);
                c.evals += 1;
            }
        }
    }
    for s in 0..2u64 {
        for e in 0..2048u64 {
            for k in 0..160u64 {
                let m = if k < 52 { 1 << k } else if k == 52 { 0 } else { c.rng.next() & 0xfffffffffffff };
                fl!(f64, u64, s << 63 | e << 52 | m);
                c.evals += 1;
            }
        }
    }
    macro_rules! ints { ($($t:ty),*) => { $(
        for k in 0..2000u32 {
            let x: $t = match k { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => 0, 3 => 1, 4 => (0 as $t).wrapping_sub(1), k if k < 260 => (k - 5) as $t, k if k < 400 => (1 as $t).wrapping_shl(k), _ => ((c.rng.next() as u128) << 64 | c.rng.next() as u128) as $t };
            c.case(format!("is_nan of the {} {x}", stringify!($t)), true);
            let r = call(|| IsNan::is_nan(x))?;
            ensure(!r, || "true".into())?;
        }
    )* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    Ok(())
}
