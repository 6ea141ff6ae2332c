//! Contracts of `IsNan::is_nan` (C22) on the crate's own implementations, one per scalar type, for every value.
//! The contracted functions only forward: the verified code is the trait implementation in /repo.
#![cfg_attr(kani, feature(stmt_expr_attributes))]
use mapping_algorithms::types::IsNan;

macro_rules! contracts {
    ($($m:ident $t:ty, |$x:ident| $nan:expr;)*) => { $(
        pub mod $m {
            use super::IsNan;
            #[cfg_attr(kani, kani::ensures(|r: &bool| { let $x = x; *r == ($nan) }))]
            pub fn is_nan(x: $t) -> bool { IsNan::is_nan(x) }
            #[cfg(kani)]
            #[kani::proof_for_contract(is_nan)]
            fn contract() {
                let x: $t = kani::any();
                // both outcomes the contract speaks of are reachable
                kani::cover!({ let $x = x; !($nan) });
                is_nan(x);
            }
        }
    )* };
}
contracts! {
    nan_f32 f32, |x| x != x;
    nan_f64 f64, |x| x != x;
    nan_u8 u8, |_x| false;
    nan_u16 u16, |_x| false;
    nan_u32 u32, |_x| false;
    nan_u64 u64, |_x| false;
    nan_u128 u128, |_x| false;
    nan_usize usize, |_x| false;
    nan_i8 i8, |_x| false;
    nan_i16 i16, |_x| false;
    nan_i32 i32, |_x| false;
    nan_i64 i64, |_x| false;
    nan_i128 i128, |_x| false;
    nan_isize isize, |_x| false;
}
