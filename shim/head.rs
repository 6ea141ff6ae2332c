#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code)]
use vstd::prelude::*;
use core::cmp::Ordering;
use std::collections::VecDeque;
use vstd::multiset::Multiset;
use core::ops::Neg;
verus! {
