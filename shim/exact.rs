// ---- shim/exact.rs: exact arithmetic (the property is stated for inputs on which it is exact) ----
pub broadcast axiom fn ax_exact(x: real) ensures #[trigger] rnd(x) == x;
