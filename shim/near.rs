// ---- shim/near.rs: rounding with a bounded error; integers up to a limit are representable ----
/// half the distance of the representable numbers from 2 to 4
pub uninterp spec fn unit() -> real;
/// every integer between -lim() and lim() is representable
pub uninterp spec fn lim() -> real;
pub broadcast axiom fn ax_near(x: real) requires -4real <= x <= 4real ensures x - unit() <= #[trigger] rnd(x) <= x + unit();
pub broadcast axiom fn ax_int(x: real) requires isint(x), -lim() <= x <= lim() ensures #[trigger] rnd(x) == x;
pub axiom fn ax_unit() ensures unit() >= 0real;
#[verifier::opaque]
pub open spec fn isint(x: real) -> bool { exists|n: int| x == #[trigger] tor(n) }
pub open spec fn tor(n: int) -> real { n as real }
pub open spec fn toi(x: real) -> int { choose|n: int| x == #[trigger] tor(n) }
