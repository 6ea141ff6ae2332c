// ---- units/pipspec.rs: the even-odd vocabulary shared by pip, pipside and pipbox ----
pub type P2 = Point<S, 2>;
pub open spec fn px(p: P2) -> real { p.c(0).r() }
pub open spec fn py(p: P2) -> real { p.c(1).r() }
pub open spec fn lo(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn hi(a: real, b: real) -> real { if a <= b { b } else { a } }
pub open spec fn ok(g: Seq<P2>) -> bool { forall|i: int| 0 <= i < g.len() ==> !pnan(#[trigger] g[i]) }
/// strictly above the lower end of the edge, not above its upper end
pub open spec fn spans(p: P2, a: P2, b: P2) -> bool { lo(py(a), py(b)) < py(p) && py(p) <= hi(py(a), py(b)) }
/// left of all vertices
pub open spec fn left_of(p: P2, g: Seq<P2>) -> bool { forall|i: int| 0 <= i < g.len() ==> px(p) < px(#[trigger] g[i]) }
/// right of, not above, or above all vertices
pub open spec fn apart(p: P2, g: Seq<P2>) -> bool {
    ||| forall|i: int| 0 <= i < g.len() ==> px(p) > px(#[trigger] g[i])
    ||| forall|i: int| 0 <= i < g.len() ==> py(p) <= py(#[trigger] g[i])
    ||| forall|i: int| 0 <= i < g.len() ==> py(p) > py(#[trigger] g[i])
}
pub open spec fn outside_box(p: P2, g: Seq<P2>) -> bool { left_of(p, g) || apart(p, g) }
