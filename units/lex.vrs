//@include head.rs seq.rs scalar.rs na.rs sort.rs lexord.rs
//@broadcast ax_scalar, gr_lex, lemma_refs

pub open spec fn derefs<'a, const N: usize>(v: Seq<&'a Point<S, N>>) -> Seq<Point<S, N>> { v.map_values(|x: &'a Point<S, N>| *x) }

pub open spec fn refs_upto<'a, const N: usize>(v: Seq<&'a Point<S, N>>, a: Seq<Point<S, N>>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> *#[trigger] v[i] == a[i] }
pub broadcast proof fn lemma_refs<'a, const N: usize>(v: Seq<&'a Point<S, N>>, a: Seq<Point<S, N>>, k: int, b: Seq<&'a Point<S, N>>, pi: Seq<int>)
    requires #[trigger] refs_upto(v, a, k), k == a.len(), #[trigger] stable_by(v, b, pi, vx_key::<&'a Point<S, N>>())
    ensures lex_sorted_from(a, derefs(b))
{
    let d = derefs(b);
    let c = vx_key::<Point<S, N>>(); let cr = vx_key::<&'a Point<S, N>>();
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == a[pi[i]] by { assert(b[i] == v[pi[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies c(#[trigger] d[i], #[trigger] d[j]) != Ordering::Greater && (c(d[i], d[j]) == Ordering::Equal ==> pi[i] < pi[j]) by { assert(cr(b[i], b[j]) == c(d[i], d[j])); }
    assert(stable_by(a, d, pi, c));
}
/// any two of the three variants return the same cloud
pub proof fn lemma_variants_agree<const N: usize>(a: Seq<Point<S, N>>, b1: Seq<Point<S, N>>, b2: Seq<Point<S, N>>)
    requires lex_sorted_from(a, b1), lex_sorted_from(a, b2)
    ensures b1 == b2
{
    broadcast use gr_lex;
    let c = vx_key::<Point<S, N>>();
    let p1 = choose|pi: Seq<int>| #[trigger] stable_by(a, b1, pi, c);
    let p2 = choose|pi: Seq<int>| #[trigger] stable_by(a, b2, pi, c);
    lemma_stable_unique(a, b1, p1, b2, p2, c, a.len() as int);
    assert(b1 =~= b2);
}
//@fn validate_input props=C05,C14
@params input
@sig fn validate_input<const N: usize>(input: &[Point<S, N>]) -> (r: bool)
@spec
    ensures r == valid(input@)
@loop 0
    acc0 ==> i0 > 0 && pnan(input@[i0 - 1]),
    forall|i: int| 0 <= i < i0 - (if acc0 { 1int } else { 0int }) ==> !pnan(#[trigger] input@[i]),
@loop 1
    acc1 ==> i1 > 0 && a.c(i1 - 1).nan(),
    forall|i: int| 0 <= i < i1 - (if acc1 { 1int } else { 0int }) ==> !(#[trigger] a.c(i)).nan(),
    a == input@[j0 as int],
@loopstart 1
    assert(a.coords.vx_view()[j1 as int] == a.c(j1 as int));
@after 1
    assert(acc1 == pnan(*a));
//@end

//@fn lex_sort_func props=C05,C14
@params a b
@sig fn lex_sort_func<const N: usize>(a: &Point<S, N>, b: &Point<S, N>) -> (r: Ordering)
@spec
    requires !pnan(*a), !pnan(*b)
    ensures r == lex(*a, *b)
@loop 0
    acc0 == lexk(*a, *b, i0 as int),
@loopstart 0
    assert(!a.c(j0 as int).nan() && !b.c(j0 as int).nan());
//@end

//@fn lex_sort_in_place props=C05
@params input
@sig fn lex_sort_in_place<const N: usize>(input: &mut [Point<S, N>]) -> (r: bool)
@spec
    ensures r == valid(old(input)@), !r ==> final(input)@ == old(input)@, r ==> lex_sorted_from(old(input)@, final(input)@)
@ret
    assert(input@ == old(input)@);
//@end

//@fn lex_sort props=C05,C14
@params input
@sig fn lex_sort<const N: usize>(input: &[Point<S, N>]) -> (r: Option<Vec<Point<S, N>>>)
@spec
    ensures r is Some == valid(input@), r is Some ==> lex_sorted_from(input@, r->0@)
//@end

//@fn lex_sort_ref props=C05
@params input
@sig fn lex_sort_ref<const N: usize>(input: &[Point<S, N>]) -> (r: Option<Vec<&Point<S, N>>>)
@spec
    ensures r is Some == valid(input@), r is Some ==> lex_sorted_from(input@, derefs(r->0@))
@loop 0
    refs_upto(acc0@, input@, i0 as int),
@closure 0
    |vxp0: &&Point<S, N>, vxp1: &&Point<S, N>| -> (o: Ordering)
        requires !pnan(**vxp0), !pnan(**vxp1)
        ensures o == lex(**vxp0, **vxp1)
//@end
} // verus!
fn main() {}
