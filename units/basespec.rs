// ---- units/basespec.rs: the cloud a hull is taken of ----
/// the cloud that the hull is taken of
pub open spec fn base(a: Seq<Point<S, 2>>, w: Option<S>, d: Seq<Point<S, 2>>) -> bool { match w { None => d == a, Some(w) => exists|ks: Seq<Seq<isize>>| #[trigger] voxels(a, w, ks, d) } }
pub proof fn lemma_voxels(a: Seq<Point<S, 2>>, w: S, ks: Seq<Seq<isize>>, d: Seq<Point<S, 2>>) requires voxels(a, w, ks, d), a.len() > 0 ensures clean(d), 1 <= d.len() <= a.len() {
    assert(has_key(ks, cellof(a[0], w)));
    assert forall|j: int| 0 <= j < d.len() implies !pnan(#[trigger] d[j]) by { assert(members(a, w, ks[j], a.len() as int).len() > 0); assert(is_mean(members(a, w, ks[j], a.len() as int), d[j])); }
    let f = Seq::new(ks.len(), |j: int| member_at(a, w, ks[j]));
    assert forall|j: int| 0 <= j < f.len() implies 0 <= #[trigger] f[j] < a.len() && key_is(ks[j], cellof(a[f[j]], w)) by { assert(members(a, w, ks[j], a.len() as int).len() > 0); lemma_member(a, w, ks[j], a.len() as int); }
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by {
        if f[i] == f[j] { assert(ks[i] =~= ks[j]); if i < j { assert(ks[i] != ks[j]); } else { assert(ks[j] != ks[i]); } }
    }
    lemma_pigeon(f, a.len() as int);
}
pub open spec fn member_at(a: Seq<Point<S, 2>>, w: S, key: Seq<isize>) -> int { choose|i: int| 0 <= i < a.len() && key_is(key, cellof(a[i], w)) }
pub proof fn lemma_member(a: Seq<Point<S, 2>>, w: S, key: Seq<isize>, k: int) requires 0 <= k <= a.len(), members(a, w, key, k).len() > 0 ensures exists|i: int| 0 <= i < k && key_is(key, cellof(a[i], w)) decreases k {
    if key_is(key, cellof(a[k - 1], w)) {} else { lemma_member(a, w, key, k - 1); }
}
pub proof fn lemma_lex2(a: Point<S, 2>, b: Point<S, 2>) ensures lex(a, b) != Ordering::Greater <==> le(true, xy(a), xy(b)) {
    reveal_with_fuel(lexk, 3);
}
