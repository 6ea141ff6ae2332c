//@include head.rs seq.rs scalar.rs exact.rs na.rs nalin.rs vmap.rs center.rs voxspec.rs
//@broadcast ax_scalar, ax_exact, ax_of, ax_vec, ax_floor, ax_isize

//@fn calculate_point_cloud_center props=C07,C17,C18,C25
@params points
@sig fn calculate_point_cloud_center<const N: usize>(points: &[Point<S, N>]) -> (r: Point<S, N>)
@spec
    requires clean(points@)
    ensures points@.len() > 0 ==> is_mean(points@, r), points@.len() == 0 ==> is_origin(r)
@loop 0
    is_sum(points@, acc0, i0 as int),
//@end

pub proof fn lemma_members_in<const N: usize>(a: Seq<Point<S, N>>, w: S, key: Seq<isize>, k: int, i: int)
    requires 0 <= i < k, key_is(key, cellof(a[i], w)) ensures members(a, w, key, k).len() > 0 decreases k
{ if i < k - 1 { lemma_members_in(a, w, key, k - 1, i); } }
pub proof fn lemma_members_clean<const N: usize>(a: Seq<Point<S, N>>, w: S, key: Seq<isize>, k: int)
    requires clean(a), 0 <= k <= a.len() ensures clean(members(a, w, key, k)) decreases k
{ if k > 0 { lemma_members_clean(a, w, key, k - 1); } }

//@fn downsample_point_cloud_voxel props=C06,C14,C15
@params points voxel_size
@sig fn downsample_point_cloud_voxel<const N: usize>(points: &[Point<S, N>], voxel_size: S) -> (r: Vec<Point<S, N>>)
@spec
    requires clean(points@), !voxel_size.nan(), voxel_size.r() > 0real, forall|i: int| 0 <= i < points@.len() ==> fits(#[trigger] points@[i], voxel_size)
    ensures exists|ks: Seq<Seq<isize>>| #[trigger] voxels(points@, voxel_size, ks, r@)
@loop 0
    binned(points@, voxel_size, voxel_map.m(), i0 as int),
@loopstart 0
    let ghost m0 = voxel_map.m();
@loopend 0
    proof {
        assert forall|key: Seq<isize>| key_is(key, cellof(points@[j0 as int], voxel_size)) implies key == voxel_coords@ by { assert(key =~= voxel_coords@); }
        assert forall|key: Seq<isize>| #![trigger voxel_map.m().dom().contains(key)] #![trigger voxel_map.m()[key]]
            voxel_map.m().dom().contains(key) == (members(points@, voxel_size, key, i0 as int).len() > 0) && (voxel_map.m().dom().contains(key) ==> voxel_map.m()[key] == members(points@, voxel_size, key, i0 as int)) by {
            assert(m0.dom().contains(key) == (members(points@, voxel_size, key, j0 as int).len() > 0));
        }
    }
@loop 1
    keyed(b1.v@, points@[j0 as int], voxel_size, i1 as int),
@loopstart 1
    assert(!point.c(j1 as int).nan());
    assert(isize::MIN <= cellof(*point, voxel_size)[j1 as int] <= isize::MAX);
    assert(s_of_i(cellof(*point, voxel_size)[j1 as int]));
@loop 2
    means(s0@, acc2@, i2 as int),
@loopstart 2
    let ghost ks = choose|ks: Seq<Seq<isize>>| #[trigger] listed(voxel_map.m(), ks, s0@);
    proof {
        assert(voxel_map.m().dom().contains(ks[j2 as int]) && s0@[j2 as int]@ == voxel_map.m()[ks[j2 as int]]);
        lemma_members_clean(points@, voxel_size, ks[j2 as int], points@.len() as int);
    }
@loop 3
    is_sum(points_in_voxel@, acc3, i3 as int),
@after 2
    proof {
        let ks = choose|ks: Seq<Seq<isize>>| #[trigger] listed(voxel_map.m(), ks, s0@);
        assert forall|i: int| 0 <= i < points@.len() implies has_key(ks, cellof(#[trigger] points@[i], voxel_size)) by {
            let p = points@[i];
            assert(fits(p, voxel_size));
            let key = Seq::new(N as nat, |d: int| cellof(p, voxel_size)[d] as isize);
            assert(key_is(key, cellof(p, voxel_size)));
            lemma_members_in(points@, voxel_size, key, points@.len() as int, i);
            assert(voxel_map.m().dom().contains(key));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == key;
            assert(key_is(ks[j], cellof(p, voxel_size)));
        }
        assert forall|j: int| 0 <= j < ks.len() implies members(points@, voxel_size, #[trigger] ks[j], points@.len() as int).len() > 0 && is_mean(members(points@, voxel_size, ks[j], points@.len() as int), acc2@[j]) by {
            assert(voxel_map.m().dom().contains(ks[j]) && s0@[j]@ == voxel_map.m()[ks[j]]);
            assert(is_mean(s0@[j]@, acc2@[j]));
        }
        assert(voxels(points@, voxel_size, ks, acc2@));
    }
//@end
pub open spec fn means<const N: usize>(s: Seq<Vec<Point<S, N>>>, v: Seq<Point<S, N>>, k: int) -> bool { v.len() == k && forall|j: int| 0 <= j < k ==> is_mean(s[j]@, #[trigger] v[j]) }
pub open spec fn keyed<const N: usize>(v: Seq<isize>, p: Point<S, N>, w: S, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == cellof(p, w)[i] }

} // verus!
fn main() {}
