verus! {

// v is the smallest of a[l..r)
pub open spec fn is_min(a: Seq<u32>, l: int, r: int, v: u32) -> bool {
    &&& forall|x: int| l <= x < r ==> #[trigger] a[x] >= v
    &&& exists|x: int| l <= x < r && #[trigger] a[x] == v
}

// (l..r).map(|x| a[x]).min().unwrap()
pub fn range_min(a: &[u32], l: usize, r: usize) -> (v: u32)
    requires l < r <= a@.len(),
    ensures is_min(a@, l as int, r as int, v),
{
    let mut v = a[l];
    for i in l..r
        invariant
            r <= a@.len(), l < r,
            forall|x: int| l <= x < i ==> #[trigger] a@[x] >= v,
            exists|x: int| l <= x < r && #[trigger] a@[x] == v,
    {
        if a[i] < v { v = a[i]; }
    }
    v
}

pub proof fn min_unique(a: Seq<u32>, l: int, r: int, u: u32, v: u32)
    requires is_min(a, l, r, u), is_min(a, l, r, v),
    ensures u == v,
{
}

} // verus!
