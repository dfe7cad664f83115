verus! {

// p is a permutation of 0..p.len()
pub open spec fn is_perm(p: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()
    &&& forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> #[trigger] p[i] != #[trigger] p[j]
}

pub proof fn range_set(n: int) -> (r: Set<int>)
    requires n >= 0,
    ensures
        r.len() == n,
        forall|x: int| #[trigger] r.contains(x) <==> 0 <= x < n,
    decreases n,
{
    if n == 0 {
        Set::empty()
    } else {
        let q = range_set(n - 1);
        q.insert(n - 1)
    }
}

// the first k entries of an injective sequence form a set of size k
pub proof fn inj_set(p: Seq<int>, k: int) -> (r: Set<int>)
    requires
        0 <= k <= p.len(),
        forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j],
    ensures
        r.len() == k,
        forall|x: int| #[trigger] r.contains(x) <==> exists|i: int| 0 <= i < k && p[i] == x,
    decreases k,
{
    if k == 0 {
        Set::empty()
    } else {
        let q = inj_set(p, k - 1);
        assert(!q.contains(p[k - 1]));
        let r = q.insert(p[k - 1]);
        assert forall|x: int| #[trigger] r.contains(x) <==> exists|i: int| 0 <= i < k && p[i] == x by {
            if r.contains(x) {
                if x != p[k - 1] {
                    assert(q.contains(x));
                    let i = choose|i: int| 0 <= i < k - 1 && p[i] == x;
                    assert(0 <= i < k && p[i] == x);
                } else {
                    assert(0 <= k - 1 < k && p[k - 1] == x);
                }
            } else {
                assert(!q.contains(x));
                if exists|i: int| 0 <= i < k && p[i] == x {
                    let i = choose|i: int| 0 <= i < k && p[i] == x;
                    assert(i < k - 1);
                    assert(0 <= i < k - 1 && p[i] == x);
                }
            }
        }
        r
    }
}

// a permutation hits every value
pub proof fn perm_at(p: Seq<int>, x: int) -> (i: int)
    requires is_perm(p), 0 <= x < p.len(),
    ensures 0 <= i < p.len(), p[i] == x,
{
    let n = p.len() as int;
    let r = inj_set(p, n);
    let full = range_set(n);
    if !r.contains(x) {
        assert(r.insert(x).len() == n + 1);
        assert(r.insert(x).subset_of(full));
        vstd::set_lib::lemma_len_subset(r.insert(x), full);
    }
    choose|i: int| 0 <= i < n && p[i] == x
}

} // verus!
