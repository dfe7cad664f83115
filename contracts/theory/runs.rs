//@ needs stream
verus! {

// number of maximal blocks of equal consecutive characters
pub open spec fn runs(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else if s.len() == 1 {
        1
    } else {
        runs(s.drop_last()) + if s[s.len() - 1] != s[s.len() - 2] { 1int } else { 0 }
    }
}

pub proof fn runs_bound(s: Seq<u8>)
    ensures 0 <= runs(s) <= s.len(), s.len() > 0 ==> runs(s) >= 1,
    decreases s.len(),
{
    if s.len() > 1 { runs_bound(s.drop_last()); }
}

// a position starts a block
pub open spec fn block_start(s: Seq<u8>, i: int) -> bool {
    0 <= i < s.len() && (i == 0 || s[i] != s[i - 1])
}

// runs counts the starts of the blocks
pub proof fn runs_starts(s: Seq<u8>) -> (r: Set<int>)
    ensures
        r.len() == runs(s),
        forall|i: int| #[trigger] r.contains(i) <==> block_start(s, i),
    decreases s.len(),
{
    if s.len() == 0 {
        Set::empty()
    } else {
        let n = s.len() as int;
        let u = s.drop_last();
        let q = runs_starts(u);
        let r = if n == 1 || s[n - 1] != s[n - 2] { q.insert(n - 1) } else { q };
        assert(!q.contains(n - 1));
        assert forall|i: int| #[trigger] r.contains(i) <==> block_start(s, i) by {
            if i != n - 1 { assert(q.contains(i) <==> block_start(u, i)); }
        }
        assert(runs(s) == runs(u) + if n == 1 || s[n - 1] != s[n - 2] { 1int } else { 0 }) by {
            if n == 1 { assert(runs(u) == 0); }
        }
        r
    }
}

} // verus!
