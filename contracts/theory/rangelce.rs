//@ needs plcp minof
verus! {

// A < C < B: the common prefix of A and B is the shorter one of those with C
pub proof fn lce_mid(s: Seq<int>, a: int, c: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), 0 <= c <= s.len(), suf_lt(s, a, c), suf_lt(s, c, b),
    ensures lce2(s, a, b) == if lce2(s, a, c) < lce2(s, c, b) { lce2(s, a, c) } else { lce2(s, c, b) },
{
    let n = s.len() as int;
    let k = lce2(s, a, c);
    let m = lce2(s, c, b);
    let q = if k < m { k } else { m };
    lce_props(s, a, n, c, n);
    lce_props(s, c, n, b, n);
    lce_lt(s, a, c);
    lce_lt(s, c, b);
    assert(eqr(s, a, c, q));
    assert(eqr(s, c, b, q));
    eqr_trans(s, a, c, b, q);
    if q < m { eqr_at(s, c, b, m, q); }
    if q < k { eqr_at(s, a, c, k, q); }
    lce_is(s, a, b, q);
}

// the smallest LCP value in a range of the suffix array is the common prefix of its ends
pub proof fn range_lce(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, a: int, b: int) -> (v: u32)
    requires is_sa(s, sa), is_lcp(s, sa, lcp), 0 <= a < b < sa.len(),
    ensures v == lce2(s, sa[a], sa[b]), is_min(lcp, a + 1, b + 1, v),
    decreases b - a,
{
    hide(suf_lt);
    hide(lce2);
    assert(lcp[b] == lce2(s, sa[b - 1], sa[b]));
    if a + 1 == b {
        lcp[b]
    } else {
        let u = range_lce(s, sa, lcp, a, b - 1);
        assert(suf_lt(s, sa[a], sa[b - 1]) && suf_lt(s, sa[b - 1], sa[b]));
        lce_mid(s, sa[a], sa[b - 1], sa[b]);
        let v = if u < lcp[b] { u } else { lcp[b] };
        assert(is_min(lcp, a + 1, b + 1, v)) by {
            if u < lcp[b] {
                let x = choose|x: int| a + 1 <= x < b && #[trigger] lcp[x] == u;
                assert(lcp[x] == v);
            } else {
                assert(lcp[b] == v);
            }
        }
        v
    }
}

// wider ranges of the suffix array have shorter common prefixes
pub proof fn range_mono(s: Seq<int>, sa: Seq<int>, a: int, c: int, d: int, b: int)
    requires is_sa(s, sa), 0 <= a <= c < d <= b < sa.len(),
    ensures lce2(s, sa[a], sa[b]) <= lce2(s, sa[c], sa[d]),
{
    if a < c {
        assert(suf_lt(s, sa[a], sa[c]) && suf_lt(s, sa[c], sa[b]));
        lce_mid(s, sa[a], sa[c], sa[b]);
    }
    if d < b {
        assert(suf_lt(s, sa[c], sa[d]) && suf_lt(s, sa[d], sa[b]));
        lce_mid(s, sa[c], sa[d], sa[b]);
    }
}

} // verus!
