//@ needs succ sufedges segtree64 attrspec
verus! {

// b marks the positions of a
pub open spec fn marks(b: Seq<bool>, a: Seq<u64>, k: int) -> bool {
    &&& forall|x: int| 0 <= x < k ==> a[x] < b.len() && b[(#[trigger] a[x]) as int]
    &&& forall|q: int| 0 <= q < b.len() && #[trigger] b[q] ==> exists|x: int| 0 <= x < k && #[trigger] a[x] == q
}

// d is the distance from p to the next marked position, the length if there is none
pub open spec fn dist_ok(b: Seq<bool>, p: int, d: u64) -> bool {
    &&& forall|x: int| p <= x < p + d && x < b.len() ==> !#[trigger] b[x]
    &&& d == b.len() || (p + d < b.len() && b[p + d])
}

pub proof fn dist_some(b: Seq<bool>, p: int, q: int)
    requires 0 <= p < b.len(), 0 <= q < b.len(), !b[p], b[q], ones(b, q) == ones(b, p + 1), b.len() <= u64::MAX,
    ensures p < q, dist_ok(b, p, (q - p) as u64),
{
    if q < p {
        ones_mono(b, q, p);
        assert(b[q]);
        assert(ones(b, p + 1) == ones(b, p));
    }
    ones_mono(b, p + 1, q);
}

pub proof fn dist_none(b: Seq<bool>, p: int)
    requires 0 <= p < b.len(), !b[p], ones(b, b.len() as int) <= ones(b, p + 1), b.len() <= u64::MAX,
    ensures dist_ok(b, p, b.len() as u64),
{
    ones_mono(b, p + 1, b.len() as int);
}

// the edge reports an uncovered substring
pub open spec fn flagged(d: Seq<u64>, e: IEdge) -> bool {
    forall|k: int| e.1 <= k <= e.2 ==> e.0 + 1 <= #[trigger] d[k]
}

pub open spec fn dists(b: Seq<bool>, sa: Seq<int>, d: Seq<u64>) -> bool {
    &&& d.len() == sa.len()
    &&& forall|k: int| 0 <= k < sa.len() ==> dist_ok(b, sa[k], #[trigger] d[k])
}

pub open spec fn attr_data(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, b: Seq<bool>, a: Seq<u64>, d: Seq<u64>) -> bool {
    &&& with_sentinel(s) && s.len() >= 2
    &&& is_sa(s, sa) && is_lcp(s, sa, lcp)
    &&& b.len() == s.len() && marks(b, a, a.len() as int)
    &&& dists(b, sa, d)
}

// a reported substring is not covered
pub proof fn flag_sound(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, b: Seq<bool>, a: Seq<u64>, d: Seq<u64>, e: IEdge)
    requires attr_data(s, sa, lcp, b, a, d), edge_ok(sa, lcp, e), flagged(d, e),
    ensures !attr_ok(s.drop_last(), a),
{
    hide(suf_lt);
    hide(lce2);
    let n = s.len() as int;
    let w = s.drop_last();
    sa_perm(s, sa);
    let whole = !(e.0 + 1 <= slen(sa, e.1));
    let p = if whole { 0 } else { sa[e.1] };
    let l = if whole { 1 } else { e.0 + 1 };
    if covered(w, a, p, l) {
        let (p2, x) = choose|p2: int, x: int| #[trigger] hit(w, a, p, l, p2, x);
        assert(hit(w, a, p, l, p2, x));
        let q = a[x] as int;
        assert(b[q]);
        if whole {
            let k = perm_at(sa, q);
            assert(dist_ok(b, sa[k], d[k]));
            assert(d[k] >= 1);
            assert(!b[q]);
        } else {
            let k = perm_at(sa, p2);
            assert(eqr(s, p, p2, l)) by {
                assert forall|y: int| p <= y < p + l implies #[trigger] s[y] == s[y - p + p2] by {
                    eqr_at(w, p, p2, l, y - p);
                    assert(w[y] == s[y] && w[p2 + (y - p)] == s[y - p + p2]);
                }
            }
            lce_ge(s, p, p2, l);
            lce_ge2(s, p, p2, l);
            if k < e.1 {
                let v = range_lce(s, sa, lcp, k, e.1);
                assert(lcp[e.1] >= v);
            }
            if k > e.2 {
                let v = range_lce(s, sa, lcp, e.1, k);
                assert(lcp[e.2 + 1] >= v);
            }
            assert(dist_ok(b, sa[k], d[k]));
            assert(!b[q]);
        }
    }
}

// equal substrings bound the common prefix
pub proof fn lce_ge(s: Seq<int>, p: int, q: int, l: int)
    requires 0 <= p, 0 <= q, 0 <= l, p + l <= s.len(), q + l <= s.len(), eqr(s, p, q, l),
    ensures lce2(s, p, q) >= l,
{
    let n = s.len() as int;
    lce_props(s, p, n, q, n);
    let m = lce2(s, p, q);
    if m < l { eqr_at(s, p, q, l, m); }
}

pub proof fn lce_ge2(s: Seq<int>, p: int, q: int, l: int)
    requires 0 <= p, 0 <= q, 0 <= l, p + l <= s.len(), q + l <= s.len(), eqr(s, p, q, l),
    ensures lce2(s, q, p) >= l,
{
    eqr_sym(s, p, q, l);
    lce_ge(s, q, p, l);
}

pub proof fn lce_eqr(s: Seq<int>, p: int, q: int, l: int)
    requires 0 <= p <= s.len(), 0 <= q <= s.len(), 0 <= l <= lce2(s, p, q),
    ensures p + l <= s.len(), q + l <= s.len(), eqr(s, p, q, l), eqr(s, q, p, l),
{
    let n = s.len() as int;
    lce_props(s, p, n, q, n);
    eqr_sym(s, p, q, l);
}

// the suffixes of an edge share the prefix that ends on the edge
proof fn edge_shares(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, e: IEdge, r: int, l: int, k: int)
    requires
        with_sentinel(s), is_sa(s, sa), is_lcp(s, sa, lcp), edge_covers(lcp, e, r, l), edge_ok(sa, lcp, e),
        e.1 <= k <= e.2, 1 <= l <= slen(sa, r),
    ensures
        sa[k] + l <= s.len() - 1, eqr(s, sa[r], sa[k], l),
{
    hide(suf_lt);
    hide(lce2);
    let n = s.len() as int;
    assert(0 <= sa[r] < n && 0 <= sa[k] < n);
    if k == r {
    } else if k < r {
        let v = range_lce(s, sa, lcp, k, r);
        assert(exists|y: int| k + 1 <= y < r + 1 && #[trigger] lcp[y] == v);
        lce_eqr(s, sa[k], sa[r], l);
    } else {
        let v = range_lce(s, sa, lcp, r, k);
        assert(exists|y: int| r + 1 <= y < k + 1 && #[trigger] lcp[y] == v);
        lce_eqr(s, sa[r], sa[k], l);
    }
    eqr_at(s, sa[r], sa[k], l, l - 1);
    assert(s[sa[r] + (l - 1)] > 0);
}

proof fn uncovered_far(s: Seq<int>, b: Seq<bool>, a: Seq<u64>, p: int, p2: int, l: int, d: u64)
    requires
        s.len() >= 1, b.len() == s.len(), marks(b, a, a.len() as int), dist_ok(b, p2, d), !covered(s.drop_last(), a, p, l),
        eqr(s, p, p2, l), 0 <= p2, p2 + l <= s.len() - 1, 0 <= p, p + l <= s.len() - 1, 1 <= l,
    ensures d >= l,
{
    let w = s.drop_last();
    if d < l {
        let q = p2 + d;
        assert(b[q]);
        let y = choose|y: int| 0 <= y < a.len() && #[trigger] a[y] == q;
        assert(eqr(w, p, p2, l)) by {
            assert forall|z: int| p <= z < p + l implies #[trigger] w[z] == w[z - p + p2] by {
                eqr_at(s, p, p2, l, z - p);
                assert(w[z] == s[z] && w[z - p + p2] == s[p2 + (z - p)]);
            }
        }
        assert(hit(w, a, p, l, p2, y));
    }
}

// an uncovered substring is reported
pub proof fn flag_complete(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, b: Seq<bool>, a: Seq<u64>, d: Seq<u64>, es: Seq<IEdge>)
    requires attr_data(s, sa, lcp, b, a, d), tree_ok(sa, lcp, es), !attr_ok(s.drop_last(), a),
    ensures exists|x: int| 0 <= x < es.len() && flagged(d, #[trigger] es[x]),
{
    hide(suf_lt);
    hide(lce2);
    hide(eqr);
    let w = s.drop_last();
    sa_perm(s, sa);
    let (p, l) = choose|p: int, l: int| 0 <= p && 1 <= l && p + l <= w.len() && !#[trigger] covered(w, a, p, l);
    assert(!covered(w, a, p, l));
    let r = perm_at(sa, p);
    assert(cov_edge(lcp, es, r, l));
    let x = choose|x: int| 0 <= x < es.len() && edge_covers(lcp, #[trigger] es[x], r, l);
    let e = es[x];
    assert(edge_ok(sa, lcp, e));
    assert forall|k: int| e.1 <= k <= e.2 implies e.0 + 1 <= #[trigger] d[k] by {
        assert(dist_ok(b, sa[k], d[k]));
        edge_shares(s, sa, lcp, e, r, l, k);
        uncovered_far(s, b, a, p, sa[k], l, d[k]);
    }
    assert(flagged(d, es[x]));
}

} // verus!
verus! {

pub open spec fn none_flagged(d: Seq<u64>, es: Seq<IEdge>, m: int) -> bool {
    forall|x: int| 0 <= x < m ==> !flagged(d, #[trigger] es[x])
}

pub proof fn tree_edge(sa: Seq<int>, lcp: Seq<u32>, es: Seq<IEdge>, x: int)
    requires tree_ok(sa, lcp, es), 0 <= x < es.len(),
    ensures edge_ok(sa, lcp, es[x]), 0 <= es[x].1 <= es[x].2 < sa.len(),
{
}

// the minimum over the ranks of an edge decides whether it is reported
pub proof fn flagged_min(d: Seq<u64>, e: IEdge, v: u64)
    requires is_min64(d, e.1, e.2 + 1, v), 0 <= e.1 <= e.2,
    ensures flagged(d, e) <==> e.0 + 1 <= v,
{
    if flagged(d, e) {
        let x = choose|x: int| e.1 <= x < e.2 + 1 && #[trigger] d[x] == v;
    }
}

} // verus!
