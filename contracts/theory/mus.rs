//@ needs plcp sentinel
verus! {

// ---- the property; w is the text without the sentinel
// w[j..j+m) occurs exactly once in w
pub open spec fn unique(w: Seq<int>, j: int, m: int) -> bool {
    forall|p: int| 0 <= p && p + m <= w.len() && #[trigger] eqr(w, j, p, m) ==> p == j
}

// w[j..j+m) is a nonempty proper substring of w[i..i+l)
pub open spec fn proper_sub(i: int, l: int, j: int, m: int) -> bool {
    i <= j && 1 <= m < l && j + m <= i + l
}

// w[i..i+l) is a minimal unique substring
pub open spec fn is_mus(w: Seq<int>, i: int, l: int) -> bool {
    &&& 0 <= i && 1 <= l && i + l <= w.len()
    &&& unique(w, i, l)
    &&& forall|j: int, m: int| #[trigger] proper_sub(i, l, j, m) ==> !unique(w, j, m)
}

// r lists exactly the minimal unique substrings that start before position k, in order
pub open spec fn mus_list(w: Seq<int>, r: Seq<(usize, usize)>, k: int) -> bool {
    &&& forall|x: int| 0 <= x < r.len() ==> (#[trigger] r[x]).0 < k && is_mus(w, r[x].0 as int, r[x].1 as int)
    &&& forall|x: int, y: int| 0 <= x < y < r.len() ==> (#[trigger] r[x]).0 < (#[trigger] r[y]).0
    &&& forall|i: int, l: int| i < k && #[trigger] is_mus(w, i, l) ==> in_list(r, i, l)
}

pub open spec fn in_list(r: Seq<(usize, usize)>, i: int, l: int) -> bool {
    exists|x: int| 0 <= x < r.len() && (#[trigger] r[x]).0 == i && r[x].1 == l
}

// ---- the length of the longest repeated prefix of a suffix
pub open spec fn ell(isa: Seq<int>, lcp: Seq<u32>, i: int) -> int {
    let r = isa[i];
    if r + 1 < lcp.len() && lcp[r + 1] > lcp[r] { lcp[r + 1] as int } else { lcp[r] as int }
}

pub proof fn lce_sym(s: Seq<int>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(),
    ensures lce2(s, a, b) == lce2(s, b, a),
{
    let n = s.len() as int;
    lce_props(s, a, n, b, n);
    eqr_sym(s, a, b, lce2(s, a, b));
    lce_is(s, b, a, lce2(s, a, b));
}

// A < B < C: B shares at least as much with A as C does
pub proof fn lce_mono_r(s: Seq<int>, a: int, b: int, c: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), 0 <= c <= s.len(), suf_lt(s, a, b), suf_lt(s, b, c),
    ensures lce2(s, a, b) >= lce2(s, a, c),
{
    let n = s.len() as int;
    suf_trans(s, a, b, c);
    lce_props(s, a, n, b, n);
    lce_props(s, b, n, c, n);
    lce_props(s, a, n, c, n);
    lce_lt(s, a, b);
    lce_lt(s, b, c);
    lce_lt(s, a, c);
    let l = lce2(s, a, b);
    let m = lce2(s, a, c);
    let k = lce2(s, b, c);
    if l < m {
        eqr_at(s, a, c, m, l);
        assert(s[a + l] < s[b + l]);
        if k < l {
            eqr_at(s, a, b, l, k);
            eqr_at(s, a, c, m, k);
        } else if k > l {
            eqr_at(s, b, c, k, l);
        } else {
        }
    }
}

pub open spec fn mus_input(s: Seq<int>, sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>) -> bool {
    &&& with_sentinel(s)
    &&& is_sa(s, sa)
    &&& is_inverse(sa, isa)
    &&& is_lcp(s, sa, lcp)
}

pub open spec fn has_text(sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>) -> bool {
    exists|s: Seq<int>| #[trigger] mus_input(s, sa, isa, lcp)
}

pub proof fn ell_range(sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>, i: int)
    requires has_text(sa, isa, lcp), 0 <= i < sa.len(),
    ensures 0 <= isa[i] < sa.len(), lcp.len() == sa.len(), isa.len() == sa.len(),
{
    let s = choose|s: Seq<int>| #[trigger] mus_input(s, sa, isa, lcp);
    ell_facts(s, sa, isa, lcp, i);
}

// a common prefix of two suffixes does not contain the sentinel
proof fn before_sentinel(s: Seq<int>, i: int, p: int, l: int)
    requires with_sentinel(s), 0 <= i < s.len(), 0 <= p < s.len(), i != p, 0 <= l, i + l <= s.len(), p + l <= s.len(), eqr(s, i, p, l),
    ensures i + l < s.len(), p + l < s.len(),
{
    let n = s.len() as int;
    if l > 0 {
        eqr_at(s, i, p, l, l - 1);
        if i + l == n { assert(s[p + (l - 1)] > 0); }
        if p + l == n { assert(s[i + (l - 1)] > 0); }
    }
}

pub proof fn ell_facts(s: Seq<int>, sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>, i: int)
    requires mus_input(s, sa, isa, lcp), 0 <= i < s.len(),
    ensures
        0 <= isa[i] < s.len(),
        0 <= ell(isa, lcp, i), i + ell(isa, lcp, i) < s.len(),
        forall|p: int| 0 <= p < s.len() && p != i ==> #[trigger] lce2(s, i, p) <= ell(isa, lcp, i),
        ell(isa, lcp, i) > 0 ==> exists|p: int| 0 <= p < s.len() && p != i && #[trigger] lce2(s, i, p) == ell(isa, lcp, i),
{
    let n = s.len() as int;
    let e = ell(isa, lcp, i);
    sa_perm(s, sa);
    let r = perm_at(sa, i);
    assert(isa[sa[r]] == r);
    assert forall|p: int| 0 <= p < n && p != i implies #[trigger] lce2(s, i, p) <= e by {
        let q = perm_at(sa, p);
        lce_sym(s, i, p);
        if q < r {
            assert(lcp[r] == lce2(s, sa[r - 1], sa[r]));
            assert(suf_lt(s, sa[r - 1], sa[r]));
            if q < r - 1 {
                assert(suf_lt(s, sa[q], sa[r - 1]));
                lce_mono(s, p, sa[r - 1], i);
            }
        } else {
            assert(q != r);
            assert(lcp[r + 1] == lce2(s, sa[r + 1 - 1], sa[r + 1]));
            assert(suf_lt(s, sa[r], sa[r + 1]));
            if q > r + 1 {
                assert(suf_lt(s, sa[r + 1], sa[q]));
                lce_mono_r(s, i, sa[r + 1], p);
            }
        }
    }
    if e > 0 {
        let p = if r + 1 < n && lcp[r + 1] > lcp[r] { sa[r + 1] } else { sa[r - 1] };
        if r + 1 < n && lcp[r + 1] > lcp[r] {
            assert(lcp[r + 1] == lce2(s, sa[r + 1 - 1], sa[r + 1]));
        } else {
            assert(r > 0);
            assert(lcp[r] == lce2(s, sa[r - 1], sa[r]));
        }
        lce_sym(s, i, p);
        assert(lce2(s, i, p) == e && 0 <= p < n && p != i);
        lce_props(s, i, n, p, n);
        before_sentinel(s, i, p, e);
    }
}

// uniqueness in the text: longer than the longest repeated prefix
proof fn unique_ell(s: Seq<int>, sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>, i: int, l: int)
    requires mus_input(s, sa, isa, lcp), 0 <= i, 1 <= l, i + l <= s.len() - 1,
    ensures unique(s.drop_last(), i, l) <==> l > ell(isa, lcp, i),
{
    let n = s.len() as int;
    let w = s.drop_last();
    let e = ell(isa, lcp, i);
    ell_facts(s, sa, isa, lcp, i);
    if l > e {
        assert forall|p: int| 0 <= p && p + l <= w.len() && #[trigger] eqr(w, i, p, l) implies p == i by {
            if p != i {
                assert(eqr(s, i, p, l)) by {
                    assert forall|x: int| i <= x < i + l implies #[trigger] s[x] == s[x - i + p] by {
                        eqr_at(w, i, p, l, x - i);
                        assert(w[i + (x - i)] == s[x] && w[p + (x - i)] == s[x - i + p]);
                    }
                }
                lce_props(s, i, n, p, n);
                let m = lce2(s, i, p);
                if m < l { eqr_at(s, i, p, l, m); }
            }
        }
    } else {
        let p = choose|p: int| 0 <= p < n && p != i && #[trigger] lce2(s, i, p) == e;
        lce_props(s, i, n, p, n);
        before_sentinel(s, i, p, e);
        assert(eqr(w, i, p, l)) by {
            assert forall|x: int| i <= x < i + l implies #[trigger] w[x] == w[x - i + p] by {
                eqr_at(s, i, p, e, x - i);
                assert(w[x] == s[i + (x - i)] && w[x - i + p] == s[p + (x - i)]);
            }
        }
        assert(!unique(w, i, l));
    }
}

// a part of a repeated substring is repeated
proof fn repeat_sub(w: Seq<int>, i: int, l: int, j: int, m: int)
    requires !unique(w, i, l), 0 <= i <= j, 0 <= m, j + m <= i + l, i + l <= w.len(),
    ensures !unique(w, j, m),
{
    let p = choose|p: int| 0 <= p && p + l <= w.len() && #[trigger] eqr(w, i, p, l) && p != i;
    let q = p + (j - i);
    assert(eqr(w, j, q, m)) by {
        assert forall|x: int| j <= x < j + m implies #[trigger] w[x] == w[x - j + q] by {
            eqr_at(w, i, p, l, x - i);
            assert(i + (x - i) == x && p + (x - i) == x - j + q);
        }
    }
    assert(q != j && 0 <= q && q + m <= w.len());
}

// the test of the algorithm
pub proof fn mus_test(s: Seq<int>, sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>, i: int)
    requires mus_input(s, sa, isa, lcp), 0 <= i < s.len() - 1,
    ensures
        forall|l: int| #[trigger] is_mus(s.drop_last(), i, l) ==> l == ell(isa, lcp, i) + 1 && i + l <= s.len() - 1
            && ell(isa, lcp, i) <= ell(isa, lcp, i + 1),
        i + ell(isa, lcp, i) < s.len() - 1 && ell(isa, lcp, i) <= ell(isa, lcp, i + 1)
            ==> is_mus(s.drop_last(), i, ell(isa, lcp, i) + 1),
{
    let w = s.drop_last();
    let e = ell(isa, lcp, i);
    ell_facts(s, sa, isa, lcp, i);
    ell_facts(s, sa, isa, lcp, i + 1);
    assert forall|l: int| #[trigger] is_mus(w, i, l) implies l == e + 1 && i + l <= s.len() - 1 && e <= ell(isa, lcp, i + 1) by {
        unique_ell(s, sa, isa, lcp, i, l);
        if l > 1 {
            assert(proper_sub(i, l, i, l - 1));
            assert(proper_sub(i, l, i + 1, l - 1));
            unique_ell(s, sa, isa, lcp, i, l - 1);
            unique_ell(s, sa, isa, lcp, i + 1, l - 1);
        }
    }
    if i + e < s.len() - 1 && e <= ell(isa, lcp, i + 1) {
        let l = e + 1;
        unique_ell(s, sa, isa, lcp, i, l);
        if l > 1 {
            unique_ell(s, sa, isa, lcp, i, l - 1);
            unique_ell(s, sa, isa, lcp, i + 1, l - 1);
        }
        assert forall|j: int, m: int| #[trigger] proper_sub(i, l, j, m) implies !unique(w, j, m) by {
            if j + m <= i + (l - 1) { repeat_sub(w, i, l - 1, j, m); } else { repeat_sub(w, i + 1, l - 1, j, m); }
        }
    }
}

// the list grows by the answer of the test
pub proof fn mus_skip(s: Seq<int>, sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>, r: Seq<(usize, usize)>, i: int)
    requires
        mus_input(s, sa, isa, lcp), 0 <= i < s.len() - 1, mus_list(s.drop_last(), r, i),
        !(i + ell(isa, lcp, i) < s.len() - 1 && ell(isa, lcp, i) <= ell(isa, lcp, i + 1)),
    ensures mus_list(s.drop_last(), r, i + 1),
{
    mus_test(s, sa, isa, lcp, i);
    let w = s.drop_last();
    assert forall|j: int, l: int| j < i + 1 && #[trigger] is_mus(w, j, l) implies in_list(r, j, l) by {
        if j == i { assert(is_mus(w, i, l)); }
    }
}

pub proof fn mus_add(s: Seq<int>, sa: Seq<int>, isa: Seq<int>, lcp: Seq<u32>, r: Seq<(usize, usize)>, i: int, e: (usize, usize))
    requires
        mus_input(s, sa, isa, lcp), 0 <= i < s.len() - 1, mus_list(s.drop_last(), r, i),
        i + ell(isa, lcp, i) < s.len() - 1 && ell(isa, lcp, i) <= ell(isa, lcp, i + 1),
        e.0 == i, e.1 == ell(isa, lcp, i) + 1,
    ensures mus_list(s.drop_last(), r.push(e), i + 1),
{
    mus_test(s, sa, isa, lcp, i);
    let w = s.drop_last();
    let q = r.push(e);
    assert forall|j: int, l: int| j < i + 1 && #[trigger] is_mus(w, j, l) implies in_list(q, j, l) by {
        if j == i {
            assert(is_mus(w, i, l));
            assert(q[r.len() as int] == e);
        } else {
            assert(in_list(r, j, l));
            let x = choose|x: int| 0 <= x < r.len() && (#[trigger] r[x]).0 == j && r[x].1 == l;
            assert(q[x] == r[x]);
        }
    }
    assert forall|x: int| 0 <= x < q.len() implies (#[trigger] q[x]).0 < i + 1 && is_mus(w, q[x].0 as int, q[x].1 as int) by {
        if x < r.len() { assert(q[x] == r[x]); }
    }
}

} // verus!
