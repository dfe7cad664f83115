//@ needs lex
verus! {

// s[a..b) is smaller than its proper suffix s[i..b), at a mismatch at offset q
pub open spec fn lynw_at(s: Seq<int>, a: int, i: int, b: int, q: int) -> bool {
    0 <= q && i + q < b && eqr(s, a, i, q) && s[a + q] < s[i + q]
}

pub open spec fn lynw(s: Seq<int>, a: int, i: int, b: int) -> bool {
    exists|q: int| #[trigger] lynw_at(s, a, i, b, q)
}

// s[a..b) is a Lyndon word: nonempty and smaller than all its proper suffixes
pub open spec fn lyn(s: Seq<int>, a: int, b: int) -> bool {
    &&& a < b
    &&& forall|i: int| a < i < b ==> #[trigger] lynw(s, a, i, b)
}

pub open spec fn fstart(ends: Seq<usize>, x: int) -> int {
    if x == 0 { 0 } else { ends[x - 1] + 1 }
}

// factor x is a Lyndon word that ends before k
pub open spec fn factor_ok(s: Seq<int>, ends: Seq<usize>, k: int, x: int) -> bool {
    ends[x] < k && lyn(s, fstart(ends, x), ends[x] + 1)
}

// factor x is not smaller than factor x + 1
pub open spec fn factor_ge(s: Seq<int>, ends: Seq<usize>, x: int) -> bool {
    !lt_sub(s, fstart(ends, x), fstart(ends, x + 1), fstart(ends, x + 1), ends[x + 1] + 1)
}

// ends are the end positions of the Lyndon factorization of the first k characters of s
pub open spec fn lyn_prefix(s: Seq<int>, ends: Seq<usize>, k: int) -> bool {
    &&& (ends.len() == 0 ==> k == 0)
    &&& (ends.len() > 0 ==> ends[ends.len() - 1] + 1 == k)
    &&& forall|x: int| 0 <= x < ends.len() ==> #[trigger] factor_ok(s, ends, k, x)
    &&& forall|x: int| 0 <= x < ends.len() - 1 ==> #[trigger] factor_ge(s, ends, x)
}

// ends are the end positions of the Lyndon factorization of s: consecutive nonempty factors
// covering s, every factor a Lyndon word, no factor smaller than its successor
pub open spec fn lyn_fact(s: Seq<int>, ends: Seq<usize>) -> bool {
    lyn_prefix(s, ends, s.len() as int)
}

// no Lyndon word starting at k is larger than s[a..k)
pub open spec fn lyn_dom(s: Seq<int>, a: int, k: int) -> bool {
    forall|b: int| k < b <= s.len() && #[trigger] lyn(s, k, b) ==> !lt_sub(s, a, k, k, b)
}

pub proof fn lyn_first_min(s: Seq<int>, a: int, b: int, x: int)
    requires lyn(s, a, b), a <= x < b,
    ensures s[a] <= s[x],
{
    if x > a {
        assert(lynw(s, a, x, b));
        let q = choose|q: int| #[trigger] lynw_at(s, a, x, b, q);
        assert(lynw_at(s, a, x, b, q));
        if q > 0 {
            eqr_at(s, a, x, q, 0);
        }
    }
}

proof fn duval_step_rec(s: Seq<int>, k: int, p: int, j: int, m: int)
    requires
        0 <= k, p > 0, k + p <= j < s.len(),
        lyn(s, k, k + p), per(s, k, j, p), s[j - p] < s[j],
        k < m <= j,
    ensures lynw(s, k, m, j + 1),
    decreases m,
{
    if m < k + p {
        assert(lynw(s, k, m, k + p));
        let q = choose|q: int| #[trigger] lynw_at(s, k, m, k + p, q);
        assert(lynw_at(s, k, m, k + p, q));
        assert(lynw_at(s, k, m, j + 1, q));
    } else if m == k + p {
        let q = j - m;
        assert(eqr(s, k, m, q)) by {
            assert forall|x: int| k <= x < k + q implies #[trigger] s[x] == s[x - k + m] by {
                assert(s[x + p] == s[x + p - p]);
                assert(x - k + m == x + p && x + p - p == x);
            }
        }
        assert(k + q == j - p && m + q == j);
        assert(lynw_at(s, k, m, j + 1, q));
    } else {
        let m1 = m - p;
        duval_step_rec(s, k, p, j, m1);
        let q1 = choose|q: int| #[trigger] lynw_at(s, k, m1, j + 1, q);
        assert(lynw_at(s, k, m1, j + 1, q1));
        let q = if m + q1 < j { q1 } else { j - m };
        assert(eqr(s, k, m, q)) by {
            assert forall|x: int| k <= x < k + q implies #[trigger] s[x] == s[x - k + m] by {
                eqr_at(s, k, m1, q1, x - k);
                let y = x - k + m;
                assert(s[y] == s[y - p]);
                assert(y - p == m1 + (x - k) && k + (x - k) == x);
            }
        }
        if m + q1 < j {
            let y = m + q1;
            assert(s[y] == s[y - p]);
            assert(y - p == m1 + q1);
        } else {
            assert(m1 + q == j - p);
            if q < q1 {
                eqr_at(s, k, m1, q1, q);
            }
            assert(m + q == j);
        }
        assert(lynw_at(s, k, m, j + 1, q));
    }
}

// Duval's extension step
pub proof fn duval_step(s: Seq<int>, k: int, p: int, j: int)
    requires
        0 <= k, p > 0, k + p <= j < s.len(),
        lyn(s, k, k + p), per(s, k, j, p), s[j - p] < s[j],
    ensures lyn(s, k, j + 1), s[k] < s[j],
{
    assert forall|m: int| k < m < j + 1 implies #[trigger] lynw(s, k, m, j + 1) by {
        duval_step_rec(s, k, p, j, m);
    }
    lyn_first_min_per(s, k, p, j, j - p);
}

proof fn lyn_first_min_per(s: Seq<int>, k: int, p: int, j: int, x: int)
    requires 0 <= k, p > 0, lyn(s, k, k + p), per(s, k, j, p), k <= x < j,
    ensures s[k] <= s[x],
    decreases x,
{
    if x < k + p {
        lyn_first_min(s, k, k + p, x);
    } else {
        assert(s[x] == s[x - p]);
        lyn_first_min_per(s, k, p, j, x - p);
    }
}

// equal strings: Lyndon is a property of the content
pub proof fn lyn_shift(s: Seq<int>, a: int, c: int, p: int)
    requires lyn(s, a, a + p), eqr(s, a, c, p),
    ensures lyn(s, c, c + p),
{
    assert forall|i: int| c < i < c + p implies #[trigger] lynw(s, c, i, c + p) by {
        let i0 = i - c + a;
        assert(lynw(s, a, i0, a + p));
        let q = choose|q: int| #[trigger] lynw_at(s, a, i0, a + p, q);
        assert(lynw_at(s, a, i0, a + p, q));
        assert(eqr(s, c, i, q)) by {
            assert forall|x: int| c <= x < c + q implies #[trigger] s[x] == s[x - c + i] by {
                eqr_at(s, a, c, p, x - c);
                eqr_at(s, a, c, p, x - c + i0 - a);
                eqr_at(s, a, i0, q, x - c);
                assert(c + (x - c) == x);
                assert(c + (x - c + i0 - a) == x - c + i);
                assert(a + (x - c + i0 - a) == i0 + (x - c));
            }
        }
        eqr_at(s, a, c, p, q);
        eqr_at(s, a, c, p, q + i0 - a);
        assert(a + (q + i0 - a) == i0 + q && c + (q + i0 - a) == i + q);
        assert(lynw_at(s, c, i, c + p, q));
    }
}

// s[k..j) has period p: the copy of the first period
pub proof fn per_shift(s: Seq<int>, k: int, j: int, p: int)
    requires 0 <= k, p > 0, per(s, k, j, p), k + p <= j,
    ensures eqr(s, k, k + p, if j - k - p < p { j - k - p } else { p }), per(s, k + p, j, p),
{
    let q = if j - k - p < p { j - k - p } else { p };
    assert forall|x: int| k <= x < k + q implies #[trigger] s[x] == s[x - k + (k + p)] by {
        let y = x + p;
        assert(s[y] == s[y - p]);
        assert(y - p == x && x - k + (k + p) == y);
    }
}

// after the last full period was cut off, no larger Lyndon word can follow
pub proof fn duval_dom(s: Seq<int>, a: int, k: int, j: int, p: int)
    requires
        0 <= a, p > 0, k == a + p, k <= j <= s.len(), j - k <= p,
        lyn(s, a, k), per(s, a, j, p),
        j == s.len() || s[j] < s[j - p],
    ensures lyn_dom(s, a, k),
{
    assert forall|b: int| k < b <= s.len() && #[trigger] lyn(s, k, b) implies !lt_sub(s, a, k, k, b) by {
        if lt_sub(s, a, k, k, b) {
            let q = choose|q: int| #[trigger] lt_at(s, a, k, k, b, q);
            assert(lt_at(s, a, k, k, b, q));
            assert(q <= p);
            if k + q < j {
                assert(q < p);
                let y = k + q;
                assert(s[y] == s[y - p]);
                assert(y - p == a + q);
            } else {
                let t0 = j - k;
                assert(j < s.len());
                assert(j - p == a + t0);
                if t0 < q {
                    eqr_at(s, a, k, q, t0);
                    assert(k + t0 == j);
                } else if t0 < p {
                    assert(k + q == j);
                } else {
                    assert(k + q == j && j < b);
                    lyn_first_min(s, k, b, j);
                    assert(j - p == k);
                }
            }
        }
    }
}

pub proof fn lyn_push(s: Seq<int>, ends: Seq<usize>, e: usize, k: int)
    requires
        lyn_prefix(s, ends, k), 0 <= k <= e < s.len(), lyn(s, k, e + 1),
        ends.len() > 0 ==> !lt_sub(s, fstart(ends, ends.len() - 1), k, k, e + 1),
    ensures
        lyn_prefix(s, ends.push(e), e + 1), fstart(ends.push(e), ends.len() as int) == k,
{
    let f = ends.push(e);
    assert(fstart(f, ends.len() as int) == k);
    assert forall|x: int| 0 <= x < f.len() implies #[trigger] factor_ok(s, f, e + 1, x) by {
        if x < ends.len() {
            assert(factor_ok(s, ends, k, x));
            assert(fstart(f, x) == fstart(ends, x));
        }
    }
    assert forall|x: int| 0 <= x < f.len() - 1 implies #[trigger] factor_ge(s, f, x) by {
        assert(fstart(f, x) == fstart(ends, x));
        if x < ends.len() - 1 {
            assert(factor_ge(s, ends, x));
            assert(fstart(f, x + 1) == fstart(ends, x + 1));
        }
    }
}

pub proof fn lyn_single(s: Seq<int>, a: int)
    ensures lyn(s, a, a + 1),
{
}

} // verus!
