//@ needs sa
verus! {

pub open spec fn lce2(s: Seq<int>, a: int, b: int) -> int {
    lce(s, a, s.len() as int, b, s.len() as int)
}

// the PLCP value of position b with phi value a
pub open spec fn plcp_at(s: Seq<int>, a: int, b: int) -> int {
    if suf_lt(s, a, b) { lce2(s, a, b) } else { 0 }
}

pub open spec fn is_plcp(s: Seq<int>, sa: Seq<int>, plcp: Seq<u32>) -> bool {
    &&& plcp.len() == s.len()
    &&& s.len() > 0 ==> plcp[sa[0]] == 0
    &&& forall|i: int| 1 <= i < sa.len() ==> #[trigger] plcp[sa[i]] == lce2(s, sa[i - 1], sa[i])
}

pub open spec fn is_lcp(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>) -> bool {
    &&& lcp.len() == s.len()
    &&& s.len() > 0 ==> lcp[0] == 0
    &&& forall|i: int| 1 <= i < sa.len() ==> #[trigger] lcp[i] == lce2(s, sa[i - 1], sa[i])
}

pub proof fn plcp_thm(s: Seq<int>, sa: Seq<int>, phi: Seq<int>, plcp: Seq<u32>)
    requires
        is_sa(s, sa), is_phi(sa, phi), plcp.len() == s.len(),
        forall|b: int| 0 <= b < s.len() ==> #[trigger] plcp[b] == plcp_at(s, phi[b], b),
    ensures is_plcp(s, sa, plcp),
{
    if s.len() > 0 {
        assert(plcp[sa[0]] == plcp_at(s, sa[sa.len() - 1], sa[0]));
        sa_lt(s, sa, sa.len() - 1, 0);
    }
    assert forall|i: int| 1 <= i < sa.len() implies #[trigger] plcp[sa[i]] == lce2(s, sa[i - 1], sa[i]) by {
        assert(plcp[sa[i]] == plcp_at(s, phi[sa[i]], sa[i]));
        assert(suf_lt(s, sa[i - 1], sa[i]));
    }
}

pub proof fn lcp_thm(s: Seq<int>, sa: Seq<int>, plcp: Seq<u32>, lcp: Seq<u32>)
    requires
        is_sa(s, sa), is_plcp(s, sa, plcp), lcp.len() == plcp.len(),
        forall|i: int| 0 <= i < lcp.len() ==> #[trigger] lcp[i] == plcp[sa[i]],
    ensures is_lcp(s, sa, lcp),
{
}

// a matching length at which the extension stops is the longest common prefix
pub proof fn lce_is(s: Seq<int>, a: int, b: int, q: int)
    requires
        0 <= a, 0 <= b, 0 <= q, a + q <= s.len(), b + q <= s.len(), eqr(s, a, b, q),
        a + q == s.len() || b + q == s.len() || s[a + q] != s[b + q],
    ensures lce2(s, a, b) == q,
{
    let n = s.len() as int;
    lce_props(s, a, n, b, n);
    let l = lce2(s, a, b);
    if l < q {
        eqr_at(s, a, b, q, l);
    } else if l > q {
        eqr_at(s, a, b, l, q);
    }
}

// for A < B: B is longer than the common prefix
pub proof fn lce_lt(s: Seq<int>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), suf_lt(s, a, b),
    ensures
        b + lce2(s, a, b) < s.len(),
        a + lce2(s, a, b) == s.len() || s[a + lce2(s, a, b)] < s[b + lce2(s, a, b)],
{
    let n = s.len() as int;
    lce_props(s, a, n, b, n);
    let q = choose|q: int| #[trigger] lt_at(s, a, n, b, n, q);
    assert(lt_at(s, a, n, b, n, q));
    lce_is(s, a, b, q);
}

// A <= C < B: C shares at least as much with B as A does
pub proof fn lce_mono(s: Seq<int>, a: int, c: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), 0 <= c <= s.len(), suf_lt(s, a, c), suf_lt(s, c, b),
    ensures lce2(s, c, b) >= lce2(s, a, b),
{
    let n = s.len() as int;
    suf_trans(s, a, c, b);
    lce_props(s, a, n, b, n);
    lce_props(s, c, n, b, n);
    lce_props(s, a, n, c, n);
    lce_lt(s, a, c);
    lce_lt(s, c, b);
    lce_lt(s, a, b);
    let l = lce2(s, c, b);
    let m = lce2(s, a, b);
    let k = lce2(s, a, c);
    if l < m {
        // C and B differ at l, A and B agree there
        eqr_at(s, a, b, m, l);
        assert(s[a + l] == s[b + l]);
        if k < l {
            eqr_at(s, c, b, l, k);
            eqr_at(s, a, b, m, k);
        } else if k > l {
            eqr_at(s, a, c, k, l);
        } else {
        }
    }
}

// the carried length of Kasai's algorithm
pub proof fn kasai_step(s: Seq<int>, phi: Seq<int>, b: int)
    requires phi_ok(s, phi), 0 <= b, b + 1 < s.len(),
    ensures plcp_at(s, phi[b + 1], b + 1) >= plcp_at(s, phi[b], b) - 1,
        plcp_at(s, phi[b], b) > 1 ==> suf_lt(s, phi[b + 1], b + 1),
{
    let n = s.len() as int;
    let a = phi[b];
    assert(phi_at(s, phi[b], b));
    assert(phi_at(s, phi[b + 1], b + 1));
    if suf_lt(s, a, b) {
        lce_props(s, a, n, b, n);
        lce_lt(s, a, b);
        let l = lce2(s, a, b);
        if l >= 1 {
            eqr_at(s, a, b, l, 0);
            assert(l == 1 + lce2(s, a + 1, b + 1));
            if l >= 2 {
                assert(eqr(s, a + 1, b + 1, l - 1)) by {
                    assert forall|x: int| a + 1 <= x < a + 1 + (l - 1) implies #[trigger] s[x] == s[x - (a + 1) + (b + 1)] by {
                        eqr_at(s, a, b, l, x - a);
                    }
                }
                assert(a + 1 + (l - 1) == a + l && b + 1 + (l - 1) == b + l);
                assert(lt_at(s, a + 1, n, b + 1, n, l - 1));
                assert(suf_lt(s, a + 1, b + 1));
                assert(a + 1 < n);
                suf_asym(s, a + 1, b + 1);
                let c = phi[b + 1];
                assert(suf_lt(s, c, b + 1));
                if c != a + 1 {
                    assert(suf_lt(s, a + 1, c));
                    lce_mono(s, a + 1, c, b + 1);
                }
            }
        }
    }
    let c = phi[b + 1];
    lce_props(s, c, n, b + 1, n);
}

// the smallest suffix: a common first character with the largest suffix means a unary text
pub proof fn smallest_unary(s: Seq<int>, a: int, b: int)
    requires 0 <= b < s.len(), phi_at(s, a, b), !suf_lt(s, a, b), s[a] == s[b],
    ensures b == s.len() - 1,
{
    let n = s.len() as int;
    if b < n - 1 {
        let p = n - 1;
        assert(suf_lt(s, b, p));
        let q = choose|q: int| #[trigger] lt_at(s, b, n, p, n, q);
        assert(lt_at(s, b, n, p, n, q));
        assert(q == 0);
        assert(s[b] < s[p]);
        if p != a {
            assert(suf_lt(s, p, a));
            let q = choose|q: int| #[trigger] lt_at(s, p, n, a, n, q);
            assert(lt_at(s, p, n, a, n, q));
            if q > 0 { eqr_at(s, p, a, q, 0); }
        }
    }
}

// at the start of an iteration: the carried length is a common prefix
pub proof fn plcp_start(s: Seq<int>, f: Seq<int>, b: int, length: int)
    requires phi_ok(s, f), 0 <= b < s.len(), 0 <= length <= plcp_at(s, f[b], b),
    ensures
        0 <= f[b] < s.len(), f[b] + length <= s.len(), b + length <= s.len(), eqr(s, f[b], b, length),
{
    assert(phi_at(s, f[b], b));
    let n = s.len() as int;
    lce_props(s, f[b], n, b, n);
}

// at the end: it is the PLCP value, unless it reaches the end of the text from b
pub proof fn plcp_stop(s: Seq<int>, f: Seq<int>, b: int, q: int)
    requires
        phi_ok(s, f), 0 <= b < s.len(), 0 <= q, f[b] + q <= s.len(), b + q <= s.len(), eqr(s, f[b], b, q),
        f[b] + q == s.len() || b + q == s.len() || s[f[b] + q] != s[b + q],
    ensures
        plcp_at(s, f[b], b) == (if b + q == s.len() { 0 } else { q }),
{
    let a = f[b];
    assert(phi_at(s, f[b], b));
    lce_is(s, a, b, q);
    if suf_lt(s, a, b) {
        lce_lt(s, a, b);
    } else if q > 0 {
        eqr_at(s, a, b, q, 0);
        smallest_unary(s, a, b);
    }
}

pub proof fn plcp_next(s: Seq<int>, f: Seq<int>, b: int)
    requires phi_ok(s, f), 0 <= b < s.len(),
    ensures
        plcp_at(s, f[b], b) >= 0,
        b + 1 < s.len() ==> plcp_at(s, f[b + 1], b + 1) >= plcp_at(s, f[b], b) - 1 && plcp_at(s, f[b + 1], b + 1) >= 0,
{
    let n = s.len() as int;
    assert(phi_at(s, f[b], b));
    lce_props(s, f[b], n, b, n);
    if b + 1 < n {
        kasai_step(s, f, b);
        assert(phi_at(s, f[b + 1], b + 1));
        lce_props(s, f[b + 1], n, b + 1, n);
    }
}

} // verus!
