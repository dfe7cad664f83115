//@ needs entropy rangelce sentinel
verus! {

// maximal range of ranks with a common prefix of length k
pub open spec fn block(sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int) -> bool {
    &&& 0 <= b <= e < sa.len()
    &&& b == 0 || lcp[b] < k
    &&& e == sa.len() - 1 || lcp[e + 1] < k
    &&& forall|j: int| b < j <= e ==> #[trigger] lcp[j] >= k
}

// contributions of the positions in the order of the suffix array
pub open spec fn ranked(s: Seq<int>, sa: Seq<int>, k: int) -> Seq<real> {
    Seq::new(s.len(), |j: int| lp(s, sa[j], k))
}

// the characters behind the contexts of ranks b..=e
pub open spec fn behind(s: Seq<int>, sa: Seq<int>, k: int, b: int, e: int) -> Seq<int> {
    Seq::new((e - b + 1) as nat, |i: int| s[sa[b + i] + k])
}

// two suffixes with a common prefix of length k are longer than k
proof fn ctx_short(s: Seq<int>, p: int, q: int, k: int)
    requires with_sentinel(s), 0 <= p < s.len(), 0 <= q < s.len(), p != q, 1 <= k, p + k <= s.len(), q + k <= s.len(), eqr(s, p, q, k),
    ensures p + k < s.len(), q + k < s.len(),
{
    let n = s.len() as int;
    eqr_at(s, p, q, k, k - 1);
    if p + k == n { assert(q + k - 1 < n - 1); assert(s[q + (k - 1)] > 0); }
    if q + k == n { assert(p + k - 1 < n - 1); assert(s[p + (k - 1)] > 0); }
}

// the first of two ranks whose suffixes share a prefix of length k
proof fn ranks_share(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, i: int, j: int)
    requires is_sa(s, sa), is_lcp(s, sa, lcp), 0 <= i < j < sa.len(), 1 <= k,
    ensures
        (forall|x: int| i < x <= j ==> #[trigger] lcp[x] >= k) ==> sa[i] + k <= s.len() && sa[j] + k <= s.len() && eqr(s, sa[i], sa[j], k) && eqr(s, sa[j], sa[i], k),
        sa[i] + k <= s.len() && sa[j] + k <= s.len() && (eqr(s, sa[i], sa[j], k) || eqr(s, sa[j], sa[i], k)) ==> forall|x: int| i < x <= j ==> #[trigger] lcp[x] >= k,
{
    hide(suf_lt);
    hide(lce2);
    hide(eqr);
    let n = s.len() as int;
    let a = sa[i];
    let b = sa[j];
    let v = range_lce(s, sa, lcp, i, j);
    lce_props(s, a, n, b, n);
    reveal(lce2);
    if forall|x: int| i < x <= j ==> #[trigger] lcp[x] >= k {
        let x = choose|x: int| i + 1 <= x < j + 1 && #[trigger] lcp[x] == v;
        assert(lcp[x] >= k);
        assert(eqr(s, a, b, k)) by { eqr_part(s, a, b, v as int, k); }
        eqr_sym(s, a, b, k);
    }
    if a + k <= n && b + k <= n && (eqr(s, a, b, k) || eqr(s, b, a, k)) {
        if !eqr(s, a, b, k) { eqr_sym(s, b, a, k); }
        if v < k { eqr_at(s, a, b, k, v as int); }
    }
}

proof fn eqr_part(s: Seq<int>, a: int, b: int, l: int, k: int)
    requires eqr(s, a, b, l), k <= l,
    ensures eqr(s, a, b, k),
{
}

pub open spec fn real_block(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int) -> bool {
    &&& with_sentinel(s) && 1 <= k
    &&& is_sa(s, sa) && is_lcp(s, sa, lcp)
    &&& block(sa, lcp, k, b, e)
    &&& b < e || sa[b] + k < s.len()
}

// the positions of a block are those with the context of its first one
proof fn block_class(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int, j: int)
    requires real_block(s, sa, lcp, k, b, e), 0 <= j < sa.len(),
    ensures in_ctx(s, sa[b], k, sa[j]) <==> b <= j <= e, sa[b] + k < s.len(),
{
    hide(suf_lt);
    hide(lce2);
    hide(eqr);
    sa_perm(s, sa);
    let n = s.len() as int;
    if b < e {
        ranks_share(s, sa, lcp, k, b, b + 1);
        ctx_short(s, sa[b], sa[b + 1], k);
    }
    assert(sa[b] + k < n);
    if j == b {
        reveal(eqr);
        assert(eqr(s, sa[b], sa[b], k));
    } else if b < j {
        ranks_share(s, sa, lcp, k, b, j);
        if j <= e {
            ctx_short(s, sa[b], sa[j], k);
        } else if in_ctx(s, sa[b], k, sa[j]) {
            assert(lcp[e + 1] >= k);
        }
    } else {
        ranks_share(s, sa, lcp, k, j, b);
        if in_ctx(s, sa[b], k, sa[j]) {
            assert(lcp[b] >= k);
        }
    }
}

proof fn interval_tot(sel: Seq<bool>, b: int, e: int, m: int)
    requires 0 <= b <= e < sel.len(), 0 <= m <= sel.len(), forall|j: int| 0 <= j < sel.len() ==> (#[trigger] sel[j] <==> b <= j <= e),
    ensures tot(sel, m) == if m <= b { 0 } else if m <= e { m - b } else { e - b + 1 },
    decreases m,
{
    if m > 0 { interval_tot(sel, b, e, m - 1); }
}

proof fn interval_cnt(sel: Seq<bool>, v: Seq<int>, c: int, b: int, e: int, m: int)
    requires
        0 <= b <= e < sel.len(), 0 <= m <= sel.len(),
        forall|j: int| 0 <= j < sel.len() ==> (#[trigger] sel[j] <==> b <= j <= e && v[j - b] == c),
    ensures tot(sel, m) == cnt(v, c, if m <= b { 0 } else if m <= e { m - b } else { e - b + 1 }),
    decreases m,
{
    if m > 0 { interval_cnt(sel, v, c, b, e, m - 1); }
}

// counts of the context of a block
proof fn block_counts(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int, c: int)
    requires real_block(s, sa, lcp, k, b, e),
    ensures
        foll(s, sa[b], k).len() == e - b + 1,
        cnt(foll(s, sa[b], k), c, foll(s, sa[b], k).len() as int) == cnt(behind(s, sa, k, b, e), c, e - b + 1),
{
    hide(suf_lt);
    hide(lce2);
    hide(eqr);
    sa_perm(s, sa);
    let n = s.len() as int;
    let p = sa[b];
    let v = behind(s, sa, k, b, e);
    follow_count(s, p, k, c, n);
    let x = ctx_sel(s, p, k);
    let y = Seq::new(sa.len(), |j: int| x[sa[j]]);
    tot_perm(x, sa, y);
    assert forall|j: int| 0 <= j < y.len() implies (#[trigger] y[j] <==> b <= j <= e) by {
        block_class(s, sa, lcp, k, b, e, j);
    }
    interval_tot(y, b, e, n);
    let z = chr_sel(s, p, k, c);
    let u = Seq::new(sa.len(), |j: int| z[sa[j]]);
    tot_perm(z, sa, u);
    assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j] <==> b <= j <= e && v[j - b] == c) by {
        block_class(s, sa, lcp, k, b, e, j);
    }
    interval_cnt(u, v, c, b, e, n);
}

proof fn block_part(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int, m: int)
    requires real_block(s, sa, lcp, k, b, e), 0 <= m <= e - b + 1,
    ensures rsum(ranked(s, sa, k), b + m) == rsum(ranked(s, sa, k), b) + rsum(terms(behind(s, sa, k, b, e)), m),
    decreases m,
{
    hide(is_sa);
    hide(is_lcp);
    hide(eqr);
    hide(with_sentinel);
    if m > 0 {
        block_part(s, sa, lcp, k, b, e, m - 1);
        let j = b + m - 1;
        let v = behind(s, sa, k, b, e);
        sa_in(s, sa, b);
        sa_in(s, sa, j);
        block_class(s, sa, lcp, k, b, e, j);
        follow_same(s, sa[b], sa[j], k, s.len() as int);
        block_counts(s, sa, lcp, k, b, e, s[sa[j] + k]);
        assert(v[m - 1] == s[sa[j] + k]);
        assert(terms(v)[m - 1] == lp(s, sa[j], k));
        assert(ranked(s, sa, k)[j] == lp(s, sa[j], k));
    }
}

pub proof fn sa_in(s: Seq<int>, sa: Seq<int>, j: int)
    requires is_sa(s, sa), 0 <= j < sa.len(),
    ensures 0 <= sa[j] < s.len(), s.len() == sa.len(),
{
}

proof fn behind_chars(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int)
    requires real_block(s, sa, lcp, k, b, e), chars(s),
    ensures chars(behind(s, sa, k, b, e)), forall|j: int| b <= j <= e ==> (#[trigger] sa[j]) + k < s.len(),
{
    let v = behind(s, sa, k, b, e);
    assert forall|j: int| b <= j <= e implies (#[trigger] sa[j]) + k < s.len() by {
        block_class(s, sa, lcp, k, b, e, j);
    }
    assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] v[i] < 256 by {
        assert(sa[b + i] + k < s.len());
    }
}

// a block of several suffixes contributes the entropy of the characters behind it
pub proof fn block_entropy(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int)
    requires real_block(s, sa, lcp, k, b, e), chars(s),
    ensures
        forall|j: int| b <= j <= e ==> (#[trigger] sa[j]) + k < s.len(),
        rsum(ranked(s, sa, k), e + 1) == rsum(ranked(s, sa, k), b) + h0_to(behind(s, sa, k, b, e), 256),
{
    hide(is_sa);
    hide(is_lcp);
    hide(eqr);
    hide(with_sentinel);
    behind_chars(s, sa, lcp, k, b, e);
    block_part(s, sa, lcp, k, b, e, e - b + 1);
    h0_terms(behind(s, sa, k, b, e));
}

// a suffix that is alone contributes nothing
pub proof fn block_single(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int)
    requires with_sentinel(s), 1 <= k, is_sa(s, sa), is_lcp(s, sa, lcp), block(sa, lcp, k, b, b), chars(s),
    ensures rsum(ranked(s, sa, k), b + 1) == rsum(ranked(s, sa, k), b),
{
    if sa[b] + k < s.len() {
        block_part(s, sa, lcp, k, b, b, 1);
        let v = behind(s, sa, k, b, b);
        assert(cnt(v, v[0], 1) == 1) by { reveal_with_fuel(cnt, 2); }
        assert(terms(v)[0] == lg(1int as real / 1int as real));
        assert(1int as real / 1int as real == 1real) by (nonlinear_arith);
        lg_one();
        assert(rsum(terms(v), 1) == 0real) by { reveal_with_fuel(rsum, 2); }
    }
}

// the contributions of all ranks are the order-k entropy
pub proof fn ranked_all(s: Seq<int>, sa: Seq<int>, k: int)
    requires is_sa(s, sa), chars(s), 0 <= k,
    ensures rsum(ranked(s, sa, k), s.len() as int) == hk_sum(s, k, s.len() as int),
{
    sa_perm(s, sa);
    hk_positions(s, k);
    assert forall|i: int| 0 <= i < sa.len() implies #[trigger] ranked(s, sa, k)[i] == lps(s, k)[sa[i]] by {}
    rsum_perm(lps(s, k), sa, ranked(s, sa, k));
}

} // verus!
verus! {

// ranks b..=e have a common prefix of length k, those before are in other blocks
pub open spec fn open_block(lcp: Seq<u32>, k: int, b: int, e: int) -> bool {
    &&& 0 <= b
    &&& b == 0 || lcp[b] < k
    &&& forall|j: int| b < j <= e ==> #[trigger] lcp[j] >= k
}

pub proof fn block_step(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>, k: int, b: int, e: int)
    requires
        with_sentinel(s), 1 <= k, is_sa(s, sa), is_lcp(s, sa, lcp), chars(s),
        open_block(lcp, k, b, e), 0 <= b <= e < sa.len(), e == sa.len() - 1 || lcp[e + 1] < k,
    ensures
        b < e ==> forall|j: int| b <= j <= e ==> 0 <= (#[trigger] sa[j]) && sa[j] + k < s.len(),
        b < e ==> rsum(ranked(s, sa, k), e + 1) == rsum(ranked(s, sa, k), b) + h0_to(behind(s, sa, k, b, e), 256),
        b == e ==> rsum(ranked(s, sa, k), e + 1) == rsum(ranked(s, sa, k), b),
{
    assert(block(sa, lcp, k, b, e));
    if b < e {
        block_entropy(s, sa, lcp, k, b, e);
        assert forall|j: int| b <= j <= e implies 0 <= (#[trigger] sa[j]) && sa[j] + k < s.len() by { sa_in(s, sa, j); }
    } else {
        block_single(s, sa, lcp, k, b);
    }
}

} // verus!
