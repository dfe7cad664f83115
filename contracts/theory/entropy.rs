//@ needs real sums lynfact
verus! {

// m log2(n / m), where m of n characters are equal
pub open spec fn plog(m: int, n: int) -> real {
    if m > 0 { m as real * lg(n as real / m as real) } else { 0real }
}

// the terms of the first c characters
pub open spec fn h0_to(w: Seq<int>, c: int) -> real
    decreases c,
{
    if c <= 0 { 0real } else { h0_to(w, c - 1) + plog(cnt(w, c - 1, w.len() as int), w.len() as int) }
}

// zero-order entropy: sum over the distinct characters of (n_c / n) log2 (n / n_c)
pub open spec fn h0(w: Seq<int>) -> real {
    h0_to(w, 256) / (w.len() as real)
}

// position q has the same context of length k as p, and a character follows
pub open spec fn in_ctx(s: Seq<int>, p: int, k: int, q: int) -> bool {
    q + k < s.len() && eqr(s, p, q, k)
}

// the characters that follow the context of length k of position p, in text order, up to position m
pub open spec fn follow(s: Seq<int>, p: int, k: int, m: int) -> Seq<int>
    decreases m,
{
    if m <= 0 { seq![] }
    else if in_ctx(s, p, k, m - 1) { follow(s, p, k, m - 1).push(s[m - 1 + k]) }
    else { follow(s, p, k, m - 1) }
}

pub open spec fn foll(s: Seq<int>, p: int, k: int) -> Seq<int> {
    follow(s, p, k, s.len() as int)
}

// p is the first position of its context
pub open spec fn is_first(s: Seq<int>, p: int, k: int) -> bool {
    p + k < s.len() && forall|q: int| 0 <= q < p ==> !#[trigger] eqr(s, q, p, k)
}

// sum over all contexts that start in the first m positions of the zero-order entropy of the
// characters that follow, weighted by their number
pub open spec fn hk_sum(s: Seq<int>, k: int, m: int) -> real
    decreases m,
{
    if m <= 0 { 0real }
    else {
        hk_sum(s, k, m - 1) + if is_first(s, m - 1, k) {
            foll(s, m - 1, k).len() as real * h0(foll(s, m - 1, k))
        } else { 0real }
    }
}

// order-k entropy
pub open spec fn hk(s: Seq<int>, k: int) -> real {
    hk_sum(s, k, s.len() as int) / (s.len() as real)
}

pub open spec fn chars(w: Seq<int>) -> bool {
    forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < 256
}

// the contribution of each position: log2 of (number of equal characters / number of those that are
// the same) among the characters w
pub open spec fn terms(w: Seq<int>) -> Seq<real> {
    Seq::new(w.len(), |i: int| lg(w.len() as real / cnt(w, w[i], w.len() as int) as real))
}

proof fn h0_to_parts(w: Seq<int>, c: int)
    requires 0 <= c <= 256,
    ensures h0_to(w, c) == rsum(parts(terms(w), w, w.len() as int, 256), c),
    decreases c,
{
    if c > 0 {
        h0_to_parts(w, c - 1);
        let n = w.len() as int;
        let m = cnt(w, c - 1, n);
        cnt_pos(w, c - 1, n);
        let v = lg(n as real / m as real);
        part_const(terms(w), w, c - 1, n, v);
        assert(parts(terms(w), w, n, 256)[c - 1] == part(terms(w), w, c - 1, n));
        if m == 0 { assert(0int as real * v == 0real) by (nonlinear_arith); }
    }
}

// the sum over the characters as a sum over the positions
pub proof fn h0_terms(w: Seq<int>)
    requires chars(w),
    ensures h0_to(w, 256) == rsum(terms(w), w.len() as int),
{
    h0_to_parts(w, 256);
    grouped(terms(w), w, w.len() as int, 256);
}

pub proof fn h0_weighted(w: Seq<int>)
    requires w.len() > 0,
    ensures w.len() as real * h0(w) == h0_to(w, 256),
{
    let a = w.len() as real;
    let b = h0_to(w, 256);
    assert(a * (b / a) == b) by (nonlinear_arith) requires a > 0real;
}

// the contribution of position p in its context
pub open spec fn lp(s: Seq<int>, p: int, k: int) -> real {
    if p + k < s.len() {
        lg(foll(s, p, k).len() as real / cnt(foll(s, p, k), s[p + k], foll(s, p, k).len() as int) as real)
    } else { 0real }
}

pub open spec fn lps(s: Seq<int>, k: int) -> Seq<real> {
    Seq::new(s.len(), |p: int| lp(s, p, k))
}

proof fn ctx_same(s: Seq<int>, p: int, r: int, k: int, q: int)
    requires 0 <= p, 0 <= r, 0 <= q, 0 <= k, eqr(s, p, r, k),
    ensures in_ctx(s, p, k, q) == in_ctx(s, r, k, q),
{
    if eqr(s, p, q, k) {
        assert forall|x: int| r <= x < r + k implies #[trigger] s[x] == s[x - r + q] by {
            eqr_at(s, p, r, k, x - r);
            eqr_at(s, p, q, k, x - r);
        }
    }
    if eqr(s, r, q, k) {
        assert forall|x: int| p <= x < p + k implies #[trigger] s[x] == s[x - p + q] by {
            eqr_at(s, p, r, k, x - p);
            eqr_at(s, r, q, k, x - p);
        }
    }
}

// positions with the same context have the same characters behind their context
pub proof fn follow_same(s: Seq<int>, p: int, r: int, k: int, m: int)
    requires 0 <= p, 0 <= r, 0 <= k, eqr(s, p, r, k),
    ensures follow(s, p, k, m) == follow(s, r, k, m),
    decreases m,
{
    if m > 0 {
        follow_same(s, p, r, k, m - 1);
        ctx_same(s, p, r, k, m - 1);
    }
}

// the first position with the context of p
pub open spec fn first_of(s: Seq<int>, p: int, k: int, q: int) -> int
    decreases p - q,
{
    if q >= p || eqr(s, q, p, k) { q } else { first_of(s, p, k, q + 1) }
}

proof fn first_is(s: Seq<int>, p: int, k: int, q: int)
    requires 0 <= q <= p, 0 <= k, forall|x: int| 0 <= x < q ==> !#[trigger] eqr(s, x, p, k),
    ensures
        q <= first_of(s, p, k, q) <= p,
        eqr(s, first_of(s, p, k, q), p, k),
        forall|x: int| 0 <= x < first_of(s, p, k, q) ==> !#[trigger] eqr(s, x, p, k),
    decreases p - q,
{
    if q >= p {
        assert(eqr(s, p, p, k));
    } else if !eqr(s, q, p, k) {
        first_is(s, p, k, q + 1);
    }
}

pub open spec fn reps(s: Seq<int>, k: int) -> Seq<int> {
    Seq::new(s.len(), |p: int| if p + k < s.len() { first_of(s, p, k, 0) } else { p })
}

proof fn rep_class(s: Seq<int>, k: int, r: int, p: int)
    requires 0 <= r < s.len(), 0 <= p < s.len(), 0 <= k, is_first(s, r, k), p + k < s.len(),
    ensures reps(s, k)[p] == r <==> eqr(s, r, p, k),
{
    first_is(s, p, k, 0);
    let f = reps(s, k)[p];
    if eqr(s, r, p, k) {
        assert(f <= r);
        if f < r {
            eqr_sym(s, r, p, k);
            assert(eqr(s, f, r, k)) by {
                assert forall|x: int| f <= x < f + k implies #[trigger] s[x] == s[x - f + r] by {
                    eqr_at(s, f, p, k, x - f);
                    eqr_at(s, p, r, k, x - f);
                }
            }
        }
    }
}

// the positions of one context contribute as the characters that follow
proof fn class_sum(s: Seq<int>, k: int, r: int, m: int)
    requires 0 <= r < s.len(), 0 <= k, is_first(s, r, k), 0 <= m <= s.len(),
    ensures
        part(lps(s, k), reps(s, k), r, m) == rsum(terms(foll(s, r, k)), follow(s, r, k, m).len() as int),
        follow(s, r, k, m).len() <= foll(s, r, k).len(),
        follow(s, r, k, m) == foll(s, r, k).subrange(0, follow(s, r, k, m).len() as int),
    decreases m,
{
    let w = foll(s, r, k);
    follow_prefix(s, r, k, m, s.len() as int);
    if m > 0 {
        class_sum(s, k, r, m - 1);
        let p = m - 1;
        if p + k < s.len() {
            rep_class(s, k, r, p);
            if eqr(s, r, p, k) {
                follow_same(s, r, p, k, s.len() as int);
                let j = follow(s, r, k, m - 1).len() as int;
                assert(follow(s, r, k, m)[j] == s[p + k]);
                assert(w[j] == s[p + k]);
                assert(terms(w)[j] == lp(s, p, k));
            }
        } else {
            assert(lps(s, k)[p] == 0real);
        }
    }
}

proof fn follow_prefix(s: Seq<int>, p: int, k: int, m: int, n: int)
    requires m <= n,
    ensures
        follow(s, p, k, m).len() <= follow(s, p, k, n).len(),
        follow(s, p, k, m) == follow(s, p, k, n).subrange(0, follow(s, p, k, m).len() as int),
    decreases n - m,
{
    if m < n {
        follow_prefix(s, p, k, m, n - 1);
        assert(follow(s, p, k, m) =~= follow(s, p, k, n).subrange(0, follow(s, p, k, m).len() as int));
    } else {
        assert(follow(s, p, k, m) =~= follow(s, p, k, n).subrange(0, follow(s, p, k, m).len() as int));
    }
}

// a position that is not the first of its context represents nobody
proof fn class_none(s: Seq<int>, k: int, r: int, m: int)
    requires 0 <= r < s.len(), 0 <= k, !is_first(s, r, k), 0 <= m <= s.len(),
    ensures part(lps(s, k), reps(s, k), r, m) == 0real,
    decreases m,
{
    if m > 0 {
        class_none(s, k, r, m - 1);
        let p = m - 1;
        if p + k < s.len() && reps(s, k)[p] == r {
            first_is(s, p, k, 0);
            let q = choose|q: int| 0 <= q < r && #[trigger] eqr(s, q, r, k);
            assert(eqr(s, q, p, k)) by {
                assert forall|x: int| q <= x < q + k implies #[trigger] s[x] == s[x - q + p] by {
                    eqr_at(s, q, r, k, x - q);
                    eqr_at(s, r, p, k, x - q);
                }
            }
        }
    }
}

proof fn follow_chars(s: Seq<int>, p: int, k: int, m: int)
    requires chars(s), 0 <= k,
    ensures chars(follow(s, p, k, m)),
    decreases m,
{
    if m > 0 {
        follow_chars(s, p, k, m - 1);
        let r = follow(s, p, k, m - 1);
        assert forall|i: int| 0 <= i < follow(s, p, k, m).len() implies 0 <= #[trigger] follow(s, p, k, m)[i] < 256 by {
            if i < r.len() { assert(follow(s, p, k, m)[i] == r[i]); }
        }
    }
}

proof fn follow_has(s: Seq<int>, p: int, k: int, q: int, m: int)
    requires 0 <= q < m, in_ctx(s, p, k, q),
    ensures follow(s, p, k, m).len() > 0, cnt(follow(s, p, k, m), s[q + k], follow(s, p, k, m).len() as int) > 0,
    decreases m,
{
    let w = follow(s, p, k, m);
    if q == m - 1 {
        assert(w.last() == s[q + k]);
        cnt_pos(w, s[q + k], w.len() as int);
    } else {
        follow_has(s, p, k, q, m - 1);
        let v = follow(s, p, k, m - 1);
        follow_prefix(s, p, k, m - 1, m);
        cnt_ext(v, w, s[q + k], v.len() as int);
        cnt_pos(v, s[q + k], v.len() as int);
    }
}

pub proof fn cnt_ext(v: Seq<int>, w: Seq<int>, c: int, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] v[i] == w[i],
    ensures cnt(v, c, m) == cnt(w, c, m),
    decreases m,
{
    if m > 0 { cnt_ext(v, w, c, m - 1); }
}

proof fn hk_parts(s: Seq<int>, k: int, m: int)
    requires chars(s), 0 <= k, 0 <= m <= s.len(),
    ensures hk_sum(s, k, m) == rsum(parts(lps(s, k), reps(s, k), s.len() as int, s.len() as int), m),
    decreases m,
{
    if m > 0 {
        hk_parts(s, k, m - 1);
        let n = s.len() as int;
        let r = m - 1;
        assert(parts(lps(s, k), reps(s, k), n, n)[r] == part(lps(s, k), reps(s, k), r, n));
        if is_first(s, r, k) {
            class_sum(s, k, r, n);
            let w = foll(s, r, k);
            follow_chars(s, r, k, n);
            h0_terms(w);
            assert(eqr(s, r, r, k));
            follow_has(s, r, k, r, n);
            h0_weighted(w);
        } else {
            class_none(s, k, r, n);
        }
    }
}

// the sum over the contexts as a sum over the positions
pub proof fn hk_positions(s: Seq<int>, k: int)
    requires chars(s), 0 <= k,
    ensures hk_sum(s, k, s.len() as int) == rsum(lps(s, k), s.len() as int),
{
    let n = s.len() as int;
    hk_parts(s, k, n);
    assert forall|p: int| 0 <= p < n implies 0 <= #[trigger] reps(s, k)[p] < n by {
        if p + k < n { first_is(s, p, k, 0); }
    }
    grouped(lps(s, k), reps(s, k), n, n);
}

// number of positions with this context, and with this character behind it
pub open spec fn ctx_sel(s: Seq<int>, p: int, k: int) -> Seq<bool> {
    Seq::new(s.len(), |q: int| in_ctx(s, p, k, q))
}

pub open spec fn chr_sel(s: Seq<int>, p: int, k: int, c: int) -> Seq<bool> {
    Seq::new(s.len(), |q: int| in_ctx(s, p, k, q) && s[q + k] == c)
}

pub proof fn follow_count(s: Seq<int>, p: int, k: int, c: int, m: int)
    requires 0 <= m <= s.len(),
    ensures
        follow(s, p, k, m).len() == tot(ctx_sel(s, p, k), m),
        cnt(follow(s, p, k, m), c, follow(s, p, k, m).len() as int) == tot(chr_sel(s, p, k, c), m),
    decreases m,
{
    if m > 0 {
        follow_count(s, p, k, c, m - 1);
        let v = follow(s, p, k, m - 1);
        let w = follow(s, p, k, m);
        cnt_ext(v, w, c, v.len() as int);
    }
}

} // verus!
