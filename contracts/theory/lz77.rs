//@ needs bwt lexparse lzfactor psv segtree rangelce
verus! {

// the factor at position i: a new character, or a longest copy from an earlier position at distance e.0
pub open spec fn lz_at(s: Seq<int>, i: int, e: (int, int)) -> bool {
    if e.1 == 0 {
        e.0 == s[i] && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != s[i]
    } else {
        &&& 0 < e.1 && i + e.1 <= s.len()
        &&& 0 < e.0 <= i
        &&& eqr(s, i - e.0, i, e.1)
        &&& forall|j: int| 0 <= j < i ==> #[trigger] lce2(s, j, i) <= e.1
    }
}

pub open spec fn lz_fact_at(s: Seq<int>, f: Factors, x: int) -> bool {
    &&& 0 <= fpos(f, x) < s.len()
    &&& lz_at(s, fpos(f, x), f[x])
}

// f is the factorization of the first k characters
pub open spec fn lz_prefix(s: Seq<int>, f: Factors, k: int) -> bool {
    &&& fpos(f, f.len() as int) == k
    &&& forall|x: int| 0 <= x < f.len() ==> #[trigger] lz_fact_at(s, f, x)
}

pub open spec fn is_lz77(s: Seq<int>, f: Factors) -> bool {
    lz_prefix(s, f, s.len() as int)
}

pub proof fn lz_push(s: Seq<int>, f: Factors, k: int, e: (int, int))
    requires lz_prefix(s, f, k), 0 <= k < s.len(), lz_at(s, k, e),
    ensures lz_prefix(s, f.push(e), k + if e.1 == 0 { 1 } else { e.1 }),
{
    let g = f.push(e);
    fpos_push(f, e, f.len() as int);
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] lz_fact_at(s, g, x) by {
        fpos_push(f, e, x);
        if x < f.len() { assert(lz_fact_at(s, f, x)); assert(g[x] == f[x]); }
    }
}

// appending a right factor
proof fn lz_push_any(s: Seq<int>, fs: Seq<LZFactor>, k: int)
    requires lz_prefix(s, lzs(fs), k), 0 <= k < s.len(),
    ensures
        forall|r: Seq<LZFactor>| r.len() == fs.len() + 1 && (forall|j: int| 0 <= j < fs.len() ==> r[j] == fs[j])
            && lz_at(s, k, (r.last().pos as int, r.last().len as int))
            ==> lz_prefix(s, #[trigger] lzs(r), k + if r.last().len == 0 { 1 } else { r.last().len as int }),
{
    assert forall|r: Seq<LZFactor>| r.len() == fs.len() + 1 && (forall|j: int| 0 <= j < fs.len() ==> r[j] == fs[j])
        && lz_at(s, k, (r.last().pos as int, r.last().len as int))
        implies lz_prefix(s, #[trigger] lzs(r), k + if r.last().len == 0 { 1 } else { r.last().len as int }) by {
        let e = (r.last().pos as int, r.last().len as int);
        assert(lzs(r) =~= lzs(fs).push(e));
        lz_push(s, lzs(fs), k, e);
    }
}

proof fn lz_empty(s: Seq<int>, fs: Seq<LZFactor>)
    requires fs.len() == 0,
    ensures lz_prefix(s, lzs(fs), 0),
{
}

pub proof fn lce_sym(s: Seq<int>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(),
    ensures lce2(s, a, b) == lce2(s, b, a),
{
    let n = s.len() as int;
    lce_props(s, a, n, b, n);
    eqr_sym(s, a, b, lce2(s, a, b));
    lce_is(s, b, a, lce2(s, a, b));
}

// what the neighbours of smaller position in the suffix array tell
pub open spec fn neighbours(s: Seq<int>, sa: Seq<int>, x: int, p: u32, q: u32, lp: int, lq: int) -> bool {
    &&& is_psv(sa, x, p) && is_nsv(sa, x, q)
    &&& lp == if p == u32::MAX { 0 } else { lce2(s, sa[p as int], sa[x]) }
    &&& lq == if q == u32::MAX { 0 } else { lce2(s, sa[x], sa[q as int]) }
}

// one of the two neighbours shares a longest prefix with the suffix at i
pub proof fn lz_neighbours(s: Seq<int>, sa: Seq<int>, x: int, p: u32, q: u32, lp: int, lq: int, j: int)
    requires
        is_sa(s, sa), 0 <= x < sa.len() < u32::MAX, neighbours(s, sa, x, p, q, lp, lq), 0 <= j < sa[x],
    ensures
        lce2(s, j, sa[x]) <= lp || lce2(s, j, sa[x]) <= lq,
{
    hide(suf_lt);
    hide(lce2);
    sa_perm(s, sa);
    let y = perm_at(sa, j);
    if y < x {
        if p != u32::MAX {
            range_mono(s, sa, y, p as int, x, x);
        }
    } else {
        lce_sym(s, j, sa[x]);
        if q != u32::MAX {
            range_mono(s, sa, x, x, q as int, y);
        }
    }
}

// the factor that the code takes
pub proof fn lz_step(s: Seq<int>, sa: Seq<int>, x: int, p: u32, q: u32, lp: int, lq: int)
    requires
        is_sa(s, sa), 0 <= x < sa.len() < u32::MAX, neighbours(s, sa, x, p, q, lp, lq),
    ensures
        0 <= lp <= s.len() - sa[x], 0 <= lq <= s.len() - sa[x],
        lp == 0 && lq == 0 ==> lz_at(s, sa[x], (s[sa[x]], 0int)),
        lp > 0 ==> p < x && 0 <= sa[p as int] < sa[x],
        lq > 0 ==> x < q < sa.len() && 0 <= sa[q as int] < sa[x],
        lp > 0 && lp >= lq ==> lz_at(s, sa[x], (sa[x] - sa[p as int], lp)),
        lq > 0 && lq >= lp ==> lz_at(s, sa[x], (sa[x] - sa[q as int], lq)),
{
    hide(suf_lt);
    hide(lce2);
    let i = sa[x];
    if p != u32::MAX { lce2_props(s, sa[p as int], i); }
    if q != u32::MAX {
        lce2_props(s, i, sa[q as int]);
        eqr_sym(s, i, sa[q as int], lq);
    }
    assert forall|j: int| 0 <= j < i implies #[trigger] lce2(s, j, i) <= lp || lce2(s, j, i) <= lq by {
        lz_neighbours(s, sa, x, p, q, lp, lq, j);
    }
    if lp == 0 && lq == 0 {
        assert forall|j: int| 0 <= j < i implies #[trigger] s[j] != s[i] by {
            lce2_props(s, j, i);
            assert(lce2(s, j, i) <= lp || lce2(s, j, i) <= lq);
        }
    }
}

proof fn lce2_props(s: Seq<int>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(),
    ensures
        0 <= lce2(s, a, b) <= s.len() - a, lce2(s, a, b) <= s.len() - b, eqr(s, a, b, lce2(s, a, b)),
        s[a] == s[b] ==> lce2(s, a, b) > 0,
{
    let n = s.len() as int;
    lce_props(s, a, n, b, n);
    lce_props(s, a + 1, n, b + 1, n);
}

// ---- decoding
pub open spec fn lz_valid_at(f: Factors, x: int) -> bool {
    &&& 0 <= f[x].1
    &&& f[x].1 == 0 ==> 0 <= f[x].0 < 256
    &&& f[x].1 > 0 ==> 0 < f[x].0 <= fpos(f, x)
}

// references of the factors point into the part before them
pub open spec fn lz_valid(f: Factors) -> bool {
    forall|x: int| 0 <= x < f.len() ==> #[trigger] lz_valid_at(f, x)
}

pub open spec fn lz_match(f: Factors, t: Seq<int>, x: int) -> bool {
    let b = fpos(f, x);
    if f[x].1 == 0 { t[b] == f[x].0 } else { forall|d: int| 0 <= d < f[x].1 ==> #[trigger] t[b + d] == t[b + d - f[x].0] }
}

// t is what the first k factors stand for
pub open spec fn lz_text(f: Factors, t: Seq<int>, k: int) -> bool {
    &&& t.len() == fpos(f, k)
    &&& forall|x: int| 0 <= x < k ==> #[trigger] lz_match(f, t, x)
}

pub proof fn fpos_mono(f: Factors, x: int, y: int)
    requires lz_valid(f), 0 <= x <= y <= f.len(),
    ensures 0 <= fpos(f, x), fpos(f, x) + y - x <= fpos(f, y),
    decreases y,
{
    if x < y {
        assert(lz_valid_at(f, y - 1));
        fpos_mono(f, x, y - 1);
    } else if x > 0 {
        assert(lz_valid_at(f, x - 1));
        fpos_mono(f, x - 1, x - 1);
    }
}

// the factors of a factorization are valid, and they stand for the text
pub proof fn lz_decodes(s: Seq<int>, f: Factors)
    requires is_lz77(s, f), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 256,
    ensures lz_valid(f), lz_text(f, s, f.len() as int),
{
    assert forall|x: int| 0 <= x < f.len() implies #[trigger] lz_valid_at(f, x) by {
        assert(lz_fact_at(s, f, x));
    }
    assert forall|x: int| 0 <= x < f.len() implies #[trigger] lz_match(f, s, x) by {
        assert(lz_fact_at(s, f, x));
        let b = fpos(f, x);
        let e = f[x];
        if e.1 != 0 {
            assert forall|d: int| 0 <= d < e.1 implies #[trigger] s[b + d] == s[b + d - e.0] by {
                eqr_at(s, b - e.0, b, e.1, d);
            }
        }
    }
}

// valid factors stand for one text only
pub proof fn lz_text_unique(f: Factors, s: Seq<int>, t: Seq<int>)
    requires lz_valid(f), lz_text(f, s, f.len() as int), lz_text(f, t, f.len() as int),
    ensures s == t,
{
    let n = f.len() as int;
    assert forall|y: int| 0 <= y < s.len() implies s[y] == t[y] by { lz_text_unique_at(f, s, t, y); }
    assert(s =~= t);
}

proof fn lz_factor_of(f: Factors, y: int, x: int) -> (r: int)
    requires 0 <= x <= f.len(), 0 <= y < fpos(f, x),
    ensures 0 <= r < x, fpos(f, r) <= y < fpos(f, r) + flen(f, r),
    decreases x,
{
    if y >= fpos(f, x - 1) { x - 1 } else { lz_factor_of(f, y, x - 1) }
}

proof fn lz_text_unique_at(f: Factors, s: Seq<int>, t: Seq<int>, y: int)
    requires lz_valid(f), lz_text(f, s, f.len() as int), lz_text(f, t, f.len() as int), 0 <= y < s.len(),
    ensures s[y] == t[y],
    decreases y,
{
    let x = lz_factor_of(f, y, f.len() as int);
    assert(lz_valid_at(f, x) && lz_match(f, s, x) && lz_match(f, t, x));
    if f[x].1 != 0 {
        let d = y - fpos(f, x);
        assert(s[fpos(f, x) + d] == s[fpos(f, x) + d - f[x].0]);
        assert(t[fpos(f, x) + d] == t[fpos(f, x) + d - f[x].0]);
        lz_text_unique_at(f, s, t, y - f[x].0);
    }
}

// more characters do not change what the factors before stand for
pub proof fn lz_match_more(f: Factors, s: Seq<int>, t: Seq<int>, k: int)
    requires
        lz_valid(f), lz_text(f, s, k), 0 <= k <= f.len(), s.len() <= t.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[i],
    ensures
        forall|x: int| 0 <= x < k ==> #[trigger] lz_match(f, t, x),
{
    assert forall|x: int| 0 <= x < k implies #[trigger] lz_match(f, t, x) by {
        assert(lz_match(f, s, x) && lz_valid_at(f, x));
        fpos_mono(f, x + 1, k);
        fpos_mono(f, 0, x);
        let b = fpos(f, x);
        assert(fpos(f, x + 1) == b + flen(f, x));
        if f[x].1 == 0 {
            assert(s[b] == t[b]);
        } else {
            assert forall|d: int| 0 <= d < f[x].1 implies #[trigger] t[b + d] == t[b + d - f[x].0] by {
                assert(s[b + d] == s[b + d - f[x].0]);
                assert(s[b + d] == t[b + d] && s[b + d - f[x].0] == t[b + d - f[x].0]);
            }
        }
    }
}

// the positions of the factors, hence their number, are determined by the text
pub proof fn lz77_unique(s: Seq<int>, f: Factors, g: Factors)
    requires is_lz77(s, f), is_lz77(s, g),
    ensures f.len() == g.len(), forall|x: int| 0 <= x < f.len() ==> #[trigger] fpos(f, x) == fpos(g, x) && f[x].1 == g[x].1,
{
    let n = s.len() as int;
    let m = if f.len() < g.len() { f.len() as int } else { g.len() as int };
    assert forall|x: int| 0 <= x <= m implies #[trigger] fpos(f, x) == fpos(g, x) && (x < m ==> f[x].1 == g[x].1) by {
        lz77_unique_at(s, f, g, x);
    }
    if f.len() < g.len() {
        assert(lz_fact_at(s, g, m));
        assert(fpos(f, m) == fpos(g, m));
    } else if g.len() < f.len() {
        assert(lz_fact_at(s, f, m));
        assert(fpos(f, m) == fpos(g, m));
    }
}

proof fn lz77_unique_at(s: Seq<int>, f: Factors, g: Factors, x: int)
    requires is_lz77(s, f), is_lz77(s, g), 0 <= x <= f.len(), x <= g.len(),
    ensures fpos(f, x) == fpos(g, x), x < f.len() && x < g.len() ==> f[x].1 == g[x].1,
    decreases x,
{
    if x > 0 { lz77_unique_at(s, f, g, x - 1); }
    if x < f.len() && x < g.len() {
        assert(lz_fact_at(s, f, x) && lz_fact_at(s, g, x));
        lz_len(s, fpos(f, x), f[x], g[x]);
        lz_len(s, fpos(f, x), g[x], f[x]);
    }
}

proof fn lz_len(s: Seq<int>, i: int, e: (int, int), d: (int, int))
    requires lz_at(s, i, e), lz_at(s, i, d), 0 <= i < s.len(),
    ensures e.1 <= d.1,
{
    let n = s.len() as int;
    if e.1 > 0 {
        let j = i - e.0;
        lce_props(s, j, n, i, n);
        let l = lce2(s, j, i);
        if l < e.1 { eqr_at(s, j, i, e.1, l); }
        if d.1 == 0 { eqr_at(s, j, i, e.1, 0); assert(s[j] != s[i]); }
    }
}

} // verus!
