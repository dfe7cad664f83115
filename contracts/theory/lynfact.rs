//@ needs lyndon
verus! {

// two different suffixes are comparable
pub proof fn suf_total(s: Seq<int>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), a != b,
    ensures suf_lt(s, a, b) || suf_lt(s, b, a),
{
    lt_total(s, a, s.len() as int, b, s.len() as int);
}

pub proof fn suf_trans(s: Seq<int>, a: int, b: int, c: int)
    requires suf_lt(s, a, b), suf_lt(s, b, c),
    ensures suf_lt(s, a, c),
{
    let n = s.len() as int;
    lt_trans(s, a, n, b, n, c, n);
}

pub proof fn suf_asym(s: Seq<int>, a: int, b: int)
    requires suf_lt(s, a, b),
    ensures !suf_lt(s, b, a), a != b,
{
    let n = s.len() as int;
    lt_asym(s, a, n, b, n);
}

// A >= B and B >= C imply A >= C
pub proof fn nlt_trans(s: Seq<int>, a: int, b: int, c: int, d: int, e: int, f: int)
    requires a <= b, c <= d, e <= f, !lt_sub(s, a, b, c, d), !lt_sub(s, c, d, e, f),
    ensures !lt_sub(s, a, b, e, f),
{
    if lt_sub(s, a, b, e, f) {
        lt_total(s, a, b, c, d);
        if lt_sub(s, c, d, a, b) {
            lt_trans(s, c, d, a, b, e, f);
        } else {
            let q = choose|q: int| #[trigger] lt_at(s, a, b, e, f, q);
            assert(lt_at(s, a, b, e, f, q));
            eqr_sym(s, a, c, b - a);
            assert(eqr(s, c, a, q));
            eqr_trans(s, c, a, e, q);
            if a + q < b { eqr_at(s, a, c, b - a, q); }
            assert(lt_at(s, c, d, e, f, q));
        }
    }
}

pub proof fn fact_chain(s: Seq<int>, ends: Seq<usize>, k: int, x: int, y: int)
    requires lyn_prefix(s, ends, k), 0 <= x < y < ends.len(),
    ensures
        !lt_sub(s, fstart(ends, x), ends[x] + 1, fstart(ends, y), ends[y] + 1),
        ends[x] + 1 <= fstart(ends, y),
    decreases y - x,
{
    assert(factor_ok(s, ends, k, x) && factor_ok(s, ends, k, y) && factor_ok(s, ends, k, y - 1));
    assert(factor_ge(s, ends, y - 1));
    assert(fstart(ends, y) == ends[y - 1] + 1);
    if x < y - 1 {
        fact_chain(s, ends, k, x, y - 1);
        nlt_trans(s, fstart(ends, x), ends[x] + 1, fstart(ends, y - 1), ends[y - 1] + 1, fstart(ends, y), ends[y] + 1);
    } else {
        assert(fstart(ends, y) == ends[y - 1] + 1);
    }
}

// the factor that contains position z
pub proof fn fact_at(s: Seq<int>, ends: Seq<usize>, k: int, z: int, m: int) -> (y: int)
    requires lyn_prefix(s, ends, k), 0 <= z, 0 < m <= ends.len(), z <= ends[m - 1],
    ensures 0 <= y < m, fstart(ends, y) <= z <= ends[y],
    decreases m,
{
    if z >= fstart(ends, m - 1) {
        m - 1
    } else {
        assert(m > 1);
        fact_at(s, ends, k, z, m - 1)
    }
}

// a factor of a Lyndon factorization is the longest Lyndon word starting there
pub proof fn fact_longest(s: Seq<int>, ends: Seq<usize>, x: int, c: int)
    requires lyn_fact(s, ends), 0 <= x < ends.len(), ends[x] + 1 < c <= s.len(),
    ensures !lyn(s, fstart(ends, x), c),
{
    let n = s.len() as int;
    let a = fstart(ends, x);
    let b = ends[x] + 1;
    if lyn(s, a, c) {
        assert(factor_ok(s, ends, n, x));
        let y = fact_at(s, ends, n, c - 1, ends.len() as int);
        assert(factor_ok(s, ends, n, y));
        if y < x { fact_chain(s, ends, n, y, x); assert(false); }
        assert(y > x);
        fact_chain(s, ends, n, x, y);
        let v = fstart(ends, y);
        let e = ends[y] + 1;
        assert(a < v < c);
        assert(lynw(s, a, v, c));
        let q = choose|q: int| #[trigger] lynw_at(s, a, v, c, q);
        assert(lynw_at(s, a, v, c, q));
        if q < b - a {
            assert(lt_at(s, a, b, v, e, q));
        } else {
            assert(eqr(s, a, v, b - a));
            assert(lt_at(s, a, b, v, e, b - a));
        }
    }
}

// from a position to the next position with a smaller suffix: a Lyndon word
pub proof fn min_lyn(s: Seq<int>, a: int, c: int)
    requires
        0 <= a < c <= s.len(),
        forall|p: int| a < p < c ==> #[trigger] suf_lt(s, a, p),
        c == s.len() || suf_lt(s, c, a),
    ensures lyn(s, a, c),
{
    let n = s.len() as int;
    assert forall|p: int| a < p < c implies #[trigger] lynw(s, a, p, c) by {
        assert(suf_lt(s, a, p));
        let q = choose|q: int| #[trigger] lt_at(s, a, n, p, n, q);
        assert(lt_at(s, a, n, p, n, q));
        if p + q < c {
            assert(lynw_at(s, a, p, c, q));
        } else {
            let t = c - p;
            assert(suf_lt(s, a, a + t));
            assert(eqr(s, a + t, c, q - t)) by {
                assert forall|x: int| a + t <= x < a + t + (q - t) implies #[trigger] s[x] == s[x - (a + t) + c] by {
                    eqr_at(s, a, p, q, x - a);
                    assert(a + (x - a) == x && p + (x - a) == x - (a + t) + c);
                }
            }
            assert(a + t + (q - t) == a + q && c + (q - t) == p + q);
            assert(lt_at(s, a + t, n, c, n, q - t));
            assert(suf_lt(s, a + t, c));
            suf_trans(s, a, a + t, c);
            suf_asym(s, a, c);
        }
    }
}

// the position of the smallest suffix among those starting at 0..=r
pub proof fn min_suf(s: Seq<int>, r: int) -> (m: int)
    requires 0 <= r < s.len(),
    ensures
        0 <= m <= r,
        forall|p: int| 0 <= p <= r && p != m ==> #[trigger] suf_lt(s, m, p),
    decreases r,
{
    if r == 0 {
        0
    } else {
        let m = min_suf(s, r - 1);
        suf_total(s, m, r);
        if suf_lt(s, m, r) {
            m
        } else {
            assert forall|p: int| 0 <= p <= r && p != r implies #[trigger] suf_lt(s, r, p) by {
                if p != m {
                    assert(suf_lt(s, m, p));
                    suf_trans(s, r, m, p);
                }
            }
            r
        }
    }
}

// the first position behind b with a suffix smaller than the one at a
pub proof fn next_smaller_suf(s: Seq<int>, a: int, b: int) -> (c: int)
    requires
        0 <= a < b <= s.len(),
        forall|p: int| a < p < b ==> #[trigger] suf_lt(s, a, p),
    ensures
        b <= c <= s.len(),
        forall|p: int| a < p < c ==> #[trigger] suf_lt(s, a, p),
        c == s.len() || suf_lt(s, c, a),
    decreases s.len() - b,
{
    if b == s.len() {
        b
    } else {
        suf_total(s, a, b);
        if suf_lt(s, b, a) {
            b
        } else {
            next_smaller_suf(s, a, b + 1)
        }
    }
}

// the suffix at the start of a factor is smaller than all earlier suffixes
pub proof fn fact_suffix_min(s: Seq<int>, ends: Seq<usize>, x: int, p: int)
    requires lyn_fact(s, ends), 0 <= x < ends.len(), 0 <= p < fstart(ends, x),
    ensures suf_lt(s, fstart(ends, x), p),
{
    let n = s.len() as int;
    let r = fstart(ends, x);
    assert(factor_ok(s, ends, n, x));
    let m = min_suf(s, r);
    if m != r {
        let y = fact_at(s, ends, n, m, x);
        assert(factor_ok(s, ends, n, y));
        fact_chain(s, ends, n, y, x);
        let a = fstart(ends, y);
        let b = ends[y] + 1;
        if m > a {
            assert(lynw(s, a, m, b));
            let q = choose|q: int| #[trigger] lynw_at(s, a, m, b, q);
            assert(lynw_at(s, a, m, b, q));
            assert(lt_at(s, a, n, m, n, q));
            assert(suf_lt(s, a, m));
            assert(suf_lt(s, m, a));
            suf_asym(s, a, m);
        }
        assert(m == a);
        assert(suf_lt(s, a, b));
        let c = next_smaller_suf(s, a, b + 1);
        min_lyn(s, a, c);
        fact_longest(s, ends, y, c);
    }
}

// the Lyndon factorization is unique
pub proof fn fact_unique(s: Seq<int>, e: Seq<usize>, f: Seq<usize>)
    requires lyn_fact(s, e), lyn_fact(s, f),
    ensures e == f,
{
    let m = if e.len() < f.len() { e.len() as int } else { f.len() as int };
    fact_unique_rec(s, e, f, m);
    if e.len() < f.len() {
        if m > 0 {
            assert(e[m - 1] == f[m - 1]);
            assert(fstart(f, m) == s.len());
        }
        assert(factor_ok(s, f, s.len() as int, m));
        assert(false);
    }
    if f.len() < e.len() {
        if m > 0 {
            assert(e[m - 1] == f[m - 1]);
            assert(fstart(e, m) == s.len());
        }
        assert(factor_ok(s, e, s.len() as int, m));
        assert(false);
    }
    assert(e =~= f);
}

proof fn fact_unique_rec(s: Seq<int>, e: Seq<usize>, f: Seq<usize>, m: int)
    requires lyn_fact(s, e), lyn_fact(s, f), 0 <= m <= e.len(), m <= f.len(),
    ensures forall|x: int| 0 <= x < m ==> #[trigger] e[x] == f[x],
    decreases m,
{
    if m > 0 {
        fact_unique_rec(s, e, f, m - 1);
        let x = m - 1;
        assert(fstart(e, x) == fstart(f, x));
        assert(factor_ok(s, e, s.len() as int, x) && factor_ok(s, f, s.len() as int, x));
        if e[x] < f[x] {
            fact_longest(s, e, x, f[x] + 1);
        } else if f[x] < e[x] {
            fact_longest(s, f, x, e[x] + 1);
        }
    }
}

// isa orders the positions like the suffixes
pub open spec fn is_isa(s: Seq<int>, isa: Seq<i32>) -> bool {
    &&& isa.len() == s.len()
    &&& forall|a: int, b: int| #![trigger isa[a], isa[b]] 0 <= a < s.len() && 0 <= b < s.len() ==> (isa[a] < isa[b] <==> suf_lt(s, a, b))
}

// block x starts at a, ends before k, has its smallest entry at a, and a smaller one follows
pub open spec fn isa_block(isa: Seq<i32>, ends: Seq<usize>, k: int, x: int) -> bool {
    &&& fstart(ends, x) <= ends[x] < k
    &&& forall|p: int| fstart(ends, x) < p <= ends[x] ==> #[trigger] isa[p] >= isa[fstart(ends, x)]
    &&& ends[x] + 1 < isa.len() ==> isa[ends[x] + 1] < isa[fstart(ends, x)]
}

// ends are the ends of the blocks that start at the prefix minima of isa, for the blocks before k
pub open spec fn isa_prefix(isa: Seq<i32>, ends: Seq<usize>, k: int) -> bool {
    &&& (ends.len() == 0 ==> k == 0)
    &&& (ends.len() > 0 ==> ends[ends.len() - 1] + 1 == k)
    &&& forall|x: int| 0 <= x < ends.len() ==> #[trigger] isa_block(isa, ends, k, x)
}

pub proof fn isa_fact(s: Seq<int>, isa: Seq<i32>, ends: Seq<usize>)
    requires isa_prefix(isa, ends, s.len() as int), is_isa(s, isa),
    ensures lyn_fact(s, ends),
{
    let n = s.len() as int;
    assert forall|x: int| 0 <= x < ends.len() implies #[trigger] factor_ok(s, ends, n, x) by {
        isa_factor(s, isa, ends, x);
    }
    assert forall|x: int| 0 <= x < ends.len() - 1 implies #[trigger] factor_ge(s, ends, x) by {
        isa_factor(s, isa, ends, x);
        isa_factor(s, isa, ends, x + 1);
        let a = fstart(ends, x);
        let b = fstart(ends, x + 1);
        let c = ends[x + 1] + 1;
        assert(isa_block(isa, ends, n, x + 1));
        assert(b == ends[x] + 1);
        assert(suf_lt(s, b, a));
        if lt_sub(s, a, b, b, c) {
            let q = choose|q: int| #[trigger] lt_at(s, a, b, b, c, q);
            assert(lt_at(s, a, b, b, c, q));
            if a + q < b {
                assert(lt_at(s, a, n, b, n, q));
                assert(suf_lt(s, a, b));
                suf_asym(s, a, b);
            } else {
                // the first factor is a proper prefix of the second one
                let d = b + q;
                assert(b < d < c);
                assert(isa[d] >= isa[b]);
                if suf_lt(s, d, b) { assert(isa[d] < isa[b]); }
                suf_total(s, d, b);
                assert(suf_lt(s, b, d));
                let r = choose|r: int| #[trigger] lt_at(s, b, n, d, n, r);
                assert(lt_at(s, b, n, d, n, r));
                assert(eqr(s, a, b, q + r)) by {
                    assert forall|y: int| a <= y < a + (q + r) implies #[trigger] s[y] == s[y - a + b] by {
                        if y < a + q {
                            eqr_at(s, a, b, q, y - a);
                            assert(a + (y - a) == y && b + (y - a) == y - a + b);
                        } else {
                            eqr_at(s, b, d, r, y - b);
                            assert(b + (y - b) == y && d + (y - b) == y - a + b);
                        }
                    }
                }
                assert(a + (q + r) == b + r && b + (q + r) == d + r);
                assert(lt_at(s, a, n, b, n, q + r));
                assert(suf_lt(s, a, b));
                suf_asym(s, a, b);
            }
        }
    }
}

proof fn isa_factor(s: Seq<int>, isa: Seq<i32>, ends: Seq<usize>, x: int)
    requires isa_prefix(isa, ends, s.len() as int), is_isa(s, isa), 0 <= x < ends.len(),
    ensures
        0 <= fstart(ends, x) <= ends[x] < s.len(),
        lyn(s, fstart(ends, x), ends[x] + 1),
        ends[x] + 1 < s.len() ==> suf_lt(s, ends[x] + 1, fstart(ends, x)),
{
    let a = fstart(ends, x);
    let c = ends[x] + 1;
    assert(isa_block(isa, ends, s.len() as int, x));
    if x > 0 { assert(isa_block(isa, ends, s.len() as int, x - 1)); }
    if c < s.len() {
        assert(isa[c] < isa[a]);
    }
    assert forall|p: int| a < p < c implies #[trigger] suf_lt(s, a, p) by {
        assert(isa[p] >= isa[a]);
        suf_total(s, a, p);
        if suf_lt(s, p, a) { assert(isa[p] < isa[a]); }
    }
    min_lyn(s, a, c);
}

} // verus!
verus! {

pub proof fn isa_push(isa: Seq<i32>, ends: Seq<usize>, e: usize)
    requires
        isa_prefix(isa, ends, fstart(ends, ends.len() as int)),
        fstart(ends, ends.len() as int) <= e < isa.len(),
        forall|p: int| fstart(ends, ends.len() as int) < p <= e ==> #[trigger] isa[p] >= isa[fstart(ends, ends.len() as int)],
    ensures
        e + 1 == isa.len() || isa[e + 1] < isa[fstart(ends, ends.len() as int)] ==> isa_prefix(isa, ends.push(e), e + 1),
        fstart(ends.push(e), ends.len() as int + 1) == e + 1,
{
    let f = ends.push(e);
    let k = fstart(ends, ends.len() as int);
    if e + 1 == isa.len() || isa[e + 1] < isa[k] {
        assert forall|x: int| 0 <= x < f.len() implies #[trigger] isa_block(isa, f, e + 1, x) by {
            assert(fstart(f, x) == fstart(ends, x));
            if x < ends.len() {
                assert(isa_block(isa, ends, k, x));
            }
        }
    }
}

} // verus!
