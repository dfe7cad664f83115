//@ needs bwt lynfact
verus! {

// character t of the infinite repetition of s[a..=e], read from offset x
pub open spec fn om(s: Seq<int>, a: int, e: int, x: int, t: int) -> int {
    s[a + (x + t) % (e - a + 1)]
}

pub open spec fn om_in(n: int, a: int, e: int, x: int) -> bool {
    0 <= a <= e < n && 0 <= x <= e - a
}

// a rotation of a factor: start and end of the factor, offset
pub type Rot = (int, int, int);

pub open spec fn rin(n: int, r: Rot) -> bool {
    om_in(n, r.0, r.1, r.2)
}

pub open spec fn omr(s: Seq<int>, r: Rot, t: int) -> int {
    om(s, r.0, r.1, r.2, t)
}

// omega order: the infinite repetition of u is smaller than that of v, at position q
pub open spec fn olt_at(s: Seq<int>, u: Rot, v: Rot, q: int) -> bool {
    &&& 0 <= q
    &&& forall|t: int| 0 <= t < q ==> #[trigger] omr(s, u, t) == omr(s, v, t)
    &&& omr(s, u, q) < omr(s, v, q)
}

pub open spec fn olt(s: Seq<int>, u: Rot, v: Rot) -> bool {
    exists|q: int| #[trigger] olt_at(s, u, v, q)
}

pub open spec fn ole(s: Seq<int>, u: Rot, v: Rot) -> bool {
    !olt(s, v, u)
}

// first position of a difference
pub proof fn first_diff(s: Seq<int>, u: Rot, v: Rot, q: int) -> (m: int)
    requires 0 <= q, omr(s, u, q) != omr(s, v, q),
    ensures
        0 <= m <= q, omr(s, u, m) != omr(s, v, m),
        forall|t: int| 0 <= t < m ==> #[trigger] omr(s, u, t) == omr(s, v, t),
    decreases q,
{
    if exists|t: int| 0 <= t < q && #[trigger] omr(s, u, t) != omr(s, v, t) {
        let t = choose|t: int| 0 <= t < q && #[trigger] omr(s, u, t) != omr(s, v, t);
        first_diff(s, u, v, t)
    } else {
        q
    }
}

pub proof fn olt_asym(s: Seq<int>, u: Rot, v: Rot)
    requires olt(s, u, v),
    ensures !olt(s, v, u),
{
    let q = choose|q: int| #[trigger] olt_at(s, u, v, q);
    assert(olt_at(s, u, v, q));
    if olt(s, v, u) {
        let p = choose|p: int| #[trigger] olt_at(s, v, u, p);
        assert(olt_at(s, v, u, p));
        if p < q { assert(omr(s, u, p) == omr(s, v, p)); }
        if q < p { assert(omr(s, v, q) == omr(s, u, q)); }
    }
}

pub proof fn ole_trans(s: Seq<int>, u: Rot, v: Rot, w: Rot)
    requires ole(s, u, v), ole(s, v, w),
    ensures ole(s, u, w), olt(s, u, v) || olt(s, v, w) ==> olt(s, u, w),
{
    if olt(s, w, u) {
        let q = choose|q: int| #[trigger] olt_at(s, w, u, q);
        assert(olt_at(s, w, u, q));
        if exists|t: int| 0 <= t <= q && #[trigger] omr(s, u, t) != omr(s, v, t) {
            let t = choose|t: int| 0 <= t <= q && #[trigger] omr(s, u, t) != omr(s, v, t);
            let m = first_diff(s, u, v, t);
            if omr(s, v, m) < omr(s, u, m) {
                assert(olt_at(s, v, u, m));
            }
            assert(omr(s, w, m) <= omr(s, u, m));
            assert forall|t: int| 0 <= t < m implies #[trigger] omr(s, w, t) == omr(s, v, t) by {
                assert(omr(s, u, t) == omr(s, v, t));
            }
            assert(olt_at(s, w, v, m));
        } else {
            assert(omr(s, u, q) == omr(s, v, q));
            assert forall|t: int| 0 <= t < q implies #[trigger] omr(s, w, t) == omr(s, v, t) by {
                assert(omr(s, u, t) == omr(s, v, t));
            }
            assert(olt_at(s, w, v, q));
        }
    }
    if olt(s, u, v) || olt(s, v, w) {
        if olt(s, u, v) && olt(s, v, w) {
            let q = choose|q: int| #[trigger] olt_at(s, u, v, q);
            let p = choose|p: int| #[trigger] olt_at(s, v, w, p);
            assert(olt_at(s, u, v, q) && olt_at(s, v, w, p));
            let m = if q < p { q } else { p };
            assert forall|t: int| 0 <= t < m implies #[trigger] omr(s, u, t) == omr(s, w, t) by {
                assert(omr(s, v, t) == omr(s, w, t));
            }
            if m < q { assert(omr(s, u, m) == omr(s, v, m)); }
            if m < p { assert(omr(s, v, m) == omr(s, w, m)); }
            assert(olt_at(s, u, w, m));
        } else if olt(s, u, v) {
            // v and w agree everywhere
            let q = choose|q: int| #[trigger] olt_at(s, u, v, q);
            assert(olt_at(s, u, v, q));
            assert forall|t: int| 0 <= t implies #[trigger] omr(s, v, t) == omr(s, w, t) by { ole_tie(s, v, w, t); }
            assert forall|t: int| 0 <= t < q implies #[trigger] omr(s, u, t) == omr(s, w, t) by {
                assert(omr(s, v, t) == omr(s, w, t));
            }
            assert(omr(s, v, q) == omr(s, w, q));
            assert(olt_at(s, u, w, q));
        } else {
            let q = choose|q: int| #[trigger] olt_at(s, v, w, q);
            assert(olt_at(s, v, w, q));
            assert forall|t: int| 0 <= t implies #[trigger] omr(s, u, t) == omr(s, v, t) by { ole_tie(s, u, v, t); }
            assert forall|t: int| 0 <= t < q implies #[trigger] omr(s, u, t) == omr(s, w, t) by {
                assert(omr(s, v, t) == omr(s, w, t));
            }
            assert(omr(s, u, q) == omr(s, v, q));
            assert(olt_at(s, u, w, q));
        }
    }
}

// neither is smaller: the infinite repetitions agree
pub proof fn ole_tie(s: Seq<int>, u: Rot, v: Rot, t: int)
    requires !olt(s, u, v), !olt(s, v, u), 0 <= t,
    ensures omr(s, u, t) == omr(s, v, t),
{
    if omr(s, u, t) != omr(s, v, t) {
        let m = first_diff(s, u, v, t);
        if omr(s, u, m) < omr(s, v, m) {
            assert(olt_at(s, u, v, m));
        } else {
            assert forall|t: int| 0 <= t < m implies #[trigger] omr(s, v, t) == omr(s, u, t) by {
                assert(omr(s, u, t) == omr(s, v, t));
            }
            assert(olt_at(s, v, u, m));
        }
    }
}

// the infinite repetition has the period l * k
pub proof fn om_period(s: Seq<int>, n: int, r: Rot, k: int, t: int)
    requires rin(n, r), 0 < k, 0 <= t,
    ensures
        0 <= t % ((r.1 - r.0 + 1) * k) < (r.1 - r.0 + 1) * k,
        omr(s, r, t) == omr(s, r, t % ((r.1 - r.0 + 1) * k)),
{
    let l = r.1 - r.0 + 1;
    assert(l * k > 0) by (nonlinear_arith) requires l > 0, k > 0;
    let p = l * k;
    let d = t / p;
    let m = t % p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, p);
    assert(t == p * d + m);
    assert(p * d == l * (k * d)) by (nonlinear_arith) requires p == l * k;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k * d, r.2 + m, l);
    assert(l * (k * d) + (r.2 + m) == r.2 + t);
}

// two rotations that agree on |u| * |v| characters agree everywhere
pub proof fn om_same(s: Seq<int>, n: int, u: Rot, v: Rot, p: int)
    requires
        rin(n, u), rin(n, v), p == (u.1 - u.0 + 1) * (v.1 - v.0 + 1),
        forall|t: int| 0 <= t < p ==> #[trigger] omr(s, u, t) == omr(s, v, t),
    ensures
        !olt(s, u, v), !olt(s, v, u),
{
    let k = u.1 - u.0 + 1;
    let l = v.1 - v.0 + 1;
    assert(k * l == l * k) by (nonlinear_arith);
    assert forall|t: int| 0 <= t implies #[trigger] omr(s, u, t) == omr(s, v, t) by {
        om_period(s, n, u, l, t);
        om_period(s, n, v, k, t);
        assert(omr(s, u, t % p) == omr(s, v, t % p));
    }
    if olt(s, u, v) {
        let q = choose|q: int| #[trigger] olt_at(s, u, v, q);
        assert(olt_at(s, u, v, q));
        assert(omr(s, u, q) == omr(s, v, q));
    }
    if olt(s, v, u) {
        let q = choose|q: int| #[trigger] olt_at(s, v, u, q);
        assert(olt_at(s, v, u, q));
        assert(omr(s, u, q) == omr(s, v, q));
    }
}

// the position in the text of the last character of a rotation
pub open spec fn rlast(r: Rot) -> int {
    if r.2 == 0 { r.1 } else { r.0 + r.2 - 1 }
}

// rotations that agree everywhere have the same last character
pub proof fn om_last(s: Seq<int>, n: int, u: Rot, v: Rot)
    requires rin(n, u), rin(n, v), !olt(s, u, v), !olt(s, v, u),
    ensures s[rlast(u)] == s[rlast(v)],
{
    let k = u.1 - u.0 + 1;
    let l = v.1 - v.0 + 1;
    assert(k * l == l * k) by (nonlinear_arith);
    assert(k * l >= 1) by (nonlinear_arith) requires k >= 1, l >= 1;
    ole_tie(s, u, v, k * l - 1);
    last_at(s, n, u, l);
    last_at(s, n, v, k);
}

proof fn last_at(s: Seq<int>, n: int, r: Rot, m: int)
    requires rin(n, r), 0 < m,
    ensures omr(s, r, (r.1 - r.0 + 1) * m - 1) == s[rlast(r)],
{
    let l = r.1 - r.0 + 1;
    if r.2 == 0 {
        assert(l * m - 1 == l * (m - 1) + (l - 1)) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(m - 1, l - 1, l);
        vstd::arithmetic::div_mod::lemma_small_mod((l - 1) as nat, l as nat);
    } else {
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(m, r.2 - 1, l);
        vstd::arithmetic::div_mod::lemma_small_mod((r.2 - 1) as nat, l as nat);
    }
}

// r is a rotation of a factor
pub open spec fn of_fact(ends: Seq<usize>, r: Rot, f: int) -> bool {
    0 <= f < ends.len() && r.0 == fstart(ends, f) && r.1 == ends[f] && 0 <= r.2 <= r.1 - r.0
}

pub open spec fn in_fact(ends: Seq<usize>, r: Rot) -> bool {
    exists|f: int| #[trigger] of_fact(ends, r, f)
}

pub open spec fn rpos(rs: Seq<Rot>) -> Seq<int> {
    Seq::new(rs.len(), |i: int| rs[i].0 + rs[i].2)
}

// rs lists every rotation of every factor once (one for each position of the text), in omega order
pub open spec fn om_list(s: Seq<int>, ends: Seq<usize>, rs: Seq<Rot>) -> bool {
    &&& rs.len() == s.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> in_fact(ends, #[trigger] rs[i])
    &&& is_perm(rpos(rs))
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> ole(s, #[trigger] rs[i], #[trigger] rs[j])
}

// b is the bijective BWT of t
pub open spec fn is_bbwt<C>(t: Seq<C>, rs: Seq<Rot>, b: Seq<C>) -> bool {
    &&& b.len() == t.len()
    &&& rs.len() == t.len()
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == t[rlast(rs[i])]
}

pub proof fn fact_in(s: Seq<int>, ends: Seq<usize>, r: Rot, f: int)
    requires lyn_fact(s, ends), of_fact(ends, r, f),
    ensures rin(s.len() as int, r),
{
    assert(factor_ok(s, ends, s.len() as int, f));
    if f > 0 { assert(factor_ok(s, ends, s.len() as int, f - 1)); }
}

pub proof fn list_in(s: Seq<int>, ends: Seq<usize>, rs: Seq<Rot>, i: int)
    requires lyn_fact(s, ends), om_list(s, ends, rs), 0 <= i < rs.len(),
    ensures rin(s.len() as int, rs[i]),
{
    let f = choose|f: int| #[trigger] of_fact(ends, rs[i], f);
    fact_in(s, ends, rs[i], f);
}

proof fn ends_mono(s: Seq<int>, ends: Seq<usize>, f: int, g: int)
    requires lyn_fact(s, ends), 0 <= f < g < ends.len(),
    ensures ends[f] < fstart(ends, g), ends[f] < ends[g],
    decreases g,
{
    assert(factor_ok(s, ends, s.len() as int, g));
    if f < g - 1 { ends_mono(s, ends, f, g - 1); }
}

// a position lies in one factor
proof fn fact_same(s: Seq<int>, ends: Seq<usize>, f: int, g: int, p: int)
    requires
        lyn_fact(s, ends), 0 <= f < ends.len(), 0 <= g < ends.len(),
        fstart(ends, f) <= p <= ends[f], fstart(ends, g) <= p <= ends[g],
    ensures f == g,
{
    if f < g { ends_mono(s, ends, f, g); }
    if g < f { ends_mono(s, ends, g, f); }
}

// the last characters are taken from pairwise distinct positions
proof fn last_perm(s: Seq<int>, ends: Seq<usize>, rs: Seq<Rot>)
    requires lyn_fact(s, ends), om_list(s, ends, rs),
    ensures is_perm(Seq::new(rs.len(), |i: int| rlast(rs[i]))),
{
    let n = s.len() as int;
    let p = Seq::new(rs.len(), |i: int| rlast(rs[i]));
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < p.len() by {
        list_in(s, ends, rs, i);
    }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies #[trigger] p[i] != #[trigger] p[j] by {
        let f = choose|f: int| #[trigger] of_fact(ends, rs[i], f);
        let g = choose|f: int| #[trigger] of_fact(ends, rs[j], f);
        if p[i] == p[j] {
            list_in(s, ends, rs, i);
            list_in(s, ends, rs, j);
            fact_same(s, ends, f, g, p[i]);
            assert(rpos(rs)[i] != rpos(rs)[j]);
        }
    }
}

// the bijective BWT is a rearrangement of the text
pub proof fn bbwt_perm<C>(t: Seq<C>, s: Seq<int>, ends: Seq<usize>, rs: Seq<Rot>, b: Seq<C>)
    requires lyn_fact(s, ends), om_list(s, ends, rs), is_bbwt(t, rs, b), s.len() == t.len(),
    ensures b.to_multiset() == t.to_multiset(),
{
    let p = Seq::new(rs.len(), |i: int| rlast(rs[i]));
    last_perm(s, ends, rs);
    perm_multiset(t, p);
    assert(img(t, p) =~= b);
}

// the text determines its bijective BWT: two lists agree in the last characters
pub proof fn bbwt_unique(s: Seq<int>, e1: Seq<usize>, r1: Seq<Rot>, e2: Seq<usize>, r2: Seq<Rot>, i: int)
    requires
        lyn_fact(s, e1), lyn_fact(s, e2), om_list(s, e1, r1), om_list(s, e2, r2), 0 <= i < s.len(),
    ensures s[rlast(r1[i])] == s[rlast(r2[i])],
{
    let n = s.len() as int;
    fact_unique(s, e1, e2);
    list_in(s, e1, r1, i);
    list_in(s, e2, r2, i);
    if olt(s, r1[i], r2[i]) { bbwt_pigeon(s, e1, r1, r2, i); }
    if olt(s, r2[i], r1[i]) { bbwt_pigeon(s, e1, r2, r1, i); }
    om_last(s, n, r1[i], r2[i]);
}

proof fn bbwt_pigeon(s: Seq<int>, ends: Seq<usize>, p: Seq<Rot>, q: Seq<Rot>, i: int)
    requires lyn_fact(s, ends), om_list(s, ends, p), om_list(s, ends, q), 0 <= i < s.len(), olt(s, p[i], q[i]),
    ensures false,
{
    let a = inj_set(rpos(p), i + 1);
    let b = inj_set(rpos(q), i);
    assert forall|x: int| #[trigger] a.contains(x) implies b.contains(x) by {
        let j = choose|j: int| 0 <= j < i + 1 && rpos(p)[j] == x;
        let k = perm_at(rpos(q), x);
        let f = choose|f: int| #[trigger] of_fact(ends, p[j], f);
        let g = choose|f: int| #[trigger] of_fact(ends, q[k], f);
        list_in(s, ends, p, j);
        list_in(s, ends, q, k);
        fact_same(s, ends, f, g, x);
        assert(p[j] == q[k]);
        olt_asym(s, p[i], q[i]);
        if j < i {
            assert(ole(s, p[j], p[i]));
            ole_trans(s, p[j], p[i], q[i]);
        }
        assert(olt(s, p[j], q[i]));
        if k >= i {
            if k > i {
                assert(ole(s, q[i], q[k]));
            } else {
                olt_asym(s, q[k], q[k]);
            }
        }
        assert(0 <= k < i && rpos(q)[k] == x);
    }
    vstd::set_lib::lemma_len_subset(a, b);
}

// a rearrangement of elements that carry the numbers 0..n carries a permutation
pub proof fn numbered_perm<T>(v: Seq<T>, w: Seq<T>, f: spec_fn(T) -> int)
    requires
        w.to_multiset() == v.to_multiset(), w.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> f(#[trigger] v[i]) == i,
    ensures
        is_perm(Seq::new(w.len(), |i: int| f(w[i]))),
        forall|i: int| 0 <= i < w.len() ==> v.contains(#[trigger] w[i]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let n = v.len() as int;
    let u = Seq::new(w.len(), |i: int| f(w[i]));
    assert forall|i: int| 0 <= i < n implies v.contains(#[trigger] w[i]) && 0 <= u[i] < n by {
        assert(w.to_multiset().contains(w[i]));
        assert(v.contains(w[i]));
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies v[i] != v[j] by {
        assert(f(v[i]) == i && f(v[j]) == j);
    }
    assert(v.no_duplicates());
    v.lemma_multiset_has_no_duplicates();
    w.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies #[trigger] u[i] != #[trigger] u[j] by {
        assert(w[i] != w[j]);
        let a = choose|a: int| 0 <= a < n && v[a] == w[i];
        let c = choose|c: int| 0 <= c < n && v[c] == w[j];
    }
}

} // verus!
