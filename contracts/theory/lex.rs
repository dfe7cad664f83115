verus! {

// s[a..a+q) == s[c..c+q)
pub open spec fn eqr(s: Seq<int>, a: int, c: int, q: int) -> bool {
    forall|x: int| a <= x < a + q ==> #[trigger] s[x] == s[x - a + c]
}

// s[k..j) has period p
pub open spec fn per(s: Seq<int>, k: int, j: int, p: int) -> bool {
    forall|x: int| k + p <= x < j ==> #[trigger] s[x] == s[x - p]
}

// s[a..b) and s[c..d) agree on their first q characters, and the first is smaller there
pub open spec fn lt_at(s: Seq<int>, a: int, b: int, c: int, d: int, q: int) -> bool {
    &&& 0 <= q && a + q <= b && c + q < d
    &&& eqr(s, a, c, q)
    &&& (a + q == b || s[a + q] < s[c + q])
}

// s[a..b) is lexicographically strictly smaller than s[c..d)
pub open spec fn lt_sub(s: Seq<int>, a: int, b: int, c: int, d: int) -> bool {
    exists|q: int| #[trigger] lt_at(s, a, b, c, d, q)
}

// the suffix at a is smaller than the suffix at c
pub open spec fn suf_lt(s: Seq<int>, a: int, c: int) -> bool {
    lt_sub(s, a, s.len() as int, c, s.len() as int)
}

pub proof fn eqr_at(s: Seq<int>, a: int, c: int, q: int, t: int)
    requires eqr(s, a, c, q), 0 <= t < q,
    ensures s[a + t] == s[c + t],
{
    let x = a + t;
    assert(s[x] == s[x - a + c]);
    assert(x - a + c == c + t);
}

pub proof fn eqr_sym(s: Seq<int>, a: int, c: int, q: int)
    requires eqr(s, a, c, q),
    ensures eqr(s, c, a, q),
{
    assert forall|x: int| c <= x < c + q implies #[trigger] s[x] == s[x - c + a] by {
        eqr_at(s, a, c, q, x - c);
        assert(a + (x - c) == x - c + a);
    }
}

pub proof fn eqr_trans(s: Seq<int>, a: int, b: int, c: int, q: int)
    requires eqr(s, a, b, q), eqr(s, b, c, q),
    ensures eqr(s, a, c, q),
{
    assert forall|x: int| a <= x < a + q implies #[trigger] s[x] == s[x - a + c] by {
        eqr_at(s, a, b, q, x - a);
        eqr_at(s, b, c, q, x - a);
        assert(a + (x - a) == x && c + (x - a) == x - a + c);
    }
}

// length of the longest common prefix of s[a..b) and s[c..d)
pub open spec fn lce(s: Seq<int>, a: int, b: int, c: int, d: int) -> int
    decreases b - a,
{
    if a < b && c < d && s[a] == s[c] {
        1 + lce(s, a + 1, b, c + 1, d)
    } else {
        0
    }
}

pub proof fn lce_props(s: Seq<int>, a: int, b: int, c: int, d: int)
    requires a <= b, c <= d,
    ensures
        0 <= lce(s, a, b, c, d) <= b - a,
        lce(s, a, b, c, d) <= d - c,
        eqr(s, a, c, lce(s, a, b, c, d)),
        a + lce(s, a, b, c, d) < b && c + lce(s, a, b, c, d) < d ==> s[a + lce(s, a, b, c, d)] != s[c + lce(s, a, b, c, d)],
    decreases b - a,
{
    if a < b && c < d && s[a] == s[c] {
        lce_props(s, a + 1, b, c + 1, d);
        let q = lce(s, a + 1, b, c + 1, d);
        assert forall|x: int| a <= x < a + q + 1 implies #[trigger] s[x] == s[x - a + c] by {
            if x > a {
                eqr_at(s, a + 1, c + 1, q, x - a - 1);
                assert(a + 1 + (x - a - 1) == x && c + 1 + (x - a - 1) == x - a + c);
            } else {
                assert(x - a + c == c);
            }
        }
        assert(a + 1 + q == a + (q + 1) && c + 1 + q == c + (q + 1));
    }
}

// exactly one of <, =, > holds
pub proof fn lt_total(s: Seq<int>, a: int, b: int, c: int, d: int)
    requires a <= b, c <= d,
    ensures
        lt_sub(s, a, b, c, d) || lt_sub(s, c, d, a, b) || (b - a == d - c && eqr(s, a, c, b - a)),
{
    lce_props(s, a, b, c, d);
    let q = lce(s, a, b, c, d);
    eqr_sym(s, a, c, q);
    if a + q == b && c + q == d {
    } else if a + q == b {
        assert(lt_at(s, a, b, c, d, q));
    } else if c + q == d {
        assert(lt_at(s, c, d, a, b, q));
    } else if s[a + q] < s[c + q] {
        assert(lt_at(s, a, b, c, d, q));
    } else {
        assert(lt_at(s, c, d, a, b, q));
    }
}

pub proof fn lt_asym(s: Seq<int>, a: int, b: int, c: int, d: int)
    requires lt_sub(s, a, b, c, d),
    ensures !lt_sub(s, c, d, a, b),
{
    if lt_sub(s, c, d, a, b) {
        let q = choose|q: int| #[trigger] lt_at(s, a, b, c, d, q);
        let r = choose|r: int| #[trigger] lt_at(s, c, d, a, b, r);
        assert(lt_at(s, a, b, c, d, q) && lt_at(s, c, d, a, b, r));
        if q < r {
            eqr_at(s, c, a, r, q);
        } else if r < q {
            eqr_at(s, a, c, q, r);
        }
    }
}

pub proof fn lt_irrefl(s: Seq<int>, a: int, b: int)
    ensures !lt_sub(s, a, b, a, b),
{
    if lt_sub(s, a, b, a, b) {
        lt_asym(s, a, b, a, b);
    }
}

pub proof fn lt_trans(s: Seq<int>, a: int, b: int, c: int, d: int, e: int, f: int)
    requires lt_sub(s, a, b, c, d), lt_sub(s, c, d, e, f),
    ensures lt_sub(s, a, b, e, f),
{
    let q = choose|q: int| #[trigger] lt_at(s, a, b, c, d, q);
    let r = choose|r: int| #[trigger] lt_at(s, c, d, e, f, r);
    assert(lt_at(s, a, b, c, d, q) && lt_at(s, c, d, e, f, r));
    let m = if q < r { q } else { r };
    assert(eqr(s, a, e, m)) by {
        assert(eqr(s, a, c, m)) ;
        assert(eqr(s, c, e, m)) ;
        eqr_trans(s, a, c, e, m);
    }
    if q < r {
        eqr_at(s, c, e, r, q);
    } else if r < q {
        eqr_at(s, a, c, q, r);
    }
    assert(lt_at(s, a, b, e, f, m));
}

} // verus!
