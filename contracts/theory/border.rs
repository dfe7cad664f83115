//@ needs lex
verus! {

// the prefix of s of length i has a proper border of length l
pub open spec fn is_border(s: Seq<int>, i: int, l: int) -> bool {
    0 <= l < i && eqr(s, 0, i - l, l)
}

// l is the length of the longest proper border of the prefix of length i
pub open spec fn longest_border(s: Seq<int>, i: int, l: int) -> bool {
    &&& is_border(s, i, l)
    &&& forall|b: int| #[trigger] is_border(s, i, b) ==> b <= l
}

// b is the border array of s (entry 0 has no meaning)
pub open spec fn is_border_array(s: Seq<int>, b: Seq<usize>) -> bool {
    &&& b.len() == s.len() + 1
    &&& forall|i: int| 1 <= i <= s.len() ==> longest_border(s, i, #[trigger] b[i] as int)
}

// p is the smallest period of s
pub open spec fn smallest_per(s: Seq<int>, p: int) -> bool {
    &&& 1 <= p <= s.len()
    &&& per(s, 0, s.len() as int, p)
    &&& forall|q: int| 1 <= q < p ==> !#[trigger] per(s, 0, s.len() as int, q)
}

// s is not a power u^k with k >= 2
pub open spec fn primitive(s: Seq<int>) -> bool {
    !exists|d: int| #[trigger] per(s, 0, s.len() as int, d) && 1 <= d < s.len() && s.len() as int % d == 0
}

// a border of length l is the same as a period of length i - l
pub proof fn border_per(s: Seq<int>, i: int, l: int)
    requires 0 <= l < i <= s.len(),
    ensures is_border(s, i, l) <==> per(s, 0, i, i - l),
{
    if is_border(s, i, l) {
        assert forall|x: int| i - l <= x < i implies #[trigger] s[x] == s[x - (i - l)] by {
            eqr_at(s, 0, i - l, l, x - (i - l));
        }
    }
    if per(s, 0, i, i - l) {
        assert forall|x: int| 0 <= x < l implies #[trigger] s[x] == s[x - 0 + (i - l)] by {
            let y = x + (i - l);
            assert(s[y] == s[y - (i - l)]);
        }
    }
}

pub proof fn smallest_period_thm(s: Seq<int>, l: int)
    requires s.len() >= 1, longest_border(s, s.len() as int, l),
    ensures smallest_per(s, s.len() - l),
{
    let n = s.len() as int;
    border_per(s, n, l);
    assert forall|q: int| 1 <= q < n - l implies !#[trigger] per(s, 0, n, q) by {
        border_per(s, n, n - q);
        assert(n - (n - q) == q);
        if is_border(s, n, n - q) {}
    }
}

// borders of borders: among the borders of length at most l of the prefix of length i, those
// shorter than l are the borders of the prefix of length l
pub proof fn border_of_border(s: Seq<int>, i: int, l: int, b: int)
    requires is_border(s, i, l), 0 <= b < l, i <= s.len(),
    ensures is_border(s, l, b) <==> is_border(s, i, b),
{
    if is_border(s, l, b) {
        assert forall|x: int| 0 <= x < b implies #[trigger] s[x] == s[x - 0 + (i - b)] by {
            eqr_at(s, 0, l - b, b, x);
            eqr_at(s, 0, i - l, l, x + l - b);
            assert(l - b + x == 0 + (x + l - b));
        }
    }
    if is_border(s, i, b) {
        assert forall|x: int| 0 <= x < b implies #[trigger] s[x] == s[x - 0 + (l - b)] by {
            eqr_at(s, 0, i - b, b, x);
            eqr_at(s, 0, i - l, l, x + l - b);
            assert(l - b + x == 0 + (x + l - b));
        }
    }
}

// extending a border by one character
pub proof fn border_ext(s: Seq<int>, i: int, l: int)
    requires 0 <= l < i, i < s.len(),
    ensures is_border(s, i + 1, l + 1) <==> is_border(s, i, l) && s[l] == s[i],
{
    if is_border(s, i + 1, l + 1) {
        assert forall|x: int| 0 <= x < l implies #[trigger] s[x] == s[x - 0 + (i - l)] by {
            eqr_at(s, 0, i - l, l + 1, x);
        }
        eqr_at(s, 0, i - l, l + 1, l);
    }
}

pub proof fn per_sub(s: Seq<int>, n: int, p: int, q: int)
    requires 1 <= p < q, p + q <= n, per(s, 0, n, p), per(s, 0, n, q),
    ensures per(s, 0, n, q - p),
{
    assert forall|x: int| q - p <= x < n implies #[trigger] s[x] == s[x - (q - p)] by {
        if x + p < n {
            let y = x + p;
            assert(s[y] == s[y - p]);
            assert(s[y] == s[y - q]);
        } else {
            let y = x - q + p;
            assert(s[y] == s[y - p]);
            assert(s[x] == s[x - q]);
        }
    }
}

// the smallest period divides every period d with p + d <= n
pub proof fn smallest_divides(s: Seq<int>, p: int, d: int)
    requires smallest_per(s, p), p <= d, p + d <= s.len(), per(s, 0, s.len() as int, d),
    ensures d % p == 0,
    decreases d,
{
    if d > p {
        per_sub(s, s.len() as int, p, d);
        assert(d - p >= p);
        smallest_divides(s, p, d - p);
        assert(d % p == (d - p) % p) by (nonlinear_arith) requires p >= 1, d > p {
            vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(d, p);
        }
    } else {
        assert(d % p == 0) by (nonlinear_arith) requires d == p, p >= 1;
    }
}

pub proof fn primitive_thm(s: Seq<int>, p: int)
    requires smallest_per(s, p),
    ensures primitive(s) <==> (p == s.len() || s.len() as int % p != 0),
{
    let n = s.len() as int;
    if p < n && n % p == 0 {
        assert(per(s, 0, n, p));
    }
    if !primitive(s) {
        let d = choose|d: int| #[trigger] per(s, 0, s.len() as int, d) && 1 <= d < s.len() && s.len() as int % d == 0;
        assert(per(s, 0, n, d));
        if d < p { assert(false); }
        assert(d + d <= n) by (nonlinear_arith) requires n % d == 0, 1 <= d < n {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
        }
        smallest_divides(s, p, d);
        assert(n % p == 0) by (nonlinear_arith) requires n % d == 0, d % p == 0, p >= 1, d >= 1 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, p);
            let a = n / d;
            let b = d / p;
            assert(n == p * (b * a));
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(b * a, p);
        }
    }
}

} // verus!
