//@ needs perm
verus! {

// sum of the first m elements
pub open spec fn rsum(a: Seq<real>, m: int) -> real
    decreases m,
{
    if m <= 0 { 0real } else { rsum(a, m - 1) + a[m - 1] }
}

pub proof fn rsum_last(a: Seq<real>, m: int)
    requires m > 0,
    ensures rsum(a, m) == rsum(a, m - 1) + a[m - 1],
{
}

// number of the first m elements that are true
pub open spec fn tot(b: Seq<bool>, m: int) -> int
    decreases m,
{
    if m <= 0 { 0 } else { tot(b, m - 1) + if b[m - 1] { 1int } else { 0 } }
}

// number of occurrences of c among the first m elements
pub open spec fn cnt(w: Seq<int>, c: int, m: int) -> int
    decreases m,
{
    if m <= 0 { 0 } else { cnt(w, c, m - 1) + if w[m - 1] == c { 1int } else { 0 } }
}

// sum of the elements of f in class c
pub open spec fn part(f: Seq<real>, g: Seq<int>, c: int, m: int) -> real
    decreases m,
{
    if m <= 0 { 0real } else { part(f, g, c, m - 1) + if g[m - 1] == c { f[m - 1] } else { 0real } }
}

pub open spec fn parts(f: Seq<real>, g: Seq<int>, m: int, k: int) -> Seq<real> {
    Seq::new(k as nat, |c: int| part(f, g, c, m))
}

pub proof fn rsum_eq(a: Seq<real>, b: Seq<real>, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] a[i] == b[i],
    ensures rsum(a, m) == rsum(b, m),
    decreases m,
{
    if m > 0 { rsum_eq(a, b, m - 1); }
}

pub proof fn rsum_diff(a: Seq<real>, b: Seq<real>, c: Seq<real>, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] a[i] == b[i] - c[i],
    ensures rsum(a, m) == rsum(b, m) - rsum(c, m),
    decreases m,
{
    if m > 0 { rsum_diff(a, b, c, m - 1); }
}

proof fn parts_step(f: Seq<real>, g: Seq<int>, m: int, k: int, x: int)
    requires 0 < m, 0 <= x <= k,
    ensures
        rsum(parts(f, g, m, k), x) == rsum(parts(f, g, m - 1, k), x) + if 0 <= g[m - 1] < x { f[m - 1] } else { 0real },
    decreases x,
{
    if x > 0 {
        parts_step(f, g, m, k, x - 1);
        assert(parts(f, g, m, k)[x - 1] == part(f, g, x - 1, m));
        assert(parts(f, g, m - 1, k)[x - 1] == part(f, g, x - 1, m - 1));
    }
}

// a sum can be taken class by class
pub proof fn grouped(f: Seq<real>, g: Seq<int>, m: int, k: int)
    requires 0 <= k, forall|i: int| 0 <= i < m ==> 0 <= #[trigger] g[i] < k,
    ensures rsum(f, m) == rsum(parts(f, g, m, k), k),
    decreases m,
{
    if m > 0 {
        grouped(f, g, m - 1, k);
        parts_step(f, g, m, k, k);
    } else {
        assert forall|c: int| 0 <= c < k implies #[trigger] parts(f, g, m, k)[c] == 0real by {}
        rsum_zero(parts(f, g, m, k), k);
    }
}

pub proof fn rsum_zero(a: Seq<real>, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] a[i] == 0real,
    ensures rsum(a, m) == 0real,
    decreases m,
{
    if m > 0 { rsum_zero(a, m - 1); }
}

// a class on which f is constant
pub proof fn part_const(f: Seq<real>, g: Seq<int>, c: int, m: int, v: real)
    requires forall|i: int| 0 <= i < m && #[trigger] g[i] == c ==> f[i] == v,
    ensures part(f, g, c, m) == cnt(g, c, m) as real * v,
    decreases m,
{
    if m > 0 {
        part_const(f, g, c, m - 1, v);
        let x = cnt(g, c, m - 1);
        if g[m - 1] == c {
            assert((x + 1) as real * v == x as real * v + v) by (nonlinear_arith);
        }
    } else {
        assert(0int as real * v == 0real) by (nonlinear_arith);
    }
}

pub proof fn cnt_none(g: Seq<int>, c: int, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] g[i] != c,
    ensures cnt(g, c, m) == 0,
    decreases m,
{
    if m > 0 { cnt_none(g, c, m - 1); }
}

// a value at position p, and nowhere else
pub proof fn cnt_one(g: Seq<int>, c: int, m: int, p: int)
    requires 0 <= p < m, g[p] == c, forall|i: int| 0 <= i < m && i != p ==> #[trigger] g[i] != c,
    ensures cnt(g, c, m) == 1,
    decreases m,
{
    if p == m - 1 { cnt_none(g, c, m - 1); } else { cnt_one(g, c, m - 1, p); }
}

// an occurrence makes the count positive
pub proof fn cnt_pos(g: Seq<int>, c: int, m: int)
    ensures
        0 <= cnt(g, c, m), m >= 0 ==> cnt(g, c, m) <= m,
        forall|i: int| 0 <= i < m && #[trigger] g[i] == c ==> cnt(g, c, m) > 0,
    decreases m,
{
    if m > 0 { cnt_pos(g, c, m - 1); }
}

// the order of summation does not matter
pub proof fn rsum_perm(f: Seq<real>, p: Seq<int>, h: Seq<real>)
    requires
        is_perm(p), h.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] h[i] == f[p[i]],
    ensures rsum(h, p.len() as int) == rsum(f, p.len() as int),
{
    let n = p.len() as int;
    grouped(h, p, n, n);
    assert forall|c: int| 0 <= c < n implies #[trigger] parts(h, p, n, n)[c] == f[c] by {
        let x = perm_at(p, c);
        cnt_one(p, c, n, x);
        part_const(h, p, c, n, f[c]);
        assert(1int as real * f[c] == f[c]) by (nonlinear_arith);
    }
    rsum_eq(parts(h, p, n, n), f, n);
}

pub open spec fn inds(b: Seq<bool>) -> Seq<real> {
    Seq::new(b.len(), |i: int| if b[i] { 1real } else { 0real })
}

pub proof fn tot_inds(b: Seq<bool>, m: int)
    requires 0 <= m <= b.len(),
    ensures tot(b, m) as real == rsum(inds(b), m), 0 <= tot(b, m) <= m,
    decreases m,
{
    if m > 0 { tot_inds(b, m - 1); }
}

pub proof fn tot_perm(b: Seq<bool>, p: Seq<int>, c: Seq<bool>)
    requires
        is_perm(p), b.len() == p.len(), c.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] c[i] == b[p[i]],
    ensures tot(c, p.len() as int) == tot(b, p.len() as int),
{
    let n = p.len() as int;
    tot_inds(b, n);
    tot_inds(c, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] inds(c)[i] == inds(b)[p[i]] by {}
    rsum_perm(inds(b), p, inds(c));
}

} // verus!
