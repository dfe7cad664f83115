//@ needs lyndon
verus! {

// the shortest Lyndon word of whose powers s[0..n) is a prefix has length p
pub open spec fn preneck(s: Seq<int>, n: int, p: int) -> bool {
    0 < p <= n && lyn(s, 0, p) && per(s, 0, n, p)
}

// s[0..n) is a pre-necklace, i.e., a prefix of a power of a Lyndon word
pub open spec fn is_preneck(s: Seq<int>, n: int) -> bool {
    exists|p: int| #[trigger] preneck(s, n, p)
}

// w is a necklace: a power of a Lyndon word
pub open spec fn nk(w: Seq<int>) -> bool {
    exists|p: int| #[trigger] preneck(w, w.len() as int, p) && w.len() as int % p == 0
}

pub proof fn per_use(s: Seq<int>, b: int, e: int, p: int, x: int)
    requires per(s, b, e, p), b + p <= x < e,
    ensures s[x] == s[x - p],
{
}

// a Lyndon prefix with the period p cannot be followed by a smaller character
pub proof fn preneck_stop(s: Seq<int>, n: int, j: int, p: int, r: int)
    requires
        0 < p <= j <= n <= s.len(), lyn(s, 0, p), per(s, 0, j, p),
        preneck(s, n, r),
        j < n ==> s[j] < s[j - p],
    ensures
        j == n && r == p,
{
    hide(per);
    if r <= j {
        if p < r {
            assert(lynw(s, 0, p, r));
            let q = choose|q: int| #[trigger] lynw_at(s, 0, p, r, q);
            assert(lynw_at(s, 0, p, r, q));
            let y = p + q;
            per_use(s, 0, j, p, y);
        } else if r < p {
            assert(lynw(s, 0, r, p));
            let q = choose|q: int| #[trigger] lynw_at(s, 0, r, p, q);
            assert(lynw_at(s, 0, r, p, q));
            let y = r + q;
            per_use(s, 0, n, r, y);
        } else if j < n {
            per_use(s, 0, n, p, j);
        }
    } else {
        assert(lynw(s, 0, p, r));
        let q = choose|q: int| #[trigger] lynw_at(s, 0, p, r, q);
        assert(lynw_at(s, 0, p, r, q));
        if p + q < j {
            let y = p + q;
            per_use(s, 0, j, p, y);
        } else if q > j - p {
            eqr_at(s, 0, p, q, j - p);
        } else {
            assert(q == j - p);
        }
    }
}

// the period of a pre-necklace decides whether it is a necklace
pub proof fn nk_period(w: Seq<int>)
    ensures
        !is_preneck(w, w.len() as int) ==> !nk(w),
        forall|p: int| #[trigger] preneck(w, w.len() as int, p) ==> (nk(w) <==> w.len() as int % p == 0),
{
    let n = w.len() as int;
    assert forall|p: int| #[trigger] preneck(w, n, p) implies (nk(w) <==> n % p == 0) by {
        if nk(w) {
            let r = choose|r: int| #[trigger] preneck(w, n, r) && n % r == 0;
            preneck_stop(w, n, n, p, r);
        }
    }
}

// ---- rotations: w read cyclically
pub open spec fn cyc(w: Seq<int>, i: int) -> int {
    w[i % (w.len() as int)]
}

pub open spec fn rot(w: Seq<int>, i: int) -> Seq<int> {
    Seq::new(w.len(), |t: int| cyc(w, i + t))
}

pub proof fn cyc_in(w: Seq<int>, i: int)
    requires 0 <= i < w.len(),
    ensures cyc(w, i) == w[i],
{
    vstd::arithmetic::div_mod::lemma_small_mod(i as nat, w.len());
}

pub proof fn cyc_rot(w: Seq<int>, i: int, t: int)
    requires w.len() > 0, 0 <= i, 0 <= t,
    ensures cyc(rot(w, i), t) == cyc(w, i + t),
{
    let n = w.len() as int;
    vstd::arithmetic::div_mod::lemma_mod_bound(t, n);
    assert(rot(w, i)[t % n] == cyc(w, i + t % n));
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(i, t, n);
}

pub proof fn rot_rot(w: Seq<int>, i: int, j: int)
    requires w.len() > 0, 0 <= i, 0 <= j,
    ensures rot(rot(w, i), j) == rot(w, i + j),
{
    assert forall|t: int| 0 <= t < w.len() implies rot(rot(w, i), j)[t] == rot(w, i + j)[t] by {
        cyc_rot(w, i, j + t);
    }
    assert(rot(rot(w, i), j) =~= rot(w, i + j));
}

pub proof fn rot_at(w: Seq<int>, i: int, t: int)
    requires 0 <= t < w.len(),
    ensures rot(w, i).len() == w.len(), rot(w, i)[t] == cyc(w, i + t),
{
}

pub proof fn rot_zero(w: Seq<int>)
    requires w.len() > 0,
    ensures rot(w, 0) == w, rot(w, w.len() as int) == w,
{
    hide(rot);
    hide(cyc);
    rot_len(w, 0);
    rot_len(w, w.len() as int);
    let n = w.len() as int;
    let a = rot(w, 0);
    let b = rot(w, n);
    assert forall|t: int| 0 <= t < n implies a[t] == #[trigger] w[t] by {
        cyc_in(w, t);
        rot_at(w, 0, t);
    }
    assert(a =~= w);
    assert forall|t: int| 0 <= t < n implies b[t] == #[trigger] w[t] by {
        cyc_in(w, t);
        cyc_add(w, t);
        rot_at(w, n, t);
    }
    assert(b =~= w);
}

proof fn rot_len(w: Seq<int>, i: int)
    ensures rot(w, i).len() == w.len(),
{
}

pub proof fn cyc_add(w: Seq<int>, i: int)
    requires w.len() > 0,
    ensures cyc(w, i + w.len()) == cyc(w, i),
{
    let n = w.len() as int;
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i, n);
    assert(n + i == i + n);
}

// comparison of the infinite repetitions
pub open spec fn clt_at(u: Seq<int>, v: Seq<int>, q: int) -> bool {
    &&& 0 <= q
    &&& forall|t: int| 0 <= t < q ==> #[trigger] cyc(u, t) == cyc(v, t)
    &&& cyc(u, q) < cyc(v, q)
}

pub open spec fn clt(u: Seq<int>, v: Seq<int>) -> bool {
    exists|q: int| #[trigger] clt_at(u, v, q)
}

pub proof fn clt_asym(u: Seq<int>, v: Seq<int>)
    requires clt(u, v),
    ensures !clt(v, u), u != v,
{
    let q = choose|q: int| #[trigger] clt_at(u, v, q);
    if clt(v, u) {
        let r = choose|r: int| #[trigger] clt_at(v, u, r);
        if q < r { assert(cyc(v, q) == cyc(u, q)); }
        if r < q { assert(cyc(u, r) == cyc(v, r)); }
    }
}

pub proof fn clt_trans(u: Seq<int>, v: Seq<int>, w: Seq<int>)
    requires clt(u, v), clt(v, w),
    ensures clt(u, w),
{
    let q = choose|q: int| #[trigger] clt_at(u, v, q);
    let r = choose|r: int| #[trigger] clt_at(v, w, r);
    let m = if q < r { q } else { r };
    assert forall|t: int| 0 <= t < m implies #[trigger] cyc(u, t) == cyc(w, t) by {
        assert(cyc(v, t) == cyc(w, t));
    }
    if q < r { assert(cyc(v, q) == cyc(w, q)); }
    if r < q { assert(cyc(u, r) == cyc(v, r)); }
    assert(clt_at(u, w, m));
}

// the first k characters are equal or there is a first difference
pub proof fn first_diff(u: Seq<int>, v: Seq<int>, k: int) -> (q: int)
    requires 0 <= k,
    ensures
        0 <= q <= k,
        forall|t: int| 0 <= t < q ==> #[trigger] cyc(u, t) == cyc(v, t),
        q < k ==> cyc(u, q) != cyc(v, q),
    decreases k,
{
    if k == 0 {
        0
    } else {
        let q = first_diff(u, v, k - 1);
        if q < k - 1 || cyc(u, k - 1) != cyc(v, k - 1) { q } else { k }
    }
}

pub proof fn clt_total(u: Seq<int>, v: Seq<int>)
    requires u.len() == v.len(), u.len() > 0,
    ensures clt(u, v) || clt(v, u) || u == v,
{
    let n = u.len() as int;
    let q = first_diff(u, v, n);
    if q == n {
        assert forall|t: int| 0 <= t < n implies u[t] == v[t] by {
            cyc_in(u, t);
            cyc_in(v, t);
            assert(cyc(u, t) == cyc(v, t));
        }
        assert(u =~= v);
    } else if cyc(u, q) < cyc(v, q) {
        assert(clt_at(u, v, q));
    } else {
        assert(clt_at(v, u, q));
    }
}

// a smallest rotation among the first k
pub proof fn min_rotation(w: Seq<int>, k: int) -> (r: int)
    requires w.len() > 0, 1 <= k,
    ensures 0 <= r < k, forall|i: int| 0 <= i < k ==> !clt(#[trigger] rot(w, i), rot(w, r)),
    decreases k,
{
    if k == 1 {
        if clt(rot(w, 0), rot(w, 0)) { clt_asym(rot(w, 0), rot(w, 0)); }
        0
    } else {
        let r = min_rotation(w, k - 1);
        if clt(rot(w, k - 1), rot(w, r)) {
            assert forall|i: int| 0 <= i < k implies !clt(#[trigger] rot(w, i), rot(w, k - 1)) by {
                if clt(rot(w, i), rot(w, k - 1)) {
                    clt_trans(rot(w, i), rot(w, k - 1), rot(w, r));
                    if i == k - 1 { clt_asym(rot(w, i), rot(w, i)); }
                }
            }
            k - 1
        } else {
            r
        }
    }
}

pub proof fn mod_pos(i: int, n: int)
    requires n > 0, 0 <= i,
    ensures 0 <= i % n < n, i == n * (i / n) + i % n, 0 <= i / n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(i, n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, n);
}

// rotating by a multiple of a rotation period
pub proof fn rot_mult(w: Seq<int>, p: int, k: int)
    requires w.len() > 0, 0 < p, rot(w, p) == w, 0 <= k,
    ensures rot(w, k * p) == w,
    decreases k,
{
    if k == 0 {
        rot_zero(w);
        assert(k * p == 0) by (nonlinear_arith) requires k == 0;
    } else {
        rot_mult(w, p, k - 1);
        assert((k - 1) * p >= 0) by (nonlinear_arith) requires k >= 1, p > 0;
        rot_rot(w, (k - 1) * p, p);
        assert((k - 1) * p + p == k * p) by (nonlinear_arith);
    }
}

// the smallest rotation period divides the length
pub proof fn rot_period(w: Seq<int>, k: int) -> (p: int)
    requires 1 <= k <= w.len(), rot(w, k) == w, forall|i: int| 0 < i < k ==> #[trigger] rot(w, i) != w,
    ensures p == k, w.len() as int % k == 0,
{
    let n = w.len() as int;
    mod_pos(n, k);
    let d = n / k;
    let r = n % k;
    rot_mult(w, k, d);
    assert(d * k >= 0) by (nonlinear_arith) requires d >= 0, k > 0;
    rot_rot(w, d * k, r);
    assert(d * k + r == n) by { assert(k * d == d * k) by (nonlinear_arith); }
    rot_zero(w);
    if r > 0 {
        assert(rot(w, r) == w);
    }
    k
}

pub proof fn least_rot_period(w: Seq<int>, k: int) -> (p: int)
    requires 1 <= k <= w.len(), forall|i: int| 0 < i < k ==> #[trigger] rot(w, i) != w,
    ensures 1 <= p <= w.len(), rot(w, p) == w, forall|i: int| 0 < i < p ==> #[trigger] rot(w, i) != w,
    decreases w.len() - k,
{
    if rot(w, k) == w {
        k
    } else if k == w.len() {
        rot_zero(w);
        k
    } else {
        least_rot_period(w, k + 1)
    }
}

pub proof fn clt_use(u: Seq<int>, v: Seq<int>, q: int, t: int)
    requires clt_at(u, v, q), 0 <= t < q,
    ensures cyc(u, t) == cyc(v, t),
{
}

pub proof fn cyc_period(w: Seq<int>, p: int, t: int)
    requires w.len() > 0, 0 <= p, 0 <= t, rot(w, p) == w,
    ensures cyc(w, t + p) == cyc(w, t),
{
    cyc_rot(w, p, t);
    assert(p + t == t + p);
}

proof fn min_lynw(w: Seq<int>, p: int, i: int)
    requires
        w.len() > 0, forall|i: int| 0 <= i < w.len() ==> !clt(#[trigger] rot(w, i), w),
        0 < i < p <= w.len(), rot(w, p) == w, rot(w, i) != w,
    ensures
        lynw(w, 0, i, p),
{
    hide(rot);
    hide(cyc);
    let n = w.len() as int;
    let v = rot(w, i);
    assert(v.len() == n) by { reveal(rot); }
    clt_total(w, v);
    assert(!clt(v, w));
    let q = choose|q: int| #[trigger] clt_at(w, v, q);
    assert(clt_at(w, v, q));
    cyc_rot(w, i, q);
    if i + q < p {
        assert(eqr(w, 0, i, q)) by {
            assert forall|x: int| 0 <= x < 0 + q implies #[trigger] w[x] == w[x - 0 + i] by {
                cyc_in(w, x);
                cyc_in(w, x + i);
                clt_use(w, v, q, x);
                cyc_rot(w, i, x);
                assert(x + i == i + x);
            }
        }
        cyc_in(w, q);
        cyc_in(w, i + q);
        assert(lynw_at(w, 0, i, p, q));
    } else {
        // the overlap gives a smaller rotation
        let d = p - i;
        let z = q - d;
        let u = rot(w, d);
        assert forall|t: int| 0 <= t < z implies #[trigger] cyc(u, t) == cyc(w, t) by {
            cyc_rot(w, d, t);
            clt_use(w, v, q, d + t);
            cyc_rot(w, i, d + t);
            assert(i + (d + t) == t + p);
            cyc_period(w, p, t);
        }
        cyc_rot(w, d, z);
        assert(d + z == q);
        assert(i + q == z + p);
        cyc_period(w, p, z);
        assert(clt_at(u, w, z));
        assert(!clt(rot(w, d), w));
    }
}

// a smallest rotation is a necklace
pub proof fn min_is_nk(w: Seq<int>)
    requires w.len() > 0, forall|i: int| 0 <= i < w.len() ==> !clt(#[trigger] rot(w, i), w),
    ensures nk(w),
{
    hide(rot);
    hide(cyc);
    let n = w.len() as int;
    let p = least_rot_period(w, 1);
    let _ = rot_period(w, p);
    assert(per(w, 0, n, p)) by {
        assert forall|x: int| 0 + p <= x < n implies #[trigger] w[x] == w[x - p] by {
            cyc_in(w, x);
            cyc_in(w, x - p);
            cyc_period(w, p, x - p);
        }
    }
    assert forall|i: int| 0 < i < p implies #[trigger] lynw(w, 0, i, p) by {
        assert(rot(w, i) != w);
        min_lynw(w, p, i);
    }
    assert(preneck(w, n, p));
}

// the period extends to the cyclic word
pub proof fn nk_cyc(w: Seq<int>, p: int, t: int)
    requires preneck(w, w.len() as int, p), w.len() as int % p == 0, 0 <= t,
    ensures cyc(w, t) == w[t % p], 0 <= t % p < p,
{
    let n = w.len() as int;
    mod_pos(t, n);
    mod_pos(t, p);
    let r = t % n;
    per_down(w, n, p, r);
    // (t % n) % p == t % p
    let e = n / p;
    mod_pos(n, p);
    assert(n == p * e);
    vstd::arithmetic::div_mod::lemma_mod_mod(t, p, e) ;
}

pub proof fn per_down(w: Seq<int>, n: int, p: int, r: int)
    requires 0 < p, per(w, 0, n, p), 0 <= r < n,
    ensures w[r] == w[r % p],
    decreases r,
{
    if r < p {
        vstd::arithmetic::div_mod::lemma_small_mod(r as nat, p as nat);
    } else {
        assert(w[r] == w[r - p]);
        per_down(w, n, p, r - p);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(r - p, p);
        assert(p + (r - p) == r);
    }
}

// a necklace is not larger than its rotations
pub proof fn nk_min(w: Seq<int>, i: int)
    requires nk(w), w.len() > 0, 0 <= i,
    ensures !clt(rot(w, i), w),
{
    let n = w.len() as int;
    let p = choose|p: int| #[trigger] preneck(w, n, p) && n % p == 0;
    let i0 = i % p;
    mod_pos(i, p);
    assert forall|t: int| 0 <= t implies #[trigger] cyc(rot(w, i), t) == cyc(w, i0 + t) by {
        cyc_rot(w, i, t);
        nk_cyc(w, p, i + t);
        nk_cyc(w, p, i0 + t);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(i, t, p);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(i0, t, p);
        vstd::arithmetic::div_mod::lemma_small_mod(i0 as nat, p as nat);
    }
    if clt(rot(w, i), w) {
        let z = choose|z: int| #[trigger] clt_at(rot(w, i), w, z);
        assert(clt_at(rot(w, i), w, z));
        if i0 == 0 {
            assert(cyc(rot(w, i), z) == cyc(w, 0 + z));
        } else {
            assert(lynw(w, 0, i0, p));
            let q = choose|q: int| #[trigger] lynw_at(w, 0, i0, p, q);
            assert(lynw_at(w, 0, i0, p, q));
            cyc_in(w, i0 + q);
            cyc_in(w, q);
            if z < q {
                eqr_at(w, 0, i0, q, z);
                cyc_in(w, z);
                cyc_in(w, i0 + z);
                assert(cyc(rot(w, i), z) == cyc(w, i0 + z));
            } else {
                assert(cyc(rot(w, i), q) == cyc(w, i0 + q));
                if q < z { assert(cyc(rot(w, i), q) == cyc(w, q)); }
            }
        }
    }
}

// two necklaces that are rotations of each other are equal
pub proof fn nk_unique(w: Seq<int>, i: int)
    requires nk(w), w.len() > 0, 0 <= i <= w.len(), nk(rot(w, i)),
    ensures rot(w, i) == w,
{
    let n = w.len() as int;
    nk_min(w, i);
    nk_min(rot(w, i), n - i);
    rot_rot(w, i, n - i);
    rot_zero(w);
    clt_total(w, rot(w, i));
}

// every word has a rotation that is a necklace
pub proof fn nk_exists(w: Seq<int>) -> (r: int)
    requires w.len() > 0,
    ensures 0 <= r < w.len(), nk(rot(w, r)),
{
    hide(rot);
    hide(nk);
    hide(clt);
    let n = w.len() as int;
    let r = min_rotation(w, n);
    let v = rot(w, r);
    assert(v.len() == n) by { reveal(rot); }
    assert forall|i: int| 0 <= i < v.len() implies !clt(#[trigger] rot(v, i), v) by {
        rot_rot(w, r, i);
        let e = if r + i < n { r + i } else { r + i - n };
        if r + i >= n {
            rot_rot(w, n, e);
            rot_zero(w);
        }
        assert(rot(v, i) == rot(w, e));
    }
    min_is_nk(v);
    r
}

// a necklace that is not unary ends with a larger character than it starts with
pub proof fn nk_last(w: Seq<int>)
    requires nk(w), w.len() > 0,
    ensures
        w[w.len() - 1] > w[0] || forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == w[0],
{
    let n = w.len() as int;
    let p = choose|p: int| #[trigger] preneck(w, n, p) && n % p == 0;
    if p == 1 {
        assert forall|i: int| 0 <= i < n implies #[trigger] w[i] == w[0] by {
            per_down(w, n, 1, i);
        }
    } else {
        assert(lynw(w, 0, p - 1, p));
        let q = choose|q: int| #[trigger] lynw_at(w, 0, p - 1, p, q);
        assert(lynw_at(w, 0, p - 1, p, q));
        per_down(w, n, p, n - 1);
        mod_pos(n, p);
        assert((n - 1) % p == p - 1) by {
            let d = n / p;
            assert(n - 1 == (d - 1) * p + (p - 1)) by (nonlinear_arith) requires n == p * d;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, p, d - 1, p - 1);
        }
    }
}

} // verus!
