//@ needs bwt lynrot
verus! {

// the rotation by a is smaller than the rotation by b
pub open spec fn rot_lt(s: Seq<int>, a: int, b: int) -> bool {
    lt_sub(doubled(s), a, a + s.len(), b, b + s.len())
}

pub open spec fn rot_le(s: Seq<int>, a: int, b: int) -> bool {
    !rot_lt(s, b, a)
}

// p lists all rotations in sorted order
pub open spec fn rot_sorted(s: Seq<int>, p: Seq<int>) -> bool {
    &&& p.len() == s.len()
    &&& is_perm(p)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> rot_le(s, #[trigger] p[i], #[trigger] p[j])
}

pub proof fn rot_cases(s: Seq<int>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(),
    ensures
        rot_lt(s, a, b) || rot_lt(s, b, a) || eqr(doubled(s), a, b, s.len() as int),
        !(rot_lt(s, a, b) && rot_lt(s, b, a)),
        eqr(doubled(s), a, b, s.len() as int) ==> !rot_lt(s, a, b) && !rot_lt(s, b, a),
{
    let n = s.len() as int;
    let d = doubled(s);
    lt_total(d, a, a + n, b, b + n);
    if rot_lt(s, a, b) {
        lt_asym(d, a, a + n, b, b + n);
        let q = choose|q: int| #[trigger] lt_at(d, a, a + n, b, b + n, q);
        assert(lt_at(d, a, a + n, b, b + n, q));
        if eqr(d, a, b, n) { eqr_at(d, a, b, n, q); }
    }
    if rot_lt(s, b, a) {
        let q = choose|q: int| #[trigger] lt_at(d, b, b + n, a, a + n, q);
        assert(lt_at(d, b, b + n, a, a + n, q));
        if eqr(d, a, b, n) { eqr_at(d, a, b, n, q); }
    }
}

// replacing a side by an equal rotation
pub proof fn rot_eq_lt(s: Seq<int>, a: int, b: int, c: int)
    requires
        0 <= a < s.len(), 0 <= b < s.len(), 0 <= c < s.len(), eqr(doubled(s), a, b, s.len() as int),
    ensures
        rot_lt(s, a, c) ==> rot_lt(s, b, c),
        rot_lt(s, c, a) ==> rot_lt(s, c, b),
{
    let n = s.len() as int;
    let d = doubled(s);
    eqr_sym(d, a, b, n);
    if rot_lt(s, a, c) {
        let q = choose|q: int| #[trigger] lt_at(d, a, a + n, c, c + n, q);
        assert(lt_at(d, a, a + n, c, c + n, q));
        eqr_at(d, a, b, n, q);
        eqr_trans(d, b, a, c, q);
        assert(lt_at(d, b, b + n, c, c + n, q));
    }
    if rot_lt(s, c, a) {
        let q = choose|q: int| #[trigger] lt_at(d, c, c + n, a, a + n, q);
        assert(lt_at(d, c, c + n, a, a + n, q));
        eqr_at(d, a, b, n, q);
        eqr_trans(d, c, a, b, q);
        assert(lt_at(d, c, c + n, b, b + n, q));
    }
}

pub proof fn rot_le_trans(s: Seq<int>, a: int, b: int, c: int)
    requires
        0 <= a < s.len(), 0 <= b < s.len(), 0 <= c < s.len(), rot_le(s, a, b), rot_le(s, b, c),
    ensures
        rot_le(s, a, c),
        rot_lt(s, a, b) || rot_lt(s, b, c) ==> rot_lt(s, a, c),
{
    let n = s.len() as int;
    let d = doubled(s);
    rot_cases(s, a, b);
    rot_cases(s, b, c);
    rot_cases(s, a, c);
    if rot_lt(s, a, b) && rot_lt(s, b, c) {
        lt_trans(d, a, a + n, b, b + n, c, c + n);
    } else if rot_lt(s, a, b) {
        rot_eq_lt(s, b, c, a);
    } else if rot_lt(s, b, c) {
        eqr_sym(d, a, b, n);
        rot_eq_lt(s, b, a, c);
    } else {
        eqr_trans(d, a, b, c, n);
    }
}

pub open spec fn rot_dom(n: int) -> spec_fn(usize) -> bool {
    |a: usize| a < n
}

pub open spec fn rot_rel(s: Seq<int>) -> spec_fn(usize, usize) -> bool {
    |a: usize, b: usize| rot_le(s, a as int, b as int)
}

pub proof fn rot_preorder(s: Seq<int>)
    ensures preorder(rot_dom(s.len() as int), rot_rel(s)),
{
    let n = s.len() as int;
    assert forall|a: usize, b: usize| rot_dom(n)(a) && rot_dom(n)(b) implies #[trigger] rot_rel(s)(a, b) || rot_rel(s)(b, a) by {
        rot_cases(s, a as int, b as int);
    }
    assert forall|a: usize, b: usize, c: usize| rot_dom(n)(a) && rot_dom(n)(b) && rot_dom(n)(c) && #[trigger] rot_rel(s)(a, b) && #[trigger] rot_rel(s)(b, c) implies rot_rel(s)(a, c) by {
        rot_le_trans(s, a as int, b as int, c as int);
    }
}

// character x of the rotation by a
pub proof fn rot_char<C>(t: Seq<C>, a: int, x: int)
    requires 0 <= a < t.len(), 0 <= x < t.len(),
    ensures
        0 <= (a + x) % (t.len() as int) < t.len(),
        t[(a + x) % (t.len() as int)] == (t + t)[a + x],
{
    let n = t.len() as int;
    if a + x < n {
        vstd::arithmetic::div_mod::lemma_small_mod((a + x) as nat, n as nat);
    } else {
        vstd::arithmetic::div_mod::lemma_small_mod((a + x - n) as nat, n as nat);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a + x - n, n);
        assert((n + (a + x - n)) % n == (a + x) % n);
    }
}

// the sorted matrix determines its last column
pub proof fn mbwt_unique(s: Seq<int>, p: Seq<int>, q: Seq<int>, i: int)
    requires rot_sorted(s, p), rot_sorted(s, q), 0 <= i < s.len(),
    ensures s[prev(s.len() as int, p[i])] == s[prev(s.len() as int, q[i])],
{
    let n = s.len() as int;
    assert(0 <= p[i] < n && 0 <= q[i] < n);
    rot_cases(s, p[i], q[i]);
    if rot_lt(s, p[i], q[i]) { mbwt_pigeon(s, p, q, i); }
    if rot_lt(s, q[i], p[i]) { mbwt_pigeon(s, q, p, i); }
    mbwt_last(s, p[i], q[i]);
}

// equal rotations end with the same character
proof fn mbwt_last(s: Seq<int>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), eqr(doubled(s), a, b, s.len() as int),
    ensures s[prev(s.len() as int, a)] == s[prev(s.len() as int, b)],
{
    let n = s.len() as int;
    eqr_at(doubled(s), a, b, n, n - 1);
    doubled_last(s, a);
    doubled_last(s, b);
}

proof fn doubled_last(s: Seq<int>, a: int)
    requires 0 <= a < s.len(),
    ensures doubled(s)[a + s.len() - 1] == s[prev(s.len() as int, a)],
{
}

proof fn mbwt_pigeon(s: Seq<int>, p: Seq<int>, q: Seq<int>, i: int)
    requires rot_sorted(s, p), rot_sorted(s, q), 0 <= i < s.len(), rot_lt(s, p[i], q[i]),
    ensures false,
{
    let n = s.len() as int;
    let a = inj_set(p, i + 1);
    let b = inj_set(q, i);
    assert forall|x: int| #[trigger] a.contains(x) implies b.contains(x) by {
        let j = choose|j: int| 0 <= j < i + 1 && p[j] == x;
        let k = perm_at(q, x);
        assert(0 <= p[i] < n && 0 <= q[i] < n && 0 <= p[j] < n);
        if j < i {
            assert(rot_le(s, p[j], p[i]));
        } else {
            rot_cases(s, p[i], p[i]);
        }
        rot_le_trans_lt(s, p[j], p[i], q[i]);
        if k >= i {
            if k > i { assert(rot_le(s, q[i], q[k])); } else { rot_cases(s, x, x); lt_irrefl(doubled(s), x, x + n); }
        }
        assert(0 <= k < i && q[k] == x);
    }
    vstd::set_lib::lemma_len_subset(a, b);
}

proof fn rot_le_trans_lt(s: Seq<int>, a: int, b: int, c: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), 0 <= c < s.len(), rot_le(s, a, b), rot_lt(s, b, c),
    ensures rot_lt(s, a, c),
{
    rot_cases(s, b, c);
    rot_le_trans(s, a, b, c);
}

// order isomorphic sequences compare in the same way
pub open spec fn iso(s: Seq<int>, t: Seq<int>) -> bool {
    &&& s.len() == t.len()
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() ==> (s[i] < s[j] <==> t[i] < t[j])
}

pub proof fn iso_eq(s: Seq<int>, t: Seq<int>, i: int, j: int)
    requires iso(s, t), 0 <= i < s.len(), 0 <= j < s.len(),
    ensures s[i] == s[j] <==> t[i] == t[j], s[i] < s[j] <==> t[i] < t[j],
{
    assert(s[i] < s[j] <==> t[i] < t[j]);
    assert(s[j] < s[i] <==> t[j] < t[i]);
}

pub proof fn iso_sym(s: Seq<int>, t: Seq<int>)
    requires iso(s, t),
    ensures iso(t, s),
{
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() implies (t[i] < t[j] <==> s[i] < s[j]) by {
        iso_eq(s, t, i, j);
    }
}

pub proof fn iso_lt(s: Seq<int>, t: Seq<int>, a: int, b: int, c: int, d: int)
    requires iso(s, t), 0 <= a <= b <= s.len(), 0 <= c <= d <= s.len(), lt_sub(s, a, b, c, d),
    ensures lt_sub(t, a, b, c, d),
{
    let q = choose|q: int| #[trigger] lt_at(s, a, b, c, d, q);
    assert(lt_at(s, a, b, c, d, q));
    assert forall|x: int| a <= x < a + q implies #[trigger] t[x] == t[x - a + c] by {
        assert(s[x] == s[x - a + c]);
        iso_eq(s, t, x, x - a + c);
    }
    if a + q < b { iso_eq(s, t, a + q, c + q); }
    assert(lt_at(t, a, b, c, d, q));
}

pub proof fn iso_doubled(s: Seq<int>, t: Seq<int>)
    requires iso(s, t),
    ensures iso(doubled(s), doubled(t)),
{
    let n = s.len() as int;
    let u = doubled(s);
    let v = doubled(t);
    assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < u.len() && 0 <= j < u.len() implies (u[i] < u[j] <==> v[i] < v[j]) by {
        iso_eq(s, t, if i < n { i } else { i - n }, if j < n { j } else { j - n });
    }
}

pub proof fn iso_rot(s: Seq<int>, t: Seq<int>, a: int, b: int)
    requires iso(s, t), 0 <= a < s.len(), 0 <= b < s.len(),
    ensures rot_lt(s, a, b) <==> rot_lt(t, a, b),
{
    let n = s.len() as int;
    iso_doubled(s, t);
    if rot_lt(s, a, b) { iso_lt(doubled(s), doubled(t), a, a + n, b, b + n); }
    if rot_lt(t, a, b) {
        iso_sym(doubled(s), doubled(t));
        iso_lt(doubled(t), doubled(s), a, a + n, b, b + n);
    }
}

pub proof fn iso_ks_bs(t: Seq<u8>)
    ensures iso(ks(t), bs(t)),
{
    keyed_u8();
}

pub proof fn iso_rot_sorted(s: Seq<int>, t: Seq<int>, p: Seq<int>)
    requires iso(s, t), rot_sorted(s, p),
    ensures rot_sorted(t, p),
{
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies rot_le(t, #[trigger] p[i], #[trigger] p[j]) by {
        iso_rot(s, t, p[j], p[i]);
    }
}

// b is the last column of the sorted rotation matrix of the byte text t
pub open spec fn is_mbwt(t: Seq<u8>, b: Seq<u8>) -> bool {
    exists|p: Seq<int>| #[trigger] rot_sorted(bs(t), p) && is_bwt(t, p, b)
}

// both variants return the same sequence
pub proof fn mbwt_same(t: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_mbwt(t, a), is_mbwt(t, b),
    ensures a == b, a.to_multiset() == t.to_multiset(),
{
    let p = choose|p: Seq<int>| #[trigger] rot_sorted(bs(t), p) && is_bwt(t, p, a);
    let q = choose|q: Seq<int>| #[trigger] rot_sorted(bs(t), q) && is_bwt(t, q, b);
    assert forall|i: int| 0 <= i < t.len() implies a[i] == b[i] by {
        mbwt_unique(bs(t), p, q, i);
        assert(0 <= p[i] < t.len() && 0 <= q[i] < t.len());
    }
    assert(a =~= b);
    bwt_perm(t, p, a);
}

pub proof fn naive_mbwt(t: Seq<u8>, p: Seq<int>, b: Seq<u8>)
    requires rot_sorted(ks(t), p), is_bwt(t, p, b),
    ensures is_mbwt(t, b),
{
    iso_ks_bs(t);
    iso_rot_sorted(ks(t), bs(t), p);
}

} // verus!
