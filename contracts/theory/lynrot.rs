//@ needs lynfact
verus! {

pub open spec fn doubled(s: Seq<int>) -> Seq<int> { s + s }

// the rotation of s by r is not larger than any other rotation of s
pub open spec fn min_rot(s: Seq<int>, r: int) -> bool {
    &&& 0 <= r < s.len()
    &&& forall|p: int| 0 <= p < s.len() ==> !#[trigger] lt_sub(doubled(s), p, p + s.len(), r, r + s.len())
}

// a Lyndon prefix of ss is not longer than s
pub proof fn lyn_not_longer(s: Seq<int>, m: int)
    requires lyn(doubled(s), 0, m), m <= 2 * s.len(), s.len() > 0,
    ensures m <= s.len(),
{
    let n = s.len() as int;
    if m > n {
        assert(lynw(doubled(s), 0, n, m));
        let q = choose|q: int| #[trigger] lynw_at(doubled(s), 0, n, m, q);
        assert(lynw_at(doubled(s), 0, n, m, q));
        assert(doubled(s)[n + q] == doubled(s)[0 + q]);
    }
}

// the factor of ss that covers position n-1 starts a smallest rotation
pub proof fn lyn_min_rot(s: Seq<int>, ends: Seq<usize>, x: int)
    requires
        s.len() > 0, lyn_fact(doubled(s), ends), 0 <= x < ends.len(),
        fstart(ends, x) < s.len(), ends[x] + 1 >= s.len(),
    ensures min_rot(s, fstart(ends, x)),
{
    let n = s.len() as int;
    let t = doubled(s);
    let r = fstart(ends, x);
    let e = ends[x] + 1;
    assert(factor_ok(t, ends, t.len() as int, x));
    assert forall|p: int| 0 <= p < n implies !#[trigger] lt_sub(t, p, p + n, r, r + n) by {
        if p < r {
            fact_suffix_min(t, ends, x, p);
            let q = choose|q: int| #[trigger] lt_at(t, r, 2 * n, p, 2 * n, q);
            assert(lt_at(t, r, 2 * n, p, 2 * n, q));
            rot_cmp(t, r, p, n, q);
        } else if p > r {
            assert(lynw(t, r, p, e));
            let q = choose|q: int| #[trigger] lynw_at(t, r, p, e, q);
            assert(lynw_at(t, r, p, e, q));
            rot_cmp(t, r, p, n, q);
        } else {
            lt_irrefl(t, p, p + n);
        }
    }
}

proof fn rot_cmp(t: Seq<int>, r: int, p: int, n: int, q: int)
    requires 0 <= q, eqr(t, r, p, q), q >= n || t[r + q] < t[p + q],
    ensures !lt_sub(t, p, p + n, r, r + n),
{
    if lt_sub(t, p, p + n, r, r + n) {
        if q < n {
            assert(lt_at(t, r, r + n, p, p + n, q));
            lt_asym(t, p, p + n, r, r + n);
        } else {
            let z = choose|z: int| #[trigger] lt_at(t, p, p + n, r, r + n, z);
            assert(lt_at(t, p, p + n, r, r + n, z));
            eqr_at(t, r, p, q, z);
        }
    }
}

} // verus!
