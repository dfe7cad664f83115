//@ needs sa stdfn
verus! {

// the cyclically preceding position
pub open spec fn prev(n: int, x: int) -> int {
    if x == 0 { n - 1 } else { x - 1 }
}

pub proof fn prev_mod(n: int, x: int)
    requires 0 <= x < n,
    ensures (n + x - 1) % n == prev(n, x), 0 <= prev(n, x) < n,
{
    if x == 0 {
        vstd::arithmetic::div_mod::lemma_small_mod((n - 1) as nat, n as nat);
    } else {
        vstd::arithmetic::div_mod::lemma_small_mod((x - 1) as nat, n as nat);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x - 1, n);
        assert((n + x - 1) % n == (n + (x - 1)) % n);
    }
}

// entry i is the character cyclically preceding the i-th smallest suffix
pub open spec fn is_bwt<C>(t: Seq<C>, sa: Seq<int>, b: Seq<C>) -> bool {
    &&& b.len() == t.len()
    &&& sa.len() == t.len()
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == t[prev(t.len() as int, sa[i])]
}

pub open spec fn img<C>(t: Seq<C>, p: Seq<int>) -> Seq<C> {
    Seq::new(p.len(), |i: int| t[p[i]])
}

// rearranging a sequence by a permutation keeps its multiset
pub proof fn perm_multiset<C>(t: Seq<C>, p: Seq<int>)
    requires is_perm(p), p.len() == t.len(),
    ensures img(t, p).to_multiset() == t.to_multiset(),
    decreases t.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let n = t.len() as int;
    if n == 0 {
        assert(img(t, p) =~= t);
    } else {
        let k = perm_at(p, n - 1);
        let q = p.remove(k);
        assert(is_perm(q)) by {
            assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < q.len() by {
                if i < k { assert(q[i] == p[i]); } else { assert(q[i] == p[i + 1]); }
            }
            assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies #[trigger] q[i] != #[trigger] q[j] by {
                let i2 = if i < k { i } else { i + 1 };
                let j2 = if j < k { j } else { j + 1 };
                assert(q[i] == p[i2] && q[j] == p[j2]);
            }
        }
        let u = t.drop_last();
        perm_multiset(u, q);
        assert(img(t, p).remove(k) =~= img(u, q)) by {
            assert forall|i: int| 0 <= i < n - 1 implies img(t, p).remove(k)[i] == img(u, q)[i] by {
                if i < k { assert(q[i] == p[i]); } else { assert(q[i] == p[i + 1]); }
                assert(0 <= q[i] < n - 1);
            }
        }
        assert(u.push(t.last()) =~= t);
        assert(t.to_multiset() == u.to_multiset().insert(t[n - 1]));
        assert(img(t, p)[k] == t[n - 1]);
        assert(img(t, p).to_multiset().count(t[n - 1]) > 0);
        assert(img(u, q).to_multiset() =~= img(t, p).to_multiset().remove(t[n - 1]));
        assert(img(t, p).to_multiset() =~= img(u, q).to_multiset().insert(t[n - 1]));
    }
}

// the BWT is a rearrangement of the text
pub proof fn bwt_perm<C>(t: Seq<C>, sa: Seq<int>, b: Seq<C>)
    requires is_bwt(t, sa, b), is_perm(sa),
    ensures b.to_multiset() == t.to_multiset(),
{
    let n = t.len() as int;
    let p = Seq::new(sa.len(), |i: int| prev(n, sa[i]));
    assert(is_perm(p)) by {
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < p.len() by {
            assert(0 <= sa[i] < n);
        }
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies #[trigger] p[i] != #[trigger] p[j] by {
            assert(sa[i] != sa[j]);
        }
    }
    perm_multiset(t, p);
    assert(img(t, p) =~= b);
}

// the text determines its BWT
pub proof fn bwt_unique<C>(t: Seq<C>, sa1: Seq<int>, b1: Seq<C>, sa2: Seq<int>, b2: Seq<C>, s: Seq<int>)
    requires is_bwt(t, sa1, b1), is_bwt(t, sa2, b2), is_sa(s, sa1), is_sa(s, sa2),
    ensures b1 == b2,
{
    sa_unique(s, sa1, sa2);
    assert(b1 =~= b2);
}

// indices of a sequence of i32 / usize
pub open spec fn i32s(v: Seq<i32>) -> Seq<int> {
    Seq::new(v.len(), |i: int| v[i] as int)
}

pub open spec fn us(v: Seq<usize>) -> Seq<int> {
    Seq::new(v.len(), |i: int| v[i] as int)
}

// a byte text orders like its values, whatever embedding is taken
pub proof fn ks_bs(t: Seq<u8>, a: int, c: int)
    requires 0 <= a <= t.len(), 0 <= c <= t.len(),
    ensures suf_lt(ks(t), a, c) <==> suf_lt(bs(t), a, c),
{
    keyed_u8();
    let n = t.len() as int;
    let k = ks(t);
    let b = bs(t);
    if suf_lt(k, a, c) {
        let q = choose|q: int| #[trigger] lt_at(k, a, n, c, n, q);
        assert(lt_at(k, a, n, c, n, q));
        assert forall|x: int| a <= x < a + q implies #[trigger] b[x] == b[x - a + c] by {
            assert(k[x] == k[x - a + c]);
        }
        assert(lt_at(b, a, n, c, n, q));
    }
    if suf_lt(b, a, c) {
        let q = choose|q: int| #[trigger] lt_at(b, a, n, c, n, q);
        assert(lt_at(b, a, n, c, n, q));
        assert forall|x: int| a <= x < a + q implies #[trigger] k[x] == k[x - a + c] by {
            assert(b[x] == b[x - a + c]);
        }
        assert(lt_at(k, a, n, c, n, q));
    }
}

} // verus!
