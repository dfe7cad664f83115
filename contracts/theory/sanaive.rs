//@ needs bwt
verus! {

// comparison of two sequences
pub open spec fn seq_lt_at(a: Seq<int>, b: Seq<int>, q: int) -> bool {
    &&& 0 <= q <= a.len() && q < b.len()
    &&& forall|x: int| 0 <= x < q ==> #[trigger] a[x] == b[x]
    &&& (q == a.len() || a[q] < b[q])
}

pub open spec fn seq_lt(a: Seq<int>, b: Seq<int>) -> bool {
    exists|q: int| #[trigger] seq_lt_at(a, b, q)
}

pub open spec fn seq_ord(a: Seq<int>, b: Seq<int>) -> Ordering {
    if a == b { Ordering::Equal } else if seq_lt(a, b) { Ordering::Less } else { Ordering::Greater }
}

// Ord::cmp of slices: lexicographic comparison (assumed contract of the standard library)
#[verifier::external_body]
pub fn slice_cmp<C: Ord>(a: &[C], b: &[C]) -> (r: Ordering)
    requires keyed::<C>(),
    ensures r == seq_ord(ks(a@), ks(b@)),
{
    a.cmp(b)
}

pub open spec fn suf_le(s: Seq<int>, a: int, c: int) -> bool {
    a == c || suf_lt(s, a, c)
}

pub proof fn suf_seq(s: Seq<int>, a: int, c: int)
    requires 0 <= a <= s.len(), 0 <= c <= s.len(),
    ensures
        suf_lt(s, a, c) <==> seq_lt(s.subrange(a, s.len() as int), s.subrange(c, s.len() as int)),
        a != c ==> s.subrange(a, s.len() as int) != s.subrange(c, s.len() as int),
{
    let n = s.len() as int;
    let u = s.subrange(a, n);
    let v = s.subrange(c, n);
    if suf_lt(s, a, c) {
        let q = choose|q: int| #[trigger] lt_at(s, a, n, c, n, q);
        assert(lt_at(s, a, n, c, n, q));
        assert forall|x: int| 0 <= x < q implies #[trigger] u[x] == v[x] by {
            eqr_at(s, a, c, q, x);
        }
        assert(seq_lt_at(u, v, q));
    }
    if seq_lt(u, v) {
        let q = choose|q: int| #[trigger] seq_lt_at(u, v, q);
        assert(seq_lt_at(u, v, q));
        assert forall|x: int| a <= x < a + q implies #[trigger] s[x] == s[x - a + c] by {
            assert(u[x - a] == v[x - a]);
        }
        assert(lt_at(s, a, n, c, n, q));
    }
    if a != c {
        assert(u.len() != v.len());
    }
}

pub open spec fn suf_dom(n: int) -> spec_fn(usize) -> bool {
    |a: usize| a < n
}

pub open spec fn suf_rel(s: Seq<int>) -> spec_fn(usize, usize) -> bool {
    |a: usize, b: usize| suf_le(s, a as int, b as int)
}

pub proof fn suf_preorder(s: Seq<int>)
    ensures preorder(suf_dom(s.len() as int), suf_rel(s)),
{
    let n = s.len() as int;
    assert forall|a: usize, b: usize| suf_dom(n)(a) && suf_dom(n)(b) implies #[trigger] suf_rel(s)(a, b) || suf_rel(s)(b, a) by {
        if a != b { suf_total(s, a as int, b as int); }
    }
    assert forall|a: usize, b: usize, c: usize| suf_dom(n)(a) && suf_dom(n)(b) && suf_dom(n)(c) && #[trigger] suf_rel(s)(a, b) && #[trigger] suf_rel(s)(b, c) implies suf_rel(s)(a, c) by {
        if a != b && b != c { suf_trans(s, a as int, b as int, c as int); }
    }
}

// a rearrangement of 0..n
pub proof fn iota_perm(v: Seq<usize>, w: Seq<usize>)
    requires
        w.to_multiset() == v.to_multiset(), w.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == i,
    ensures is_perm(us(w)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let n = v.len() as int;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] us(w)[i] < n by {
        assert(w.to_multiset().contains(w[i]));
        assert(v.contains(w[i]));
    }
    assert(v.no_duplicates());
    v.lemma_multiset_has_no_duplicates();
    w.lemma_multiset_has_no_duplicates_conv();
    assert(w.no_duplicates());
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies #[trigger] us(w)[i] != #[trigger] us(w)[j] by {
        assert(w[i] != w[j]);
    }
}

// sorted rearrangement of all start positions = suffix array
pub proof fn sorted_sa(s: Seq<int>, v: Seq<usize>, w: Seq<usize>)
    requires
        w.to_multiset() == v.to_multiset(), w.len() == v.len(), v.len() == s.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == i,
        forall|i: int, j: int| 0 <= i < j < w.len() ==> suf_rel(s)(#[trigger] w[i], #[trigger] w[j]),
    ensures is_sa(s, us(w)),
{
    iota_perm(v, w);
    let p = us(w);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies suf_lt(s, #[trigger] p[i], #[trigger] p[j]) by {
        assert(suf_rel(s)(w[i], w[j]));
        assert(p[i] != p[j]);
    }
}

// the naive suffix array gives the same BWT as the suffix sorter
pub proof fn naive_same(t: Seq<u8>, sa1: Seq<int>, b1: Seq<u8>, sa2: Seq<int>, b2: Seq<u8>)
    requires is_sa(ks(t), sa1), is_bwt(t, sa1, b1), is_sa(bs(t), sa2), is_bwt(t, sa2, b2),
    ensures b1 == b2, b1.to_multiset() == t.to_multiset(),
{
    assert forall|i: int, j: int| 0 <= i < j < sa2.len() implies suf_lt(ks(t), #[trigger] sa2[i], #[trigger] sa2[j]) by {
        ks_bs(t, sa2[i], sa2[j]);
    }
    assert(is_sa(ks(t), sa2));
    bwt_unique(t, sa1, b1, sa2, b2, ks(t));
    sa_perm(ks(t), sa1);
    bwt_perm(t, sa1, b1);
}

} // verus!
