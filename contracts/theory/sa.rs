//@ needs lynfact perm
verus! {

pub open spec fn bs(t: Seq<u8>) -> Seq<int> {
    Seq::new(t.len(), |i: int| t[i] as int)
}

// sa lists all suffixes of s in increasing lexicographic order
pub open spec fn is_sa(s: Seq<int>, sa: Seq<int>) -> bool {
    &&& sa.len() == s.len()
    &&& forall|i: int| 0 <= i < sa.len() ==> 0 <= #[trigger] sa[i] < sa.len()
    &&& forall|i: int, j: int| 0 <= i < j < sa.len() ==> suf_lt(s, #[trigger] sa[i], #[trigger] sa[j])
}

pub proof fn sa_perm(s: Seq<int>, sa: Seq<int>)
    requires is_sa(s, sa),
    ensures is_perm(sa),
{
    assert forall|i: int, j: int| 0 <= i < sa.len() && 0 <= j < sa.len() && i != j implies #[trigger] sa[i] != #[trigger] sa[j] by {
        if i < j { suf_asym(s, sa[i], sa[j]); } else { suf_asym(s, sa[j], sa[i]); }
    }
}

pub open spec fn is_inverse(p: Seq<int>, q: Seq<int>) -> bool {
    &&& q.len() == p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> q[#[trigger] p[i]] == i
}

// phi maps every suffix to its predecessor in p, and the first to the last
pub open spec fn is_phi(p: Seq<int>, phi: Seq<int>) -> bool {
    &&& phi.len() == p.len()
    &&& p.len() > 0 ==> phi[p[0]] == p[p.len() - 1]
    &&& forall|i: int| 1 <= i < p.len() ==> #[trigger] phi[p[i]] == p[i - 1]
}

// the same, without the suffix array: what phi means for the order of the suffixes
pub open spec fn phi_at(s: Seq<int>, a: int, b: int) -> bool {
    &&& 0 <= a < s.len()
    &&& ({
        ||| (suf_lt(s, a, b) && forall|p: int| 0 <= p < s.len() && #[trigger] suf_lt(s, p, b) ==> p == a || suf_lt(s, p, a))
        ||| ((forall|p: int| 0 <= p < s.len() && p != b ==> #[trigger] suf_lt(s, b, p))
            && (forall|p: int| 0 <= p < s.len() && p != a ==> #[trigger] suf_lt(s, p, a)))
    })
}

pub open spec fn phi_ok(s: Seq<int>, phi: Seq<int>) -> bool {
    &&& phi.len() == s.len()
    &&& forall|b: int| 0 <= b < s.len() ==> phi_at(s, #[trigger] phi[b], b)
}

pub proof fn sa_lt(s: Seq<int>, sa: Seq<int>, i: int, j: int)
    requires is_sa(s, sa), 0 <= i < sa.len(), 0 <= j < sa.len(),
    ensures suf_lt(s, sa[i], sa[j]) <==> i < j,
{
    if i < j {
    } else if i == j {
        if suf_lt(s, sa[i], sa[i]) { suf_asym(s, sa[i], sa[i]); }
    } else {
        suf_asym(s, sa[j], sa[i]);
    }
}

pub proof fn sa_phi(s: Seq<int>, sa: Seq<int>, phi: Seq<int>)
    requires is_sa(s, sa), is_phi(sa, phi),
    ensures phi_ok(s, phi),
{
    hide(suf_lt);
    sa_perm(s, sa);
    let n = s.len() as int;
    assert forall|b: int| 0 <= b < n implies phi_at(s, #[trigger] phi[b], b) by {
        let i = perm_at(sa, b);
        if i > 0 {
            assert(phi[sa[i]] == sa[i - 1]);
            assert(suf_lt(s, sa[i - 1], sa[i]));
            assert forall|p: int| 0 <= p < n && #[trigger] suf_lt(s, p, b) implies p == sa[i - 1] || suf_lt(s, p, sa[i - 1]) by {
                let j = perm_at(sa, p);
                sa_lt(s, sa, j, i);
                if j < i - 1 { sa_lt(s, sa, j, i - 1); }
            }
        } else {
            assert(phi[sa[0]] == sa[n - 1]);
            assert forall|p: int| 0 <= p < n && p != b implies #[trigger] suf_lt(s, b, p) by {
                let j = perm_at(sa, p);
                sa_lt(s, sa, 0, j);
            }
            assert forall|p: int| 0 <= p < n && p != sa[n - 1] implies #[trigger] suf_lt(s, p, sa[n - 1]) by {
                let j = perm_at(sa, p);
                sa_lt(s, sa, j, n - 1);
            }
        }
    }
}

// the inverse of the suffix array orders the positions like the suffixes
pub proof fn sa_isa(s: Seq<int>, sa: Seq<int>, isa: Seq<i32>)
    requires is_sa(s, sa), is_inverse(sa, Seq::new(isa.len(), |i: int| isa[i] as int)),
    ensures is_isa(s, isa),
{
    sa_perm(s, sa);
    let inv = Seq::new(isa.len(), |i: int| isa[i] as int);
    assert forall|a: int, b: int| #![trigger isa[a], isa[b]] 0 <= a < s.len() && 0 <= b < s.len() implies (isa[a] < isa[b] <==> suf_lt(s, a, b)) by {
        let i = perm_at(sa, a);
        let j = perm_at(sa, b);
        assert(inv[sa[i]] == i && inv[sa[j]] == j);
        sa_lt(s, sa, i, j);
    }
}

pub proof fn sa_unique(s: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires is_sa(s, a), is_sa(s, b),
    ensures a == b,
{
    let n = s.len() as int;
    sa_perm(s, a);
    sa_perm(s, b);
    assert forall|i: int| 0 <= i < n implies a[i] == b[i] by {
        sa_unique_rec(s, a, b, i);
    }
    assert(a =~= b);
}

proof fn sa_unique_rec(s: Seq<int>, a: Seq<int>, b: Seq<int>, i: int)
    requires is_sa(s, a), is_sa(s, b), is_perm(a), is_perm(b), 0 <= i < s.len(),
    ensures forall|j: int| 0 <= j <= i ==> #[trigger] a[j] == b[j],
    decreases i,
{
    if i > 0 { sa_unique_rec(s, a, b, i - 1); }
    if a[i] != b[i] {
        let j = perm_at(a, b[i]);
        let k = perm_at(b, a[i]);
        if j < i { assert(a[j] == b[j]); assert(b[j] == b[i]); }
        if k < i { assert(a[k] == b[k]); assert(a[k] == a[i]); }
        sa_lt(s, a, i, j);
        sa_lt(s, b, i, k);
        suf_asym(s, a[i], b[i]);
    }
}

} // verus!
