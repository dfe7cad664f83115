//@ needs stream
verus! {

// number of byte values below k that occur in s
pub open spec fn sigma_below(s: Seq<u8>, k: nat) -> nat
    decreases k,
{
    if k == 0 { 0 } else { sigma_below(s, (k - 1) as nat) + if s.contains((k - 1) as u8) { 1nat } else { 0nat } }
}

// number of distinct byte values of s
pub open spec fn sigma(s: Seq<u8>) -> nat {
    sigma_below(s, 256)
}

pub proof fn sigma_bound(s: Seq<u8>, k: nat)
    requires k <= 256,
    ensures sigma_below(s, k) <= k,
    decreases k,
{
    if k > 0 { sigma_bound(s, (k - 1) as nat); }
}

pub proof fn sigma_push(s: Seq<u8>, c: u8, k: nat)
    requires k <= 256,
    ensures sigma_below(s.push(c), k) == sigma_below(s, k) + if c < k && !s.contains(c) { 1nat } else { 0nat },
    decreases k,
{
    if k > 0 {
        sigma_push(s, c, (k - 1) as nat);
        let d = (k - 1) as u8;
        push_contains(s, c, d);
    }
}

pub proof fn push_contains(s: Seq<u8>, c: u8, d: u8)
    ensures s.push(c).contains(d) <==> s.contains(d) || c == d,
{
    let p = s.push(c);
    if s.contains(d) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == d;
        assert(p[i] == d);
    }
    if c == d { assert(p[s.len() as int] == d); }
    if p.contains(d) && c != d {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == d;
        assert(s[i] == d);
    }
}

pub proof fn sigma_empty(k: nat)
    requires k <= 256,
    ensures sigma_below(Seq::<u8>::empty(), k) == 0,
    decreases k,
{
    if k > 0 { sigma_empty((k - 1) as nat); }
}

// the alphabet size is the number of elements of the set of characters
pub proof fn sigma_set(s: Seq<u8>)
    ensures sigma(s) == s.to_set().len(),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_seq_properties;
    if s.len() == 0 {
        assert(s =~= Seq::<u8>::empty());
        sigma_empty(256);
        assert(s.to_set() =~= Set::empty());
    } else {
        let p = s.drop_last();
        let c = s.last();
        assert(s =~= p.push(c));
        sigma_set(p);
        sigma_push(p, c, 256);
        assert(s.to_set() =~= p.to_set().insert(c)) by {
            assert forall|d: u8| s.to_set().contains(d) <==> #[trigger] p.to_set().insert(c).contains(d) by {
                push_contains(p, c, d);
            }
        }
    }
}

} // verus!
