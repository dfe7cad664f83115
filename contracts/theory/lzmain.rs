//@ needs lz77 pipe
verus! {

// positions of smaller entries only depend on the order
proof fn key_lt(v: Seq<i32>, i: int, j: int)
    requires 0 <= i < v.len(), 0 <= j < v.len(),
    ensures ks(v)[i] < ks(v)[j] <==> i32s(v)[i] < i32s(v)[j],
{
    keyed_i32();
    assert(ks(v)[i] == key::<i32>()(v[i]) && ks(v)[j] == key::<i32>()(v[j]));
}

proof fn psv_int(v: Seq<i32>, i: int, r: u32)
    requires 0 <= i < v.len(),
    ensures is_psv(ks(v), i, r) ==> is_psv(i32s(v), i, r), is_nsv(ks(v), i, r) ==> is_nsv(i32s(v), i, r),
{
    let a = ks(v);
    let b = i32s(v);
    assert(a.len() == v.len() && b.len() == v.len());
    assert forall|j: int| 0 <= j < v.len() && a[j] >= a[i] implies #[trigger] b[j] >= b[i] by { key_lt(v, j, i); }
    if 0 <= r < v.len() { key_lt(v, r as int, i); }
    assert forall|j: int| 0 <= j < v.len() && b[j] < b[i] implies #[trigger] a[j] < a[i] by { key_lt(v, j, i); }
}

pub proof fn psv_ints(v: Seq<i32>)
    ensures
        forall|i: int, r: u32| 0 <= i < v.len() && #[trigger] is_psv(ks(v), i, r) ==> is_psv(i32s(v), i, r),
        forall|i: int, r: u32| 0 <= i < v.len() && #[trigger] is_nsv(ks(v), i, r) ==> is_nsv(i32s(v), i, r),
{
    hide(is_psv);
    hide(is_nsv);
    hide(ks);
    hide(i32s);
    assert forall|i: int, r: u32| 0 <= i < v.len() && #[trigger] is_psv(ks(v), i, r) implies is_psv(i32s(v), i, r) by { psv_int(v, i, r); }
    assert forall|i: int, r: u32| 0 <= i < v.len() && #[trigger] is_nsv(ks(v), i, r) implies is_nsv(i32s(v), i, r) by { psv_int(v, i, r); }
}

pub proof fn isa_ints(p: Seq<int>, q: Seq<i32>)
    requires is_perm(p), is_inverse(p, idx(q)), p.len() < 0x8000_0000,
    ensures i32s(q) == idx(q),
{
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] idx(q)[i] < 0x8000_0000 by {
        let j = perm_at(p, i);
        assert(idx(q)[p[j]] == j);
    }
    i32_indices(q);
    assert(i32s(q) =~= idx(q));
}

// text == other
pub fn same_bytes(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool)
    ensures r <==> a@ == b@,
{
    if a.len() != b.len() { return false; }
    for i in 0..a.len()
        invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> #[trigger] a@[j] == b@[j],
    {
        if a[i] != b[i] { return false; }
    }
    assert(a@ =~= b@);
    true
}

pub proof fn bytes_same(a: Seq<u8>, b: Seq<u8>)
    requires bs(a) == bs(b),
    ensures a == b,
{
    assert(a.len() == bs(a).len() && b.len() == bs(b).len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(bs(a)[i] == a[i] as int && bs(b)[i] == b[i] as int); }
    assert(a =~= b);
}

} // verus!
