//@ needs num divsuf plcp env
verus! {

pub proof fn i32s_idx(s: Seq<int>, v: Seq<i32>)
    requires is_sa(s, i32s(v)),
    ensures idx(v) == i32s(v),
{
    assert forall|i: int| 0 <= i < v.len() implies v[i].as_spec() == v[i] by {
        assert(0 <= i32s(v)[i]);
    }
    assert(idx(v) =~= i32s(v));
}

// text.last() == Some(&c)
pub fn last_is(text: &Vec<u8>, c: u8) -> (r: bool)
    ensures r <==> text@.len() > 0 && text@[text@.len() - 1] == c,
{
    text.len() > 0 && text[text.len() - 1] == c
}

} // verus!
