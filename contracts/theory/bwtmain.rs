//@ needs matbwt env
verus! {

// the text that the tools transform: the requested prefix, with or without an appended 0
pub open spec fn bwt_input(w: Seq<u8>, no_dollar: bool) -> Seq<u8> {
    if no_dollar { w } else { w.push(0) }
}

pub open spec fn suf_bwt(t: Seq<u8>, b: Seq<u8>) -> bool {
    exists|sa: Seq<int>| #[trigger] is_bwt(t, sa, b) && is_sa(bs(t), sa)
}

// b is what the tools take as the BWT of their input w
pub open spec fn tool_bwt(w: Seq<u8>, use_matrix: bool, no_dollar: bool, b: Seq<u8>) -> bool {
    if use_matrix { is_mbwt(bwt_input(w, no_dollar), b) } else { suf_bwt(bwt_input(w, no_dollar), b) }
}

// with a unique smallest last character rotations sort like suffixes
proof fn sent_rot(w: Seq<u8>, a: int, b: int)
    requires
        zero_free(w), 0 <= a <= w.len(), 0 <= b <= w.len(), suf_lt(bs(w.push(0)), a, b),
    ensures
        rot_le(bs(w.push(0)), a, b),
{
    let s = bs(w.push(0));
    let n = s.len() as int;
    let d = doubled(s);
    let q = choose|q: int| #[trigger] lt_at(s, a, n, b, n, q);
    assert(lt_at(s, a, n, b, n, q));
    if a + q == n {
        eqr_at(s, a, b, q, q - 1);
        assert(s[n - 1] == 0);
        assert(w[b + q - 1] != 0);
    }
    assert forall|x: int| a <= x < a + q implies #[trigger] d[x] == d[x - a + b] by {
        eqr_at(s, a, b, q, x - a);
    }
    assert(lt_at(d, a, a + n, b, b + n, q));
    lt_asym(d, a, a + n, b, b + n);
}

// the BWT of a text with a sentinel through its suffix array is its matrix BWT
pub proof fn sent_mbwt(w: Seq<u8>, sa: Seq<int>, b: Seq<u8>)
    requires zero_free(w), is_bwt(w.push(0), sa, b), is_sa(bs(w.push(0)), sa),
    ensures is_mbwt(w.push(0), b),
{
    let s = bs(w.push(0));
    sa_perm(s, sa);
    assert forall|i: int, j: int| 0 <= i < j < sa.len() implies rot_le(s, #[trigger] sa[i], #[trigger] sa[j]) by {
        sa_lt(s, sa, i, j);
        sent_rot(w, sa[i], sa[j]);
    }
    assert(rot_sorted(s, sa));
}

} // verus!
