//@ needs stream decimal
verus! {

// the text of a list of pairs: (a,b) for each of them
pub open spec fn pair_text(a: int, b: int) -> Seq<u8> {
    seq![40u8] + dec(a) + seq![44u8] + dec(b) + seq![41u8]
}

pub open spec fn pairs_text(f: Seq<(int, int)>) -> Seq<u8>
    decreases f.len(),
{
    if f.len() == 0 { Seq::empty() } else { pairs_text(f.drop_last()) + pair_text(f.last().0, f.last().1) }
}

pub proof fn pairs_text_step(f: Seq<(int, int)>, k: int)
    requires 0 <= k < f.len(),
    ensures pairs_text(f.subrange(0, k + 1)) == pairs_text(f.subrange(0, k)) + pair_text(f[k].0, f[k].1),
{
    assert(f.subrange(0, k + 1).drop_last() =~= f.subrange(0, k));
}

// w.write_all(format!("({},{})", a, b).as_bytes()) (assumed contract of the formatting library)
#[verifier::external_body]
pub fn write_pair<W: vio::Write, A: Shown, B: Shown>(w: &mut W, a: A, b: B) -> (r: vio::Result<()>)
    requires a.shown() >= 0, b.shown() >= 0,
    ensures
        !crate::faults() ==> r is Ok,
        r is Ok ==> final(w).out() == old(w).out() + pair_text(a.shown(), b.shown()),
        final(w).to() == old(w).to(),
        final(w).mode() == old(w).mode(),
        r is Ok && !old(w).lost() ==> !final(w).lost(),
        old(w).mode() is Direct && !old(w).pending() ==> !final(w).pending(),
{
    unimplemented!()
}

} // verus!
