//@ needs stream decimal lyndon
verus! {

// the file of factors: every factor behind a line with its number and its position
// "\n>Factor {} : {} -> {}\n"
pub open spec fn lyn_head(k: int, a: int, b: int) -> Seq<u8> {
    seq![10u8, 62u8, 70u8, 97u8, 99u8, 116u8, 111u8, 114u8, 32u8] + dec(k) + seq![32u8, 58u8, 32u8] + dec(a) + seq![32u8, 45u8, 62u8, 32u8] + dec(b) + seq![10u8]
}

// ">Factor 1\n"
pub open spec fn lyn_head1() -> Seq<u8> {
    seq![62u8, 70u8, 97u8, 99u8, 116u8, 111u8, 114u8, 32u8, 49u8, 10u8]
}

pub open spec fn lyn_file(w: Seq<u8>, ends: Seq<usize>, m: int) -> Seq<u8>
    decreases m,
{
    if m <= 0 {
        Seq::empty()
    } else {
        let a = fstart(ends, m - 1);
        lyn_file(w, ends, m - 1)
            + (if m == 1 { lyn_head1() } else { lyn_head(m, a, ends[m - 1] + 1) })
            + w.subrange(a, ends[m - 1] + 1)
    }
}

// a 0 byte as the last of several factors (the end mark) is left out
pub open spec fn lyn_shown(w: Seq<u8>, ends: Seq<usize>) -> int {
    if ends.len() > 1 && w.last() == 0 { ends.len() - 1 } else { ends.len() as int }
}

// the factors are nonempty and within the text
pub proof fn ends_bounds(s: Seq<int>, ends: Seq<usize>)
    requires lyn_fact(s, ends),
    ensures
        s.len() > 0 ==> ends.len() > 0 && ends[ends.len() - 1] + 1 == s.len(),
        forall|x: int| 0 <= x < ends.len() ==> fstart(ends, x) <= #[trigger] ends[x] < s.len(),
{
    assert forall|x: int| 0 <= x < ends.len() implies fstart(ends, x) <= #[trigger] ends[x] < s.len() by {
        assert(factor_ok(s, ends, s.len() as int, x));
    }
}

pub proof fn lyn_file_first(w: Seq<u8>, ends: Seq<usize>)
    ensures lyn_file(w, ends, 1) == lyn_head1() + w.subrange(0, ends[0] + 1),
{
    reveal_with_fuel(lyn_file, 2);
    assert(lyn_file(w, ends, 1) =~= lyn_head1() + w.subrange(0, ends[0] + 1));
}

// write!(w, "\n>Factor {} : {} -> {}\n", k, a, b) (assumed contract of the formatting library)
#[verifier::external_body]
pub fn write_head<W: vio::Write, A: Shown, B: Shown, C: Shown>(w: &mut W, k: A, a: B, b: C) -> (r: vio::Result<()>)
    requires k.shown() >= 0, a.shown() >= 0, b.shown() >= 0,
    ensures
        !crate::faults() ==> r is Ok,
        r is Ok ==> final(w).out() == old(w).out() + lyn_head(k.shown(), a.shown(), b.shown()),
        final(w).to() == old(w).to(),
        final(w).mode() == old(w).mode(),
        r is Ok && !old(w).lost() ==> !final(w).lost(),
        old(w).mode() is Direct && !old(w).pending() ==> !final(w).pending(),
{
    unimplemented!()
}

} // verus!
