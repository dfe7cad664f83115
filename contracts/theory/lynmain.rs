//@ needs lyngen env stdfn
verus! {

// the line of a word: its digits as letters, and a line feed
pub open spec fn lyn_line(w: Seq<int>) -> Seq<u8> {
    Seq::new(w.len(), |i: int| (97 + w[i]) as u8).push(10)
}

pub open spec fn lyn_lines(ws: Seq<Seq<int>>) -> Seq<u8>
    decreases ws.len(),
{
    if ws.len() == 0 { Seq::empty() } else { lyn_lines(ws.drop_last()) + lyn_line(ws.last()) }
}

// what is left to generate (for termination)
pub open spec fn lyn_left(n: nat, k: nat, w: Seq<int>) -> nat {
    let d = pw(k as int + 1, n) - code(w, n, k);
    if d < 0 { 0 } else { d as nat }
}

pub proof fn lines_push(ws: Seq<Seq<int>>, z: Seq<int>)
    ensures lyn_lines(ws.push(z)) == lyn_lines(ws) + lyn_line(z),
{
    assert(ws.push(z).drop_last() =~= ws);
}

pub proof fn left_less(ws: Seq<Seq<int>>, n: nat, k: nat, z: Seq<int>)
    requires lyn_list(ws, n, k), lynext(n, k, last_of(ws), z),
    ensures lyn_left(n, k, z) < lyn_left(n, k, last_of(ws)),
{
    let w = last_of(ws);
    assert(ws.len() > 0 ==> lyword(ws[ws.len() - 1], n, k));
    code_mono(w, z, n, k);
    code_range(z, n, k);
}

} // verus!
