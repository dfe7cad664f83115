//@ needs lexparse
verus! {

spec fn lzs(f: Seq<LZFactor>) -> Factors {
    Seq::new(f.len(), |i: int| (f[i].pos as int, f[i].len as int))
}

} // verus!
