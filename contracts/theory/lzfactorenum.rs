//@ needs lexparse
verus! {

spec fn lzse(f: Seq<LZFactorEnum>) -> Factors {
    Seq::new(f.len(), |i: int| (f[i].pos as int, f[i].len as int))
}

} // verus!
