verus! {

// number of set bits before position k
pub open spec fn ones(b: Seq<bool>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { ones(b, k - 1) + if b[k - 1] { 1int } else { 0 } }
}

// crate succinct (assumed contracts)
mod succinct {
    use vstd::prelude::*;
    use crate::ones;

    #[verifier::external_body]
    pub struct BitVector { x: u64 }

    impl BitVector {
        pub uninterp spec fn bits(&self) -> Seq<bool>;

        #[verifier::external_body]
        pub fn with_fill(n: u64, v: bool) -> (r: BitVector)
            ensures r.bits() == Seq::new(n as nat, |i: int| v),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn set_bit(&mut self, k: u64, v: bool)
            requires k < old(self).bits().len(),
            ensures final(self).bits() == old(self).bits().update(k as int, v),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn get_bit(&self, k: u64) -> (r: bool)
            requires k < self.bits().len(),
            ensures r == self.bits()[k as int],
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn clone(&self) -> (r: BitVector)
            ensures r.bits() == self.bits(),
        {
            unimplemented!()
        }
    }

    #[verifier::external_body]
    pub struct Rank9 { x: u64 }

    impl Rank9 {
        pub uninterp spec fn bits(&self) -> Seq<bool>;

        #[verifier::external_body]
        pub fn new(b: BitVector) -> (r: Rank9)
            ensures r.bits() == b.bits(),
        {
            unimplemented!()
        }

        // the number of set bits up to and including k
        #[verifier::external_body]
        pub fn rank1(&self, k: u64) -> (r: u64)
            requires k < self.bits().len(),
            ensures r == ones(self.bits(), k + 1),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn clone(&self) -> (r: Rank9)
            ensures r.bits() == self.bits(),
        {
            unimplemented!()
        }
    }

    #[verifier::external_body]
    pub struct BinSearchSelect { x: u64 }

    impl BinSearchSelect {
        pub uninterp spec fn bits(&self) -> Seq<bool>;

        #[verifier::external_body]
        pub fn new(b: Rank9) -> (r: BinSearchSelect)
            ensures r.bits() == b.bits(),
        {
            unimplemented!()
        }

        // the position of the set bit that has k set bits before it
        #[verifier::external_body]
        pub fn select1(&self, k: u64) -> (r: Option<u64>)
            ensures
                match r {
                    Some(q) => q < self.bits().len() && self.bits()[q as int] && ones(self.bits(), q as int) == k,
                    None => ones(self.bits(), self.bits().len() as int) <= k,
                },
        {
            unimplemented!()
        }
    }
}

pub proof fn ones_mono(b: Seq<bool>, i: int, j: int)
    requires 0 <= i <= j <= b.len(),
    ensures
        0 <= ones(b, i) <= ones(b, j) <= j,
        forall|x: int| i <= x < j && #[trigger] b[x] ==> ones(b, i) < ones(b, j),
    decreases j,
{
    if i < j {
        ones_mono(b, i, j - 1);
    } else if i > 0 {
        ones_mono(b, i - 1, i - 1);
        assert(ones(b, i) == ones(b, i - 1) + if b[i - 1] { 1int } else { 0 });
    }
}

} // verus!
