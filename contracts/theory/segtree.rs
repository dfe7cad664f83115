//@ needs minof
verus! {

// crate segment_tree (assumed contracts)
mod segment_tree {
    use vstd::prelude::*;
    use crate::is_min;

    pub mod ops {
        pub struct Min;
    }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(O)]
    pub struct SegmentPoint<T, O> { x: core::marker::PhantomData<(T, O)> }

    impl SegmentPoint<u32, ops::Min> {
        pub uninterp spec fn vals(&self) -> Seq<u32>;

        #[verifier::external_body]
        pub fn build(v: Vec<u32>, op: ops::Min) -> (r: SegmentPoint<u32, ops::Min>)
            ensures r.vals() == v@,
        {
            unimplemented!()
        }

        // the minimum of a nonempty range
        #[verifier::external_body]
        pub fn query(&self, l: usize, r: usize) -> (v: u32)
            requires l < r <= self.vals().len(),
            ensures is_min(self.vals(), l as int, r as int, v),
        {
            unimplemented!()
        }
    }
}
use segment_tree::SegmentPoint;
use segment_tree::ops::Min;

} // verus!
