verus! {

// v is the smallest of a[l..r)
pub open spec fn is_min64(a: Seq<u64>, l: int, r: int, v: u64) -> bool {
    &&& forall|x: int| l <= x < r ==> #[trigger] a[x] >= v
    &&& exists|x: int| l <= x < r && #[trigger] a[x] == v
}

// crate segment_tree (assumed contracts), values of type u64
mod segment_tree {
    use vstd::prelude::*;
    use crate::is_min64;

    pub mod ops {
        pub struct Min;
    }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(O)]
    pub struct SegmentPoint<T, O> { x: core::marker::PhantomData<(T, O)> }

    impl SegmentPoint<u64, ops::Min> {
        pub uninterp spec fn vals(&self) -> Seq<u64>;

        #[verifier::external_body]
        pub fn build(v: Vec<u64>, op: ops::Min) -> (r: SegmentPoint<u64, ops::Min>)
            ensures r.vals() == v@,
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn query(&self, l: usize, r: usize) -> (v: u64)
            requires l < r <= self.vals().len(),
            ensures is_min64(self.vals(), l as int, r as int, v),
        {
            unimplemented!()
        }
    }
}

} // verus!
