verus! {

// The two traits of the num crate that the sources use, with their meaning for the primitive
// types: as_() is the `as` conversion, from_usize is the checked conversion.
mod num {
pub mod cast {
    use vstd::prelude::*;

    pub trait AsPrimitive<U>: Copy {
        spec fn as_spec(self) -> U;
        fn as_(self) -> (r: U)
            ensures r == self.as_spec();
    }

    pub trait FromPrimitive: Sized {
        spec fn from_spec(n: usize) -> Option<Self>;
        fn from_usize(n: usize) -> (r: Option<Self>)
            ensures r == Self::from_spec(n);
    }

    impl AsPrimitive<usize> for usize {
        open spec fn as_spec(self) -> usize { self }
        fn as_(self) -> (r: usize) { self }
    }
    impl AsPrimitive<usize> for u32 {
        open spec fn as_spec(self) -> usize { self as usize }
        fn as_(self) -> (r: usize) { self as usize }
    }
    impl AsPrimitive<usize> for i32 {
        open spec fn as_spec(self) -> usize { self as usize }
        fn as_(self) -> (r: usize) { self as usize }
    }
    impl FromPrimitive for usize {
        open spec fn from_spec(n: usize) -> Option<usize> { Some(n) }
        fn from_usize(n: usize) -> (r: Option<usize>) { Some(n) }
    }
    impl FromPrimitive for u32 {
        open spec fn from_spec(n: usize) -> Option<u32> { if n <= u32::MAX { Some(n as u32) } else { None } }
        fn from_usize(n: usize) -> (r: Option<u32>) { if n <= u32::MAX as usize { Some(n as u32) } else { None } }
    }
    impl FromPrimitive for i32 {
        open spec fn from_spec(n: usize) -> Option<i32> { if n <= i32::MAX { Some(n as i32) } else { None } }
        fn from_usize(n: usize) -> (r: Option<i32>) { if n <= i32::MAX as usize { Some(n as i32) } else { None } }
    }
}
}
use num::cast::*;

pub open spec fn idx<T: AsPrimitive<usize>>(s: Seq<T>) -> Seq<int> {
    Seq::new(s.len(), |i: int| s[i].as_spec() as int)
}

// T can hold every number below n, and converts back and forth
pub open spec fn holds<T: AsPrimitive<usize> + FromPrimitive>(n: int) -> bool {
    forall|i: usize| i < n ==> (#[trigger] T::from_spec(i)).is_some() && T::from_spec(i).unwrap().as_spec() == i
}

pub proof fn holds_prim(n: int)
    ensures
        holds::<usize>(n), n <= u32::MAX ==> holds::<u32>(n), n <= i32::MAX ==> holds::<i32>(n),
{
}

// a negative i32 becomes a huge index
pub proof fn i32_index(x: i32)
    requires x.as_spec() < 0x8000_0000,
    ensures 0 <= x, x.as_spec() == x, x as u32 as int == x,
{
    assert(x < 0 ==> (x as usize) >= 0x8000_0000usize) by (bit_vector);
}

pub proof fn i32_indices(s: Seq<i32>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] idx(s)[i] < 0x8000_0000,
    ensures
        forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
        idx(s) == Seq::new(s.len(), |i: int| s[i] as int),
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] && s[i].as_spec() == s[i] by {
        assert(idx(s)[i] < 0x8000_0000);
        i32_index(s[i]);
    }
    assert(idx(s) =~= Seq::new(s.len(), |i: int| s[i] as int));
}

} // verus!
