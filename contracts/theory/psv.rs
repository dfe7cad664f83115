verus! {

// r is the previous smaller value entry of position i
pub open spec fn is_psv(s: Seq<int>, i: int, r: u32) -> bool {
    ||| (r == u32::MAX && forall|j: int| 0 <= j < i ==> #[trigger] s[j] >= s[i])
    ||| (r < i && s[r as int] < s[i] && forall|j: int| r < j < i ==> #[trigger] s[j] >= s[i])
}

pub open spec fn is_nsv(s: Seq<int>, i: int, r: u32) -> bool {
    ||| (r == u32::MAX && forall|j: int| i < j < s.len() ==> #[trigger] s[j] >= s[i])
    ||| (i < r < s.len() && s[r as int] < s[i] && forall|j: int| i < j < r ==> #[trigger] s[j] >= s[i])
}

} // verus!
