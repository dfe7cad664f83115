verus! {

// s is a text without the character 0, followed by a single 0
pub open spec fn with_sentinel(s: Seq<int>) -> bool {
    &&& s.len() >= 1
    &&& s[s.len() - 1] == 0
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] > 0
}

} // verus!
