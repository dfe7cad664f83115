//@ needs keys
verus! {

// Library functions the verifier has no contract for. slice_any / slice_position are implemented
// and verified here; that the iterator adaptors they stand for behave the same is an assumption.
pub fn slice_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&(#[trigger] s@[i]),)),
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&(#[trigger] s@[i]),), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&(#[trigger] s@[i]),), false),
{
    for i in 0..s.len()
        invariant
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&(#[trigger] s@[i]),)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&(#[trigger] s@[j]),), false),
    {
        if f(&s[i]) {
            return true;
        }
    }
    false
}

pub fn slice_position<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&(#[trigger] s@[i]),)),
    ensures
        match r {
            Some(k) => k < s@.len() && call_ensures(f, (&s@[k as int],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&(#[trigger] s@[i]),), false),
            None => forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&(#[trigger] s@[i]),), false),
        },
{
    for i in 0..s.len()
        invariant
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&(#[trigger] s@[i]),)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&(#[trigger] s@[j]),), false),
    {
        if f(&s[i]) {
            return Some(i);
        }
    }
    None
}

// == on Ordering (the derived comparison of the enum)
pub fn ord_is(a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b),
{
    match (a, b) {
        (Ordering::Less, Ordering::Less) => true,
        (Ordering::Equal, Ordering::Equal) => true,
        (Ordering::Greater, Ordering::Greater) => true,
        _ => false,
    }
}

// le is a total preorder on the elements that satisfy dom
pub open spec fn preorder<T>(dom: spec_fn(T) -> bool, le: spec_fn(T, T) -> bool) -> bool {
    &&& forall|a: T, b: T| dom(a) && dom(b) ==> #[trigger] le(a, b) || le(b, a)
    &&& forall|a: T, b: T, c: T| dom(a) && dom(b) && dom(c) && #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c)
}

// what the comparison function says about the preorder
pub open spec fn says<T>(le: spec_fn(T, T) -> bool, a: T, b: T, o: Ordering) -> bool {
    &&& o == Ordering::Less ==> le(a, b) && !le(b, a)
    &&& o == Ordering::Equal ==> le(a, b) && le(b, a)
    &&& o == Ordering::Greater ==> le(b, a) && !le(a, b)
}

// slice::sort_by: with a comparison function that decides a total preorder, the result is a sorted
// rearrangement (assumed contract of the standard library)
#[verifier::external_body]
pub fn sort_by_spec<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, dom: Ghost<spec_fn(T) -> bool>, le: Ghost<spec_fn(T, T) -> bool>)
    requires
        preorder(dom@, le@),
        forall|i: int| 0 <= i < old(v)@.len() ==> (dom@)(#[trigger] old(v)@[i]),
        forall|a: &T, b: &T| (dom@)(*a) && (dom@)(*b) ==> #[trigger] call_requires(f, (a, b)),
        forall|a: &T, b: &T, o: Ordering| (dom@)(*a) && (dom@)(*b) && #[trigger] call_ensures(f, (a, b), o) ==> says(le@, *a, *b, o),
    ensures
        final(v)@.len() == old(v)@.len(),
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (le@)(#[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{
    v.sort_by(|a, b| f(a, b))
}

// s.iter().map(f).collect()
pub fn map_collect<T, U, F: Fn(&T) -> U>(s: &[T], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&(#[trigger] s@[i]),)),
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), #[trigger] r@[i]),
{
    let mut r: Vec<U> = Vec::new();
    for i in 0..s.len()
        invariant
            r@.len() == i,
            forall|j: int| 0 <= j < s@.len() ==> call_requires(f, (&(#[trigger] s@[j]),)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&s@[j],), #[trigger] r@[j]),
    {
        r.push(f(&s[i]));
    }
    r
}

} // verus!
