#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::multiset::*;
use std::cmp::Ordering;

verus! {

// the platform of this sandbox: 64 bit
global size_of usize == 8;

// an assertion of the program is an obligation: it never fires
fn runtime_assert(b: bool)
    requires b,
{
}

// unreachable!() / panic!() is an obligation: it is never reached
fn runtime_unreachable() -> (r: !)
    requires false,
    opens_invariants none
{
    loop invariant false, decreases 0int { }
}

pub open spec fn ord_of(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

pub open spec fn clamp(lo: int, x: int, hi: int) -> int {
    if x < lo { lo } else if x > hi { hi } else { x }
}

} // verus!
