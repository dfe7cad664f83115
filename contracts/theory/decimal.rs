verus! {

// decimal digits
pub open spec fn dec(n: int) -> Seq<u8>
    decreases n,
{
    if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
}

// a number that is printed in decimal
pub trait Shown: Sized {
    spec fn shown(self) -> int;
}
impl Shown for u8 { open spec fn shown(self) -> int { self as int } }
impl Shown for u16 { open spec fn shown(self) -> int { self as int } }
impl Shown for u32 { open spec fn shown(self) -> int { self as int } }
impl Shown for u64 { open spec fn shown(self) -> int { self as int } }
impl Shown for usize { open spec fn shown(self) -> int { self as int } }
impl Shown for i32 { open spec fn shown(self) -> int { self as int } }
impl Shown for i64 { open spec fn shown(self) -> int { self as int } }

} // verus!
