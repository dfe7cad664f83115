use vstd::arithmetic::power2::*;
use vstd::bits::*;
use vstd::layout::*;
use vstd::std_specs::bits::*;
verus! {

// ---- the generator of test texts

// the number of binary digits
pub open spec fn nbits(i: nat) -> nat
    decreases i,
{
    if i == 0 { 0 } else { 1 + nbits(i / 2) }
}

// a usize has 8 bytes (64-bit machines)
pub axiom fn usize_bytes(x: &usize)
    ensures spec_size_of_val(x) == 8;

// assumed contract of the standard library
pub assume_specification[ usize::leading_zeros ](i: usize) -> (r: u32)
    ensures r == u64_leading_zeros(i as u64),
    no_unwind
;

// the branch that draws random letters: the obligation is that it is never reached
#[verifier::external_body]
pub fn unreached_text() -> (r: Vec<u8>)
    requires false,
{
    unimplemented!()
}

// the digit q of i to the base 2^l (q = 0 is the least significant one)
pub open spec fn digit(i: nat, l: nat, q: nat) -> int {
    (i as int / pow2(l * q) as int) % (pow2(l) as int)
}

// number of letters of the text of i
pub open spec fn letters(i: nat, l: nat) -> int {
    let k = nbits(i) as int / l as int;
    if k >= 1 { k - 1 } else { 0 }
}

// the text of the number i: its digits from the second one to the last but one complete one, plus 1,
// and a zero
pub open spec fn rs_text(i: nat, l: nat) -> Seq<u8> {
    Seq::new(letters(i, l) as nat, |j: int| (digit(i, l, (j + 1) as nat) + 1) as u8).push(0u8)
}

impl RandomStringGenerator {
    pub closed spec fn from(&self) -> int { self.m_range.start as int }
    pub closed spec fn to(&self) -> int { self.m_range.end as int }
    pub closed spec fn log(&self) -> nat { self.m_log_alphabet_size as nat }
}

pub open spec fn rs_wf(s: int, e: int, l: nat) -> bool {
    1 <= l <= 7 && 0 <= s < 0x8000_0000_0000_0000 && 0 <= e <= 0x8000_0000_0000_0000
}

// one call of next
pub open spec fn rs_step(s: int, s2: int, e: int, l: nat, item: Option<Seq<u8>>) -> bool {
    if 2 * s < e { s2 == s + 1 && item == Some(rs_text((s + 1) as nat, l)) } else { s2 == s && item is None }
}

// every text is over the letters 1..=2^l and ends with its only zero
pub proof fn rs_text_ends(i: nat, l: nat)
    requires 1 <= l <= 7,
    ensures
        rs_text(i, l).last() == 0,
        forall|j: int| 0 <= j < rs_text(i, l).len() - 1 ==> 1 <= #[trigger] rs_text(i, l)[j] <= pow2(l),
{
    lemma_pow2_pos(l);
    lemma_pow2_strictly_increases(l, 8);
    lemma2_to64();
    assert forall|j: int| 0 <= j < rs_text(i, l).len() - 1 implies 1 <= #[trigger] rs_text(i, l)[j] <= pow2(l) by {
        let d = digit(i, l, (j + 1) as nat);
        assert(0 <= d < pow2(l)) by (nonlinear_arith)
            requires d == (i as int / pow2(l * ((j + 1) as nat)) as int) % (pow2(l) as int), pow2(l) > 0;
    }
}

// leading zeros and the number of digits
pub proof fn nbits_shift(i: u64, b: u64)
    requires
        b <= 64,
        b == 0 ==> i == 0,
        b > 0 ==> i >> ((b - 1) as u64) == 1,
    ensures nbits(i as nat) == b,
    decreases b,
{
    if b == 0 {
    } else if b == 1 {
        assert(i >> 0u64 == i) by (bit_vector);
        assert(nbits(0) == 0);
        assert(1nat / 2 == 0);
        assert(nbits(1) == 1 + nbits(1nat / 2));
    } else {
        let h = i / 2;
        let c = (b - 2) as u64;
        let d = (b - 1) as u64;
        assert(i / 2 == i >> 1u64) by (bit_vector);
        assert((i >> 1u64) >> c == i >> d) by (bit_vector) requires d == add(c, 1), c < 63;
        assert(i != 0) by {
            assert(0u64 >> d == 0) by (bit_vector);
        }
        nbits_shift(h, (b - 1) as u64);
        assert((i as nat) / 2 == h as nat);
    }
}

pub proof fn nbits_lead(i: u64)
    ensures u64_leading_zeros(i) <= 64, nbits(i as nat) == 64 - u64_leading_zeros(i),
{
    axiom_u64_leading_zeros(i);
    let z = u64_leading_zeros(i);
    if i == 0 {
        assert(nbits(0) == 0);
    } else {
        let s = (63 - z) as u64;
        let s1 = (64 - z) as u64;
        assert(z < 64);
        assert(s == sub(63u64, z as u64));
        assert((i >> s) & 1u64 != 0u64);
        assert((i >> s) & 1u64 == 1u64) by (bit_vector) requires (i >> s) & 1u64 != 0u64;
        if z == 0 {
            assert(i >> 63u64 == 0 || i >> 63u64 == 1) by (bit_vector);
            assert(i >> 63u64 == 1) by {
                assert(0u64 & 1u64 == 0) by (bit_vector);
            }
        } else {
            assert(i >> s1 == 0);
            assert(i >> s == 1) by (bit_vector) requires (i >> s) & 1 == 1, i >> s1 == 0, s1 == add(s, 1), s1 < 64;
        }
        nbits_shift(i, s1);
    }
}

// the mask of the l low bits, written either way
pub proof fn low_mask(l: u8)
    requires 1 <= l <= 7,
    ensures
        (1usize << l) >= 2,
        (1u64 << l) >= 2,
        sub(1usize << l, 1) == usize::MAX >> ((64 - l) as u8),
        ((1usize << l) - 1) as usize == usize::MAX >> ((64 - l) as u8),
{
    let r = (64 - l) as u8;
    assert(1usize << l >= 2) by (bit_vector) requires 1 <= l <= 7;
    assert(1u64 << l >= 2) by (bit_vector) requires 1 <= l <= 7;
    assert(sub(1usize << l, 1) == usize::MAX >> r) by (bit_vector) requires r == sub(64u8, l), 1 <= l <= 7;
}

// a digit by shifting and masking
pub proof fn digit_shift(i: u64, l: u64, q: u64)
    requires 1 <= l <= 7, l * q < 64,
    ensures
        ((i >> ((l * q) as u64)) & (u64::MAX >> ((64 - l) as u64))) == digit(i as nat, l as nat, q as nat),
        0 <= digit(i as nat, l as nat, q as nat) < 128,
{
    let s = (l * q) as u64;
    lemma_u64_shr_is_div(i, s);
    let x = i >> s;
    let m = u64::MAX >> ((64 - l) as u64);
    lemma_u64_pow2_no_overflow(l as nat);
    lemma_u64_shl_is_mul(1u64, l);
    let r = (64 - l) as u64;
    assert(u64::MAX >> r == sub(1u64 << l, 1)) by (bit_vector) requires r == sub(64, l), 1 <= l <= 7;
    lemma_pow2_pos(l as nat);
    assert(m == low_bits_mask(l as nat)) by {
        reveal(low_bits_mask);
    }
    lemma_u64_low_bits_mask_is_mod(x, l as nat);
    lemma_pow2_strictly_increases(l as nat, 8);
    lemma2_to64();
    assert(pow2(l as nat) <= 128) by {
        if l < 7 {
            lemma_pow2_strictly_increases(l as nat, 7);
        }
    }
    let d = digit(i as nat, l as nat, q as nat);
    assert(0 <= d < pow2(l as nat)) by (nonlinear_arith)
        requires d == (i as int / pow2(l as nat * q as nat) as int) % (pow2(l as nat) as int), pow2(l as nat) > 0;
}

} // verus!
