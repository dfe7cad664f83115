//@ needs stream
use vstd::arithmetic::power2::*;
verus! {

// ---- shifts
pub proof fn shl_u8(k: u8)
    requires k < 64,
    ensures (1usize << k) == pow2(k as nat), 0 < pow2(k as nat) <= usize::MAX,
{
    lemma_pow2_pos(k as nat);
    vstd::bits::lemma_usize_pow2_no_overflow(k as nat);
    vstd::bits::lemma_usize_shl_is_mul(1, k as usize);
    let kk = k as usize;
    assert((1usize << k) == (1usize << kk));
}

pub proof fn shl_i32(k: i32)
    requires 0 <= k < 64,
    ensures (1usize << k) == pow2(k as nat), 0 < pow2(k as nat) <= usize::MAX,
{
    lemma_pow2_pos(k as nat);
    vstd::bits::lemma_usize_pow2_no_overflow(k as nat);
    vstd::bits::lemma_usize_shl_is_mul(1, k as usize);
    let kk = k as usize;
    assert((1usize << k) == (1usize << kk));
}

pub proof fn shl3_u8(k: u8)
    requires k < 62,
    ensures (3usize << k) == 3 * pow2(k as nat), 0 < 4 * pow2(k as nat) <= usize::MAX + 1,
{
    lemma_pow2_pos(k as nat);
    lemma_pow2_unfold(k as nat + 1);
    lemma_pow2_unfold(k as nat + 2);
    if k < 61 { lemma_pow2_strictly_increases(k as nat + 2, 63); }
    lemma_pow2_unfold(64);
    vstd::bits::lemma_usize_pow2_no_overflow(63);
    assert(pow2(63) == 0x8000000000000000) by { lemma_pow2_63(); }
    vstd::bits::lemma_usize_shl_is_mul(3, k as usize);
    let kk = k as usize;
    assert((3usize << k) == (3usize << kk));
}

pub proof fn lemma_pow2_63()
    ensures pow2(63) == 0x8000000000000000,
{
    lemma2_to64();
    lemma2_to64_rest();
}

pub proof fn mask_i32(j: usize, k: i32)
    requires 0 <= k < 64,
    ensures (j & ((1usize << k) - 1) as usize) as int == j as int % pow2(k as nat) as int,
{
    shl_i32(k);
    vstd::bits::lemma_usize_low_bits_mask_is_mod(j, k as nat);
    reveal(vstd::bits::low_bits_mask);
}

pub proof fn pow2_step(k: nat)
    ensures pow2(k + 1) == 2 * pow2(k), pow2(k) >= 1,
{
    lemma_pow2_pos(k);
    lemma_pow2_unfold(k + 1);
}

pub proof fn pow2_zero()
    ensures pow2(0) == 1,
{
    lemma2_to64();
}

pub proof fn pow2_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}

// ---- Thue-Morse
pub open spec fn ones(i: nat) -> nat
    decreases i,
{
    if i == 0 { 0 } else { i % 2 + ones(i / 2) }
}

pub open spec fn tm_at(i: nat) -> u8 {
    if ones(i) % 2 == 0 { 97u8 } else { 98u8 }
}

pub proof fn ones_add(j: nat, i: nat)
    requires i < pow2(j),
    ensures ones(pow2(j) + i) == 1 + ones(i),
    decreases j,
{
    if j == 0 {
        pow2_zero();
        assert(ones(1) == 1) by { reveal_with_fuel(ones, 2); }
    } else {
        pow2_step((j - 1) as nat);
        let h = pow2((j - 1) as nat);
        ones_add((j - 1) as nat, i / 2);
        assert((2 * h + i) / 2 == h + i / 2);
        assert((2 * h + i) % 2 == i % 2);
    }
}

pub open spec fn thue_morse(k: nat) -> Seq<u8> {
    Seq::new(pow2(k), |i: int| tm_at(i as nat))
}

// ---- period doubling
pub open spec fn tz(i: nat) -> nat
    decreases i,
{
    if i == 0 || i % 2 == 1 { 0 } else { 1 + tz(i / 2) }
}

pub open spec fn pd_at(i: nat) -> u8 {
    if tz(i + 1) % 2 == 0 { 97u8 } else { 98u8 }
}

pub open spec fn period_doubling(k: nat) -> Seq<u8> {
    Seq::new(pow2(k), |i: int| pd_at(i as nat))
}

// ---- morphisms
pub type Morphism = spec_fn(u8) -> Seq<u8>;

pub open spec fn image(m: Morphism, s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { image(m, s.drop_last()) + m(s.last()) }
}

// the k-fold image of s
pub open spec fn iterated(m: Morphism, s: Seq<u8>, k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { s } else { image(m, iterated(m, s, (k - 1) as nat)) }
}

pub open spec fn does(f: spec_fn(u8, Seq<u8>) -> bool, m: Morphism) -> bool {
    forall|c: u8, r: Seq<u8>| #[trigger] f(c, r) ==> r == m(c)
}

pub proof fn image_step(m: Morphism, s: Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures image(m, upto(s, k + 1)) == image(m, upto(s, k)) + m(s[k]),
{
    upto_step(s, k);
}

pub proof fn image_cat(m: Morphism, a: Seq<u8>, b: Seq<u8>)
    ensures image(m, a + b) == image(m, a) + image(m, b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(image(m, a) + image(m, b) =~= image(m, a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        image_cat(m, a, b.drop_last());
        assert(image(m, a) + (image(m, b.drop_last()) + m(b.last())) =~= (image(m, a) + image(m, b.drop_last())) + m(b.last()));
    }
}

pub open spec fn uniform2(m: Morphism) -> bool {
    forall|c: u8| (#[trigger] m(c)).len() == 2
}

pub proof fn image2(m: Morphism, s: Seq<u8>)
    requires uniform2(m),
    ensures
        image(m, s).len() == 2 * s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] m(s[i])[0] == image(m, s)[2 * i] && m(s[i])[1] == image(m, s)[2 * i + 1],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        image2(m, p);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] m(s[i])[0] == image(m, s)[2 * i] && m(s[i])[1] == image(m, s)[2 * i + 1] by {
            if i < p.len() { assert(s[i] == p[i]); assert(m(p[i])[0] == image(m, p)[2 * i]); } 
        }
    }
}

// a word of length 2^k that starts with a and satisfies the recursion of a 2-uniform morphism
pub open spec fn fixed2(m: Morphism, t: Seq<u8>) -> bool {
    &&& t.len() > 0 && t[0] == 97u8
    &&& forall|i: int| 0 <= i && 2 * i + 1 < t.len() ==> #[trigger] m(t[i])[0] == t[2 * i] && m(t[i])[1] == t[2 * i + 1]
}

pub proof fn fixed2_iterated(m: Morphism, t: Seq<u8>, k: nat)
    requires uniform2(m), fixed2(m, t), pow2(k) <= t.len(),
    ensures upto(t, pow2(k) as int) == iterated(m, seq![97u8], k),
    decreases k,
{
    if k == 0 {
        pow2_zero();
        assert(upto(t, 1) =~= seq![97u8]);
    } else {
        pow2_step((k - 1) as nat);
        fixed2_iterated(m, t, (k - 1) as nat);
        let h = pow2((k - 1) as nat) as int;
        let p = upto(t, h);
        image2(m, p);
        assert forall|i: int| 0 <= i < 2 * h implies upto(t, 2 * h)[i] == image(m, p)[i] by {
            let q = i / 2;
            assert(p[q] == t[q]);
            assert(m(p[q])[0] == image(m, p)[2 * q]);
            assert(m(t[q])[0] == t[2 * q]);
        }
        assert(upto(t, 2 * h) =~= image(m, p));
    }
}

pub open spec fn pd_m() -> Morphism {
    |c: u8| if c == 97u8 { seq![97u8, 98u8] } else { seq![97u8, 97u8] }
}

pub open spec fn tm_m() -> Morphism {
    |c: u8| if c == 97u8 { seq![97u8, 98u8] } else { seq![98u8, 97u8] }
}

pub proof fn pd_fixed(k: nat)
    ensures fixed2(pd_m(), period_doubling(k)), uniform2(pd_m()), period_doubling(k) == iterated(pd_m(), seq![97u8], k),
{
    lemma_pow2_pos(k);
    let t = period_doubling(k);
    assert(tz(1) == 0);
    assert forall|i: int| 0 <= i && 2 * i + 1 < t.len() implies #[trigger] pd_m()(t[i])[0] == t[2 * i] && pd_m()(t[i])[1] == t[2 * i + 1] by {
        let n = i as nat;
        assert((2 * n + 1) % 2 == 1);
        assert(tz(2 * n + 1) == 0);
        assert((2 * n + 2) % 2 == 0 && (2 * n + 2) / 2 == n + 1);
        assert(tz(2 * n + 2) == 1 + tz(n + 1));
        assert(t[2 * i] == pd_at(2 * n));
        assert(t[2 * i + 1] == pd_at(2 * n + 1));
    }
    fixed2_iterated(pd_m(), t, k);
    upto_all(t);
}

pub proof fn tm_fixed(k: nat)
    ensures fixed2(tm_m(), thue_morse(k)), uniform2(tm_m()), thue_morse(k) == iterated(tm_m(), seq![97u8], k),
{
    lemma_pow2_pos(k);
    let t = thue_morse(k);
    assert(ones(0) == 0);
    assert forall|i: int| 0 <= i && 2 * i + 1 < t.len() implies #[trigger] tm_m()(t[i])[0] == t[2 * i] && tm_m()(t[i])[1] == t[2 * i + 1] by {
        let n = i as nat;
        assert((2 * n) / 2 == n && (2 * n) % 2 == 0 && (2 * n + 1) % 2 == 1 && (2 * n + 1) / 2 == n);
        assert(ones(2 * n) == ones(n));
        assert(ones(2 * n + 1) == 1 + ones(n));
    }
    fixed2_iterated(tm_m(), t, k);
    upto_all(t);
}

// ---- paperfolding
pub open spec fn odd_part(i: nat) -> nat
    decreases i,
{
    if i == 0 || i % 2 == 1 { i } else { odd_part(i / 2) }
}

// bit i of the regular paperfolding sequence
pub open spec fn fold_at(i: nat) -> bool {
    odd_part(i + 1) % 4 == 1
}

pub open spec fn paperfolding(n: nat) -> Seq<u8> {
    Seq::new(n, |i: int| if fold_at(i as nat) { 49u8 } else { 48u8 })
}

pub open spec fn quad(x: bool, y: bool) -> u8 {
    if x { if y { 100u8 } else { 99u8 } } else { if y { 98u8 } else { 97u8 } }
}

// first (0) and second (1) bit of a quaternary letter: a=00, b=01, c=10, d=11
pub open spec fn qbit(c: u8, w: int) -> u8 {
    if (w == 0 && (c == 99u8 || c == 100u8)) || (w == 1 && (c == 98u8 || c == 100u8)) { 49u8 } else { 48u8 }
}

pub open spec fn qfold_at(i: nat) -> u8 {
    quad(fold_at(2 * i), fold_at(2 * i + 1))
}

pub proof fn fold_rec(i: nat)
    ensures fold_at(2 * i) == (i % 2 == 0), fold_at(2 * i + 1) == fold_at(i),
{
    assert((2 * i + 1) % 2 == 1);
    assert((2 * i + 2) % 2 == 0 && (2 * i + 2) / 2 == i + 1);
    assert(odd_part(2 * i + 2) == odd_part(i + 1));
    if i % 2 == 0 { assert((2 * i + 1) % 4 == 1); } else { assert((2 * i + 1) % 4 == 3); }
}

// ---- powers of two
pub open spec fn is_pow2(i: int) -> bool {
    exists|e: nat| i == #[trigger] pow2(e)
}

pub open spec fn power2_at(i: nat) -> u8 {
    if is_pow2(i as int + 1) { 98u8 } else { 97u8 }
}

// j in (2^m, 2^(m+1)] (or j = 1 for m = 0) is a power of two exactly if its lowest m bits are zero
pub proof fn pow2_test(j: int, m: nat)
    requires 1 <= j <= pow2(m + 1), m > 0 ==> j > pow2(m),
    ensures is_pow2(j) <==> j % (pow2(m) as int) == 0,
{
    let h = pow2(m) as int;
    pow2_step(m);
    if is_pow2(j) {
        let e = choose|e: nat| j == #[trigger] pow2(e);
        if e > m + 1 { lemma_pow2_strictly_increases(m + 1, e); }
        if e < m { lemma_pow2_strictly_increases(e, m); }
        pow2_zero();
        assert(e == m || e == m + 1);
        assert((2 * h) % h == 0 && h % h == 0) by (nonlinear_arith) requires h > 0;
    }
    if j % h == 0 {
        let q = j / h;
        assert(j == q * h) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, h); assert(h * q == q * h) by (nonlinear_arith); }
        assert(q <= 2) by (nonlinear_arith) requires j == q * h, j <= 2 * h, h > 0;
        assert(q >= 1) by (nonlinear_arith) requires j == q * h, j >= 1, h > 0;
        if q == 1 {
            assert(q * h == h) by (nonlinear_arith) requires q == 1;
            assert(j == pow2(m));
        } else {
            assert(q * h == 2 * h) by (nonlinear_arith) requires q == 2;
            assert(j == pow2(m + 1));
        }
    }
}

} // verus!
