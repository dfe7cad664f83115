//@ needs morph
verus! {

// the length of the buffer, (fibonacci_number_estimate(k + 2) + 1.0) as usize + 1: Binet's formula in
// floating point. The contract is not proved but decided by evaluating the expression of the current source
// for every k that it allows (see @exhaustive in fibonacci_word.ov).
#[verifier::external_body]
pub fn fibonacci_length_bound(k: u8) -> (r: usize)
    requires k <= 60,
    ensures r > fib(k as nat + 2), r < 0x7fff_ffff_ffff_ffff,
{ unimplemented!() }

pub proof fn fib_60(k: nat)
    requires k <= 60,
    ensures fib(k + 3) < 0x7fff_ffff_ffff_ffff,
{
    fib_mono(k + 3, 63);
    fib_pow(61);
    pow2_mono(61, 62);
    pow2_step(62);
    lemma_pow2_63();
    pow2_step(61);
}

pub proof fn fib_pow(k: nat)
    ensures fib(k) <= pow2(k), fib(k + 1) <= pow2(k + 1), fib(k + 2) <= pow2(k + 1),
    decreases k,
{
    reveal_with_fuel(fib, 4);
    pow2_step(k);
    if k == 0 {
        pow2_zero();
    } else {
        fib_pow((k - 1) as nat);
    }
}

pub proof fn fib_small()
    ensures fib(0) == 0, fib(1) == 1, fib(2) == 1,
{
    reveal_with_fuel(fib, 4);
}

pub proof fn fib_step(k: nat)
    ensures fib(k + 2) == fib(k + 1) + fib(k), fib(k + 1) <= fib(k + 2),
{
    fib_mono(k + 1, k + 2);
}

// the output written behind t1[0..g1) for the input character t1[s1]
pub open spec fn fib_out(c: u8) -> Seq<u8> {
    if c == 97u8 { seq![98u8, 97u8] } else { seq![97u8] }
}

pub proof fn fib_word_write(t1: Seq<u8>, t2: Seq<u8>, s1: int, g1: int, g0: int)
    requires
        0 <= s1 < g1 <= t1.len(), 0 <= g0 <= g1, t1.len() == t2.len(),
        g1 + fib_out(t1[s1]).len() <= t2.len(),
        upto(t1, g1) == image(fib_m(), upto(t1, s1)).push(97u8),
        upto(t2, g1) == upto(t1, g1),
        t2.subrange(g1, g1 + fib_out(t1[s1]).len()) == fib_out(t1[s1]),
    ensures
        upto(t2, g1 + fib_out(t1[s1]).len()) == image(fib_m(), upto(t2, s1 + 1)).push(97u8),
        upto(t2, g0) == upto(t1, g0),
        s1 + 1 < g1 + fib_out(t1[s1]).len(),
{
    let m = fib_m();
    let x = fib_out(t1[s1]);
    let im = image(m, upto(t1, s1));
    image_step(m, t1, s1);
    assert(upto(t2, g0) =~= upto(upto(t2, g1), g0));
    assert(upto(t1, g0) =~= upto(upto(t1, g1), g0));
    assert(upto(t2, s1 + 1) =~= upto(upto(t2, g1), s1 + 1));
    assert(upto(t1, s1 + 1) =~= upto(upto(t1, g1), s1 + 1));
    assert(upto(t2, g1 + x.len()) =~= upto(t2, g1) + t2.subrange(g1, g1 + x.len()));
    assert(im.push(97u8) + x =~= (im + m(t1[s1])).push(97u8));
}

pub proof fn fib_word_round(t0: Seq<u8>, t: Seq<u8>, g0: int, z: Seq<u8>, source: int, target: int)
    requires
        t0.len() == t.len(), z.len() <= g0 <= target <= t.len(), 0 <= source < target,
        upto(t0, z.len() as int) == z,
        upto(t, g0) == upto(t0, g0),
        upto(t, target) == image(fib_m(), upto(t, source)).push(97u8),
        target >= image(fib_m(), z).len(),
    ensures
        upto(t, image(fib_m(), z).len() as int) == image(fib_m(), z),
{
    assert(upto(t, z.len() as int) =~= upto(upto(t, g0), z.len() as int));
    assert(upto(t0, z.len() as int) =~= upto(upto(t0, g0), z.len() as int));
    fib_word_step(t, source, target, z);
}

} // verus!
