//@ needs words
verus! {

// the length of the buffer, (kolakoski_length_estimate(k + 2) + 1.0) as usize + 1 with
// kolakoski_length_estimate(k) = 2.0^k. The contract is not proved but decided by evaluating the expression of
// the current source for every k that it allows (see @exhaustive in kolakoski_word.ov).
#[verifier::external_body]
pub fn kolakoski_length_bound(k: u8) -> (r: usize)
    requires k <= 60,
    ensures r >= pow2(k as nat + 2) + 1, r < 0x7fff_ffff_ffff_ffff,
{ unimplemented!() }

// Vec::set_len to a length that has been written
#[verifier::external_body]
pub fn vec_set_len(v: &mut Vec<u8>, n: usize)
    requires n <= old(v).len(),
    ensures final(v)@ == upto(old(v)@, n as int),
{ unimplemented!() }

pub open spec fn run_letter(i: int) -> u8 {
    if i % 2 == 0 { 98u8 } else { 97u8 }
}

pub open spec fn run_length(c: u8) -> int {
    if c == 97u8 { 1 } else { 2 }
}

// the first s runs described by w: alternating letters, starting with b; a stands for 1 and b for 2.
// Neighbouring runs have different letters, so they are the maximal runs.
pub open spec fn runs_of(w: Seq<u8>, s: int) -> Seq<u8>
    decreases s,
{
    if s <= 0 { Seq::empty() } else { runs_of(w, s - 1) + rep(run_letter(s - 1), run_length(w[s - 1])) }
}

pub open spec fn kola(k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { seq![98u8, 98u8] } else { let w = kola((k - 1) as nat); runs_of(w, w.len() as int) }
}

pub proof fn runs_of_local(v: Seq<u8>, w: Seq<u8>, s: int)
    requires 0 <= s <= v.len(), s <= w.len(), upto(v, s) == upto(w, s),
    ensures runs_of(v, s) == runs_of(w, s),
    decreases s,
{
    if s > 0 {
        assert(upto(v, s - 1) =~= upto(upto(v, s), s - 1));
        assert(upto(w, s - 1) =~= upto(upto(w, s), s - 1));
        assert(upto(v, s)[s - 1] == v[s - 1] && upto(w, s)[s - 1] == w[s - 1]);
        runs_of_local(v, w, s - 1);
    }
}

pub proof fn runs_of_len(w: Seq<u8>, s: int)
    requires 1 <= s <= w.len(), w[0] == 98u8,
    ensures
        s + 1 <= runs_of(w, s).len() <= 2 * s,
        runs_of(w, s).last() == run_letter(s - 1),
        runs_of(w, s)[0] == 98u8, runs_of(w, s)[1] == 98u8,
        forall|i: int| 0 <= i < runs_of(w, s).len() ==> #[trigger] runs_of(w, s)[i] == 97u8 || runs_of(w, s)[i] == 98u8,
    decreases s,
{
    if s > 1 {
        runs_of_len(w, s - 1);
    } else {
        assert(runs_of(w, 0) =~= Seq::empty());
        assert(runs_of(w, 1) =~= rep(98u8, 2));
    }
}

pub proof fn runs_of_mono(w: Seq<u8>, s: int, t: int)
    requires 0 <= s <= t <= w.len(),
    ensures
        runs_of(w, s).len() <= runs_of(w, t).len(),
        runs_of(w, s) == upto(runs_of(w, t), runs_of(w, s).len() as int),
    decreases t,
{
    if s < t {
        runs_of_mono(w, s, t - 1);
        assert(runs_of(w, s) =~= upto(runs_of(w, t), runs_of(w, s).len() as int)) by {
            let n = runs_of(w, s).len() as int;
            assert forall|i: int| 0 <= i < n implies runs_of(w, s)[i] == runs_of(w, t)[i] by {
                assert(upto(runs_of(w, t - 1), n)[i] == runs_of(w, t - 1)[i]);
            }
        }
    } else {
        upto_all(runs_of(w, s));
    }
}

// every word is self-describing (its runs are given by its own characters), a prefix of the next
// one, and at most twice as long
pub proof fn kola_prefix(k: nat)
    ensures
        kola(k).len() >= 2, kola(k)[0] == 98u8, kola(k)[1] == 98u8, kola(k).len() <= pow2(k + 1),
        forall|i: int| 0 <= i < kola(k).len() ==> #[trigger] kola(k)[i] == 97u8 || kola(k)[i] == 98u8,
        kola(k).len() < kola(k + 1).len(), kola(k) == upto(kola(k + 1), kola(k).len() as int),
        exists|s: int| 1 <= s < kola(k).len() && kola(k) == #[trigger] runs_of(kola(k), s),
    decreases k,
{
    let w = kola(k);
    let n = w.len() as int;
    pow2_zero();
    pow2_step(k);
    if k == 0 {
        runs_of_len(w, 1);
        assert(runs_of(w, 0) =~= Seq::empty());
        assert(runs_of(w, 1) =~= w);
        runs_of_mono(w, 1, 2);
    } else {
        kola_prefix((k - 1) as nat);
        let v = kola((k - 1) as nat);
        let m = v.len() as int;
        runs_of_len(v, m);
        assert(upto(v, m) =~= v);
        runs_of_local(v, w, m);
        runs_of_mono(w, m, n);
        assert(w == runs_of(w, m));
    }
    runs_of_len(w, n);
}

pub proof fn kola_write(u: Seq<u8>, t: Seq<u8>, s1: int, g1: int, z1: int, r: nat)
    requires
        1 <= s1 < z1 <= g1 <= u.len(), u.len() == t.len(), u[0] == 98u8,
        upto(u, g1) == runs_of(u, s1),
        upto(u, z1) == kola(r),
        upto(t, g1) == upto(u, g1),
        g1 + run_length(u[s1]) <= t.len(),
        t.subrange(g1, g1 + run_length(u[s1])) == rep(run_letter(s1), run_length(u[s1])),
    ensures
        t[0] == 98u8,
        upto(t, g1 + run_length(u[s1])) == runs_of(t, s1 + 1),
        upto(t, z1) == kola(r),
        s1 + 2 <= g1 + run_length(u[s1]) <= 2 * s1 + 2,
        s1 + 1 == z1 ==> upto(t, g1 + run_length(u[s1])) == kola(r + 1),
{
    let target = g1 + run_length(u[s1]);
    assert(t[s1] == u[s1]) by { assert(upto(t, g1)[s1] == t[s1]); assert(upto(u, g1)[s1] == u[s1]); }
    assert(t[0] == u[0]) by { assert(upto(t, g1)[0] == t[0]); assert(upto(u, g1)[0] == u[0]); }
    assert(upto(t, s1) =~= upto(upto(t, g1), s1));
    assert(upto(u, s1) =~= upto(upto(u, g1), s1));
    runs_of_local(u, t, s1);
    assert(upto(t, target) =~= upto(t, g1) + t.subrange(g1, target));
    assert(upto(t, z1) =~= upto(upto(t, g1), z1));
    assert(upto(u, z1) =~= upto(upto(u, g1), z1));
    runs_of_len(t, s1 + 1);
    assert(upto(t, target).len() == target);
    if s1 + 1 == z1 {
        let w = kola(r);
        assert(w.len() == z1);
        assert(upto(w, z1) =~= upto(t, z1));
        runs_of_local(t, w, z1);
    }
}

} // verus!
