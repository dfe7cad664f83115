//@ needs digits env
verus! {

// what is left of a generator (crate generator): the values it yields, in this order
pub struct Scope {
    pub ghost_items: Ghost<Seq<Vec<u8>>>,
}

impl Scope {
    pub open spec fn yielded(&self) -> Seq<Vec<u8>> { self.ghost_items@ }

    pub fn start() -> (r: Scope)
        ensures r.yielded() == Seq::<Vec<u8>>::empty(),
    {
        Scope { ghost_items: Ghost(Seq::empty()) }
    }

    // stands for yield_
    pub fn yield_(&mut self, x: Vec<u8>)
        ensures final(self).yielded() == old(self).yielded().push(x),
    {
        self.ghost_items = Ghost(self.ghost_items@.push(x));
    }

    // stands for iterating over the generator
    #[verifier::external_body]
    pub fn values(self) -> (r: Vec<Vec<u8>>)
        ensures r@ == self.yielded(),
    { unimplemented!() }
}

// usize::pow
#[verifier::external_body]
pub fn usize_pow(b: usize, e: u32) -> (r: usize)
    requires pw(b as int, e as nat) <= usize::MAX,
    ensures r == pw(b as int, e as nat),
{ unimplemented!() }

// str::from_utf8(..).unwrap() on ASCII
#[verifier::external_body]
pub fn ascii_string(v: &[u8]) -> (r: Vec<u8>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128,
    ensures r@ == v@,
{ unimplemented!() }

pub open spec fn bviews(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> {
    Seq::new(s.len(), |i: int| s[i]@)
}

// the letters 'a', 'b', ... for a word, first letter = least significant digit
pub open spec fn kmer(b: int, m: nat, r: int) -> Seq<u8> {
    Seq::new(m, |i: int| (97 + word_nr(b, m, r)[m - 1 - i]) as u8)
}

pub open spec fn kmers(b: int, m: nat, k: int) -> Seq<Seq<u8>> {
    Seq::new(k as nat, |r: int| kmer(b, m, r))
}

// the number that is left when the i last digits of r are taken off
pub open spec fn shifted(b: int, r: int, i: nat) -> int
    decreases i,
{
    if i == 0 { r } else { shifted(b, r, (i - 1) as nat) / b }
}

pub proof fn shifted_front(b: int, r: int, i: nat)
    ensures shifted(b, r, i + 1) == shifted(b, r / b, i),
    decreases i,
{
    reveal_with_fuel(shifted, 3);
    if i > 0 { shifted_front(b, r, (i - 1) as nat); }
}

pub proof fn kmer_digit(b: int, m: nat, r: int, i: nat)
    requires i < m,
    ensures word_nr(b, m, r).len() == m, word_nr(b, m, r)[m - 1 - i] == shifted(b, r, i) % b,
    decreases m,
{
    word_nr_len(b, m, r);
    if i > 0 {
        kmer_digit(b, (m - 1) as nat, r / b, (i - 1) as nat);
        shifted_front(b, r, (i - 1) as nat);
    }
}

pub proof fn word_nr_len(b: int, m: nat, r: int)
    ensures word_nr(b, m, r).len() == m,
    decreases m,
{
    if m > 0 { word_nr_len(b, (m - 1) as nat, r / b); }
}

// every string over the letters is listed exactly once
pub proof fn kmers_complete(b: int, m: nat, t: Seq<u8>)
    requires
        1 <= b <= 26, t.len() == m,
        forall|i: int| 0 <= i < m ==> 97 <= #[trigger] t[i] < 97 + b,
    ensures
        exists|r: int| 0 <= r < pw(b, m) && #[trigger] kmer(b, m, r) == t,
        forall|r: int, q: int| 0 <= r < pw(b, m) && 0 <= q < pw(b, m) && #[trigger] kmer(b, m, r) == t && #[trigger] kmer(b, m, q) == t ==> r == q,
{
    let w = Seq::new(m, |i: int| t[m - 1 - i] as int - 97);
    assert(digits(w, b)) by {
        assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] w[i] < b by { assert(97 <= t[m - 1 - i] < 97 + b); }
    }
    val_range(w, b);
    val_word(w, b);
    let r0 = val(w, b);
    assert(kmer(b, m, r0) =~= t) by {
        assert forall|i: int| 0 <= i < m implies #[trigger] kmer(b, m, r0)[i] == t[i] by { assert(w[m - 1 - i] == t[i] - 97); }
    }
    assert forall|r: int, q: int| 0 <= r < pw(b, m) && 0 <= q < pw(b, m) && #[trigger] kmer(b, m, r) == t && #[trigger] kmer(b, m, q) == t implies r == q by {
        kmer_word(b, m, r, w, t);
        kmer_word(b, m, q, w, t);
    }
}

proof fn kmer_word(b: int, m: nat, r: int, w: Seq<int>, t: Seq<u8>)
    requires 1 <= b <= 26, 0 <= r < pw(b, m), kmer(b, m, r) == t, t.len() == m, w == Seq::new(m, |i: int| t[m - 1 - i] as int - 97),
    ensures r == val(w, b),
{
    word_val(b, m, r);
    let v = word_nr(b, m, r);
    assert forall|i: int| 0 <= i < m implies v[i] == w[i] by {
        assert(kmer(b, m, r)[m - 1 - i] == (97 + v[i]) as u8);
        assert(t[m - 1 - i] == (97 + v[i]) as u8);
    }
    assert(v =~= w);
}

} // verus!
