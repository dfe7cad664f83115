//@ needs words
verus! {

// the function f (passed as an argument) maps every letter c to m(c)
pub open spec fn is_morphism<F: Fn(u8) -> &'static [u8]>(f: F, m: Morphism) -> bool {
    &&& forall|c: u8| #[trigger] f.requires((c,))
    &&& forall|c: u8, r: &'static [u8]| #[trigger] f.ensures((c,), r) ==> r@ == m(c)
}

} // verus!
verus! {

// slice::to_vec copies every element
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> cloned(#[trigger] s@[i], r@[i]);

// iteration distributes over concatenation
pub proof fn iterated_cat(m: Morphism, a: Seq<u8>, b: Seq<u8>, k: nat)
    ensures iterated(m, a + b, k) == iterated(m, a, k) + iterated(m, b, k),
    decreases k,
{
    if k > 0 {
        iterated_cat(m, a, b, (k - 1) as nat);
        image_cat(m, iterated(m, a, (k - 1) as nat), iterated(m, b, (k - 1) as nat));
    }
}

pub proof fn iterated_shift(m: Morphism, s: Seq<u8>, k: nat)
    ensures iterated(m, image(m, s), k) == iterated(m, s, k + 1),
    decreases k,
{
    if k > 0 {
        iterated_shift(m, s, (k - 1) as nat);
    } else {
        assert(iterated(m, s, 0) == s);
        assert(iterated(m, s, 1) == image(m, iterated(m, s, 0)));
    }
}

pub proof fn image_one(m: Morphism, c: u8)
    ensures image(m, seq![c]) == m(c),
{
    assert(seq![c].drop_last() =~= Seq::<u8>::empty());
    assert(image(m, Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert(image(m, seq![c]) =~= m(c));
}

// letter by letter: the k+1-fold image of a letter with a two-letter image
pub proof fn iterated_letter(m: Morphism, c: u8, k: nat)
    ensures
        iterated(m, seq![c], k + 1) == iterated(m, m(c), k),
        m(c).len() == 2 ==> iterated(m, seq![c], k + 1) == iterated(m, seq![m(c)[0]], k) + iterated(m, seq![m(c)[1]], k),
        m(c).len() == 1 ==> iterated(m, seq![c], k + 1) == iterated(m, seq![m(c)[0]], k),
{
    image_one(m, c);
    iterated_shift(m, seq![c], k);
    if m(c).len() == 2 {
        assert(m(c) =~= seq![m(c)[0]] + seq![m(c)[1]]);
        iterated_cat(m, seq![m(c)[0]], seq![m(c)[1]], k);
    }
    if m(c).len() == 1 {
        assert(m(c) =~= seq![m(c)[0]]);
    }
}

pub open spec fn nonerasing(m: Morphism) -> bool {
    forall|c: u8| (#[trigger] m(c)).len() >= 1
}

pub proof fn image_len(m: Morphism, s: Seq<u8>)
    requires nonerasing(m),
    ensures image(m, s).len() >= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { image_len(m, s.drop_last()); }
}

// the first letter's image is a prefix
pub proof fn image_first(m: Morphism, s: Seq<u8>)
    requires nonerasing(m), s.len() > 0,
    ensures
        image(m, s).len() >= s.len() - 1 + m(s[0]).len(),
        upto(image(m, s), m(s[0]).len() as int) == m(s[0]),
{
    let a = seq![s[0]];
    let b = tail(s, 1);
    assert(s =~= a + b);
    image_cat(m, a, b);
    image_one(m, s[0]);
    image_len(m, b);
    assert(upto(image(m, s), m(s[0]).len() as int) =~= m(s[0]));
}

// images of prefixes are prefixes
pub proof fn image_prefix(m: Morphism, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        image(m, upto(s, k)).len() <= image(m, s).len(),
        upto(image(m, s), image(m, upto(s, k)).len() as int) == image(m, upto(s, k)),
        image(m, s) == image(m, upto(s, k)) + image(m, tail(s, k)),
{
    assert(s =~= upto(s, k) + tail(s, k));
    image_cat(m, upto(s, k), tail(s, k));
    assert(upto(image(m, s), image(m, upto(s, k)).len() as int) =~= image(m, upto(s, k)));
}

pub open spec fn fib_m() -> Morphism {
    |c: u8| if c == 97u8 { seq![97u8, 98u8] } else { seq![97u8] }
}

pub open spec fn trib_m() -> Morphism {
    |c: u8| if c == 97u8 { seq![97u8, 98u8] } else if c == 98u8 { seq![97u8, 99u8] } else { seq![97u8] }
}

pub open spec fn vtm_m() -> Morphism {
    |c: u8| if c == 97u8 { seq![97u8, 98u8, 99u8] } else if c == 98u8 { seq![97u8, 99u8] } else { seq![98u8] }
}

pub open spec fn fl_m() -> Morphism {
    |c: u8| if c == 97u8 { seq![97u8, 97u8, 98u8] } else { seq![97u8, 98u8] }
}

// ---- Fibonacci numbers F(0)=0, F(1)=1 and Tribonacci numbers T(0)=1, T(1)=2, T(2)=4
pub open spec fn fib(k: nat) -> nat
    decreases k,
{
    if k < 2 { k } else { fib((k - 1) as nat) + fib((k - 2) as nat) }
}

pub open spec fn trib(k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else { trib((k - 1) as nat) + trib((k - 2) as nat) + trib((k - 3) as nat) }
}

pub proof fn fib_mono(i: nat, j: nat)
    requires i <= j,
    ensures fib(i) <= fib(j),
    decreases j,
{
    if i < j {
        if j == 1 { } else { fib_mono(i, (j - 1) as nat); }
    }
}

pub proof fn trib_mono(i: nat, j: nat)
    requires i <= j,
    ensures trib(i) <= trib(j),
    decreases j,
{
    if i < j { trib_mono(i, (j - 1) as nat); }
}

pub proof fn fib_len(k: nat)
    ensures
        iterated(fib_m(), seq![97u8], k).len() == fib(k + 2),
        iterated(fib_m(), seq![98u8], k).len() == fib(k + 1),
    decreases k,
{
    if k == 0 {
        assert(fib(2) == 1) by { reveal_with_fuel(fib, 3); }
    } else {
        fib_len((k - 1) as nat);
        iterated_letter(fib_m(), 97u8, (k - 1) as nat);
        iterated_letter(fib_m(), 98u8, (k - 1) as nat);
    }
}

pub proof fn trib_len(k: nat)
    ensures
        iterated(trib_m(), seq![97u8], k).len() == trib(k),
        iterated(trib_m(), seq![98u8], k).len() == (if k == 0 { 1 } else if k == 1 { 2 } else { trib((k - 1) as nat) + trib((k - 2) as nat) }),
        iterated(trib_m(), seq![99u8], k).len() == (if k == 0 { 1 } else { trib((k - 1) as nat) }),
    decreases k,
{
    reveal_with_fuel(trib, 4);
    if k > 0 {
        trib_len((k - 1) as nat);
        iterated_letter(trib_m(), 97u8, (k - 1) as nat);
        iterated_letter(trib_m(), 98u8, (k - 1) as nat);
        iterated_letter(trib_m(), 99u8, (k - 1) as nat);
    }
}

// ---- the Fibonacci word algorithm appends with a -> ba, b -> a behind a leading a
pub proof fn fib_word_step(text: Seq<u8>, source: int, target: int, z: Seq<u8>)
    requires
        0 <= source <= target <= text.len(),
        upto(text, target) == image(fib_m(), upto(text, source)).push(97u8),
        z.len() <= text.len(), upto(text, z.len() as int) == z,
        target >= image(fib_m(), z).len(),
    ensures
        upto(text, image(fib_m(), z).len() as int) == image(fib_m(), z),
{
    let m = fib_m();
    let u = upto(text, source);
    let n = image(m, z).len() as int;
    if source >= z.len() {
        assert(upto(u, z.len() as int) =~= z);
        image_prefix(m, u, z.len() as int);
        assert(upto(text, n) =~= upto(upto(text, target), n));
        assert(upto(upto(text, target), n) =~= upto(image(m, u), n));
    } else {
        assert(u =~= upto(z, source));
        image_prefix(m, z, source);
        let r = tail(z, source);
        image_first(m, r);
        assert(image(m, r)[0] == 97u8) by { assert(upto(image(m, r), m(r[0]).len() as int)[0] == image(m, r)[0]); }
        assert(upto(text, target).len() == target);
        assert(image(m, u).len() + 1 == target);
        assert(image(m, z).len() >= target);
        assert(image(m, z) =~= upto(text, n)) by {
            assert forall|i: int| 0 <= i < n implies image(m, z)[i] == upto(text, n)[i] by {
                assert(upto(text, target)[i] == text[i]);
            }
        }
    }
}

} // verus!
