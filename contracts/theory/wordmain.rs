//@ needs fibword morph words kola debruijn stream
verus! {

spec fn word_order_ok(name: WordName, k: u8) -> bool {
    match name {
        WordName::BinaryDeBrujin => true,
        WordName::Tribonacci => trib(k as nat) <= usize::MAX,
        _ => k <= 60,
    }
}

// w is the word of that name and order
spec fn word_is(name: WordName, k: u8, w: Seq<u8>) -> bool {
    match name {
        WordName::Fibonacci => w == iterated(fib_m(), seq![97u8], k as nat),
        WordName::FibonacciLyndonFactor => w == iterated(fl_m(), seq![97u8, 98u8], k as nat),
        WordName::Tribonacci => w == iterated(trib_m(), seq![97u8], k as nat),
        WordName::Kolakoski => w == kola(k as nat),
        WordName::ThueMorse => w == thue_morse(k as nat),
        WordName::PeriodDoubling => w == period_doubling(k as nat),
        WordName::PaperFolding => w == paperfolding(pow2(k as nat + 1)),
        WordName::QuaternaryPaperFolding => w.len() == pow2(k as nat) && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == qfold_at(i as nat),
        WordName::BinaryDeBrujin => de_bruijn(ints(w), (k + 1) as nat),
        WordName::Power2 => w.len() == pow2(k as nat) && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == power2_at(i as nat),
        WordName::Vtm => w == iterated(vtm_m(), seq![97u8], k as nat),
    }
}

} // verus!
