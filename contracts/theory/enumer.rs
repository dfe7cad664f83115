//@ needs digits env
verus! {

// the letters 'a', 'b', ...
pub open spec fn letters(w: Seq<int>) -> Seq<char> {
    Seq::new(w.len(), |i: int| (97 + w[i]) as char)
}

pub open spec fn views(s: Seq<Vec<char>>) -> Seq<Seq<char>> {
    Seq::new(s.len(), |i: int| s[i]@)
}

// the words of length m over b letters with the numbers below k
pub open spec fn listing(b: int, m: nat, k: int) -> Seq<Seq<char>> {
    Seq::new(k as nat, |r: int| letters(word_nr(b, m, r)))
}

// all lengths from lo to hi - 1
pub open spec fn listings(b: int, lo: int, hi: int) -> Seq<Seq<char>>
    decreases hi - lo,
{
    if lo >= hi { Seq::empty() } else { listings(b, lo, hi - 1) + listing(b, (hi - 1) as nat, pw(b, (hi - 1) as nat)) }
}

pub open spec fn uints(v: Seq<usize>) -> Seq<int> {
    Seq::new(v.len(), |i: int| v[i] as int)
}

// every word over the letters is listed exactly once, in lexicographic order
pub proof fn enum_complete(b: int, m: nat, w: Seq<int>)
    requires b >= 1, digits(w, b), w.len() == m,
    ensures
        0 <= val(w, b) < pw(b, m), word_nr(b, m, val(w, b)) == w,
        forall|r: int| 0 <= r < pw(b, m) && r != val(w, b) ==> #[trigger] word_nr(b, m, r) != w,
        forall|r: int| 0 <= r < pw(b, m) ==> (lexw(#[trigger] word_nr(b, m, r), w) <==> r < val(w, b)),
{
    val_range(w, b);
    val_word(w, b);
    assert forall|r: int| 0 <= r < pw(b, m) implies (lexw(#[trigger] word_nr(b, m, r), w) <==> r < val(w, b)) && (r != val(w, b) ==> word_nr(b, m, r) != w) by {
        word_val(b, m, r);
        lex_val(word_nr(b, m, r), w, b);
    }
}

} // verus!
