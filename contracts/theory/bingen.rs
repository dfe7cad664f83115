//@ needs digits
verus! {

impl BinaryStringGenerator {
    pub closed spec fn length(&self) -> nat { self.m_length as nat }
    pub closed spec fn rank(&self) -> int { self.m_rank as int }
}

// the characters '0', '1', ...
pub open spec fn ascii0(w: Seq<int>) -> Seq<u8> {
    Seq::new(w.len(), |i: int| (48 + w[i]) as u8)
}

// one call of next: before, after, the item
// (lengths from 64 on: more strings than the counter has values)
pub open spec fn bin_step(m: nat, r: int, r2: int, item: Option<Seq<u8>>) -> bool {
    if r < pw(2, m) { r2 == r + 1 && item == Some(ascii0(word_nr(2, m, r))) } else { r2 == r && item is None }
}

pub proof fn pw2_shl(m: u64)
    requires m < 64,
    ensures pw(2, m as nat) == 1u64 << m,
    decreases m,
{
    if m == 0 {
        assert(1u64 << 0u64 == 1) by (bit_vector);
    } else {
        let k = (m - 1) as u64;
        pw2_shl(k);
        assert(1u64 << m == 2 * (1u64 << k) && 1u64 << k <= 0x4000_0000_0000_0000) by (bit_vector) requires m == k + 1, k < 63;
    }
}

pub proof fn bin_done(r: u64, m: u8)
    requires m < 64,
    ensures (r >> m) > 0 <==> r >= pw(2, m as nat),
{
    pw2_shl(m as u64);
    let s = m as u64;
    assert((r >> m) > 0 <==> r >= 1u64 << s) by (bit_vector) requires s == m, m < 64;
}

// the bits of r are its digits
pub proof fn bin_bit(m: nat, r: u64, j: int)
    requires 0 <= j < m, m - 1 - j < 64,
    ensures
        word_nr(2, m, r as int).len() == m,
        word_nr(2, m, r as int)[j] == if (r & (1u64 << ((m - 1 - j) as u8))) == 0 { 0int } else { 1int },
        (r & (1u64 << ((m - 1 - j) as u8))) == 0 <==> (r >> ((m - 1 - j) as u8)) & 1 == 0,
        (r >> ((m - 1 - j) as u8)) & 1 == 0 || (r >> ((m - 1 - j) as u8)) & 1 == 1,
        (r >> ((m - 1 - j) as u8)) & 1 == (r >> ((m - 1 - j) as u8)) % 2,
    decreases m,
{
    let e0 = (m - 1 - j) as u8;
    let sh = r >> e0;
    assert((r & (1u64 << e0)) == 0 <==> (r >> e0) & 1 == 0) by (bit_vector) requires e0 < 64;
    assert(sh & 1 == 0 || sh & 1 == 1) by (bit_vector);
    assert(sh & 1 == sh % 2) by (bit_vector);
    let k = (m - 1) as nat;
    let h = r / 2;
    word_len(m, r as int);
    assert(r & (1u64 << 0u8) == r % 2) by (bit_vector);
    if j < m - 1 {
        bin_bit(k, h, j);
        let e = (m - 1 - j) as u8;
        let f = (k - 1 - j) as u8;
        assert((r & (1u64 << e)) == 0 <==> (h & (1u64 << f)) == 0) by (bit_vector) requires h == r / 2, e == f + 1, e < 64, f < 64;
    }
}

// digits beyond the 64 bits of r are 0
pub proof fn bin_high(m: nat, r: u64, j: int)
    requires 0 <= j < m - 64,
    ensures word_nr(2, m, r as int).len() == m, word_nr(2, m, r as int)[j] == 0,
{
    word_len(m, r as int);
    assert(pw(2, 64) == 0x1_0000_0000_0000_0000) by { pw2_shl(63); assert(1u64 << 63u64 == 0x8000_0000_0000_0000) by (bit_vector); assert(pw(2, 64) == 2 * pw(2, 63)); }
    high_zero(m, r as int, 64, j);
}

// a number below 2^b has only zeros before its last b digits
pub proof fn high_zero(m: nat, r: int, b: nat, j: int)
    requires 0 <= r < pw(2, b), 0 <= j < m - b,
    ensures word_nr(2, m, r).len() == m, word_nr(2, m, r)[j] == 0,
    decreases m,
{
    word_len(m, r);
    let k = (m - 1) as nat;
    if b == 0 {
        assert(r == 0);
        if j < m - 1 { high_zero(k, r / 2, 0, j); }
    } else {
        assert(pw(2, b) == 2 * pw(2, (b - 1) as nat));
        if j < m - 1 { high_zero(k, r / 2, (b - 1) as nat, j); }
    }
}

// the digits, whatever the length
pub proof fn bin_digit(m: nat, r: u64, j: int)
    requires 0 <= j < m,
    ensures
        word_nr(2, m, r as int).len() == m,
        m - 1 - j >= 64 ==> word_nr(2, m, r as int)[j] == 0,
        m - 1 - j < 64 ==> {
            &&& word_nr(2, m, r as int)[j] == if (r & (1u64 << ((m - 1 - j) as u8))) == 0 { 0int } else { 1int }
            &&& ((r & (1u64 << ((m - 1 - j) as u8))) == 0 <==> (r >> ((m - 1 - j) as u8)) & 1 == 0)
            &&& ((r >> ((m - 1 - j) as u8)) & 1 == 0 || (r >> ((m - 1 - j) as u8)) & 1 == 1)
            &&& ((r >> ((m - 1 - j) as u8)) & 1 == (r >> ((m - 1 - j) as u8)) % 2)
        },
{
    if m - 1 - j >= 64 { bin_high(m, r, j); } else { bin_bit(m, r, j); }
}

proof fn word_len(m: nat, r: int)
    ensures word_nr(2, m, r).len() == m,
    decreases m,
{
    if m > 0 { word_len((m - 1) as nat, r / 2); }
}

// calling next again and again yields the words in order and then ends
pub proof fn bin_run(m: nat, st: Seq<int>, items: Seq<Option<Seq<u8>>>, i: int)
    requires
        st.len() == items.len() + 1, st[0] == 0,
        forall|k: int| 0 <= k < items.len() ==> bin_step(m, st[k], #[trigger] st[k + 1], items[k]),
        0 <= i <= items.len(),
    ensures
        st[i] == if i <= pw(2, m) { i } else { pw(2, m) },
        i < items.len() ==> items[i] == if i < pw(2, m) { Some(ascii0(word_nr(2, m, i))) } else { None },
    decreases i,
{
    pw_pos(2, m);
    if i > 0 {
        bin_run(m, st, items, i - 1);
        assert(bin_step(m, st[i - 1], st[i - 1 + 1], items[i - 1]));
    }
    if i < items.len() { assert(bin_step(m, st[i], st[i + 1], items[i])); }
}

// every word of that length is listed exactly once, in lexicographic order
pub proof fn bin_complete(m: nat, w: Seq<int>)
    requires digits(w, 2), w.len() == m,
    ensures
        0 <= val(w, 2) < pw(2, m), word_nr(2, m, val(w, 2)) == w,
        forall|r: int| 0 <= r < pw(2, m) && r != val(w, 2) ==> #[trigger] word_nr(2, m, r) != w,
        forall|r: int| 0 <= r < pw(2, m) ==> (lexw(#[trigger] word_nr(2, m, r), w) <==> r < val(w, 2)),
{
    val_range(w, 2);
    val_word(w, 2);
    assert forall|r: int| 0 <= r < pw(2, m) implies (lexw(#[trigger] word_nr(2, m, r), w) <==> r < val(w, 2)) && (r != val(w, 2) ==> word_nr(2, m, r) != w) by {
        word_val(2, m, r);
        lex_val(word_nr(2, m, r), w, 2);
    }
}

} // verus!
