verus! {

// ---- words over the digits 0..b, read as numbers (most significant digit first)
pub open spec fn pw(b: int, m: nat) -> int
    decreases m,
{
    if m == 0 { 1 } else { pw(b, (m - 1) as nat) * b }
}

pub open spec fn val(w: Seq<int>, b: int) -> int
    decreases w.len(),
{
    if w.len() == 0 { 0 } else { val(w.drop_last(), b) * b + w.last() }
}

// the r-th word of length m in lexicographic order
pub open spec fn word_nr(b: int, m: nat, r: int) -> Seq<int>
    decreases m,
{
    if m == 0 { Seq::empty() } else { word_nr(b, (m - 1) as nat, r / b).push(r % b) }
}

pub open spec fn digits(w: Seq<int>, b: int) -> bool {
    forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < b
}

// lexicographic order of words of the same length
pub open spec fn lexw_at(v: Seq<int>, w: Seq<int>, q: int) -> bool {
    &&& 0 <= q < v.len()
    &&& v.len() == w.len()
    &&& v[q] < w[q]
    &&& forall|i: int| 0 <= i < q ==> #[trigger] v[i] == w[i]
}

pub open spec fn lexw(v: Seq<int>, w: Seq<int>) -> bool {
    exists|q: int| #[trigger] lexw_at(v, w, q)
}

pub proof fn pw_pos(b: int, m: nat)
    requires b >= 1,
    ensures pw(b, m) >= 1,
    decreases m,
{
    if m > 0 { pw_pos(b, (m - 1) as nat); assert(pw(b, (m - 1) as nat) * b >= 1) by (nonlinear_arith) requires pw(b, (m - 1) as nat) >= 1, b >= 1; }
}

pub proof fn val_range(w: Seq<int>, b: int)
    requires b >= 1, digits(w, b),
    ensures 0 <= val(w, b) < pw(b, w.len()),
    decreases w.len(),
{
    if w.len() > 0 {
        let u = w.drop_last();
        assert(digits(u, b)) by { assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < b by { assert(u[i] == w[i]); } }
        val_range(u, b);
        let x = val(u, b);
        let p = pw(b, u.len());
        let d = w.last();
        assert(0 <= d < b);
        assert(0 <= x * b + d < p * b) by (nonlinear_arith) requires 0 <= x < p, 0 <= d < b, b >= 1;
    }
}

// word number r: its digits and its value
pub proof fn word_val(b: int, m: nat, r: int)
    requires b >= 1, 0 <= r < pw(b, m),
    ensures word_nr(b, m, r).len() == m, digits(word_nr(b, m, r), b), val(word_nr(b, m, r), b) == r,
    decreases m,
{
    if m > 0 {
        let k = (m - 1) as nat;
        let q = r / b;
        let d = r % b;
        let p = pw(b, k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, b);
        vstd::arithmetic::div_mod::lemma_mod_bound(r, b);
        assert(q * b + d == r) by (nonlinear_arith) requires r == b * q + d;
        assert(0 <= q < p) by (nonlinear_arith) requires q * b + d == r, 0 <= r < p * b, 0 <= d < b, b >= 1;
        word_val(b, k, q);
        assert(word_nr(b, m, r).drop_last() =~= word_nr(b, k, q));
    }
}

// every word is the word of its number
pub proof fn val_word(w: Seq<int>, b: int)
    requires b >= 1, digits(w, b),
    ensures word_nr(b, w.len(), val(w, b)) == w,
    decreases w.len(),
{
    if w.len() > 0 {
        let u = w.drop_last();
        assert(digits(u, b)) by { assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < b by { assert(u[i] == w[i]); } }
        val_word(u, b);
        let x = val(u, b);
        let d = w.last();
        assert(0 <= d < b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * b + d, b, x, d);
        assert(word_nr(b, w.len(), val(w, b)) =~= u.push(d));
        assert(u.push(d) =~= w);
    } else {
        assert(word_nr(b, 0, 0) =~= w);
    }
}

// smaller words have smaller numbers
pub proof fn lex_val(v: Seq<int>, w: Seq<int>, b: int)
    requires b >= 1, digits(v, b), digits(w, b), v.len() == w.len(),
    ensures val(v, b) < val(w, b) <==> lexw(v, w), val(v, b) == val(w, b) <==> v == w,
    decreases v.len(),
{
    if v.len() == 0 {
        assert(v =~= w);
    } else {
        let x = v.drop_last();
        let y = w.drop_last();
        assert(digits(x, b)) by { assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < b by { assert(x[i] == v[i]); } }
        assert(digits(y, b)) by { assert forall|i: int| 0 <= i < y.len() implies 0 <= #[trigger] y[i] < b by { assert(y[i] == w[i]); } }
        lex_val(x, y, b);
        let p = val(x, b);
        let q = val(y, b);
        let d = v.last();
        let e = w.last();
        assert(0 <= d < b && 0 <= e < b);
        let z = x.len() as int;
        assert(v =~= x.push(d) && w =~= y.push(e));
        if p < q {
            assert(p * b + d < q * b + e) by (nonlinear_arith) requires p < q, 0 <= d < b, 0 <= e < b;
            let k = choose|k: int| #[trigger] lexw_at(x, y, k);
            assert(lexw_at(x, y, k));
            assert(lexw_at(v, w, k)) by { assert forall|i: int| 0 <= i < k implies #[trigger] v[i] == w[i] by { assert(x[i] == y[i]); } }
        } else if q < p {
            assert(q * b + e < p * b + d) by (nonlinear_arith) requires q < p, 0 <= d < b, 0 <= e < b;
            if lexw(v, w) {
                let k = choose|k: int| #[trigger] lexw_at(v, w, k);
                assert(lexw_at(v, w, k));
                if k < z {
                    assert(lexw_at(x, y, k)) by { assert forall|i: int| 0 <= i < k implies #[trigger] x[i] == y[i] by { assert(v[i] == w[i]); } }
                } else {
                    assert(x =~= y) by { assert forall|i: int| 0 <= i < z implies x[i] == y[i] by { assert(v[i] == w[i]); } }
                }
            }
            assert(v != w);
        } else {
            assert(x == y);
            if d < e {
                assert(lexw_at(v, w, z)) by { assert forall|i: int| 0 <= i < z implies #[trigger] v[i] == w[i] by { assert(x[i] == y[i]); } }
            }
            if lexw(v, w) {
                let k = choose|k: int| #[trigger] lexw_at(v, w, k);
                assert(lexw_at(v, w, k));
                if k < z { assert(x[k] == y[k]); }
            }
        }
    }
}

// counting up: the last digits b-1 become 0, the digit before them grows by one
pub proof fn val_carry(u: Seq<int>, d: int, b: int, k: nat)
    requires b >= 1,
    ensures
        val(u.push(d) + Seq::new(k, |i: int| b - 1), b) + 1 == val(u.push(d + 1) + Seq::new(k, |i: int| 0int), b),
    decreases k,
{
    let x = u.push(d) + Seq::new(k, |i: int| b - 1);
    let y = u.push(d + 1) + Seq::new(k, |i: int| 0int);
    if k == 0 {
        assert(x =~= u.push(d) && y =~= u.push(d + 1));
        assert(u.push(d).drop_last() =~= u && u.push(d + 1).drop_last() =~= u);
    } else {
        let j = (k - 1) as nat;
        val_carry(u, d, b, j);
        assert(x.drop_last() =~= u.push(d) + Seq::new(j, |i: int| b - 1));
        assert(y.drop_last() =~= u.push(d + 1) + Seq::new(j, |i: int| 0int));
        let p = val(x.drop_last(), b);
        assert(p * b + (b - 1) + 1 == (p + 1) * b) by (nonlinear_arith);
    }
}

pub proof fn val_max(b: int, k: nat)
    requires b >= 1,
    ensures val(Seq::new(k, |i: int| b - 1), b) + 1 == pw(b, k), val(Seq::new(k, |i: int| 0int), b) == 0,
    decreases k,
{
    let x = Seq::new(k, |i: int| b - 1);
    let y = Seq::new(k, |i: int| 0int);
    if k > 0 {
        let j = (k - 1) as nat;
        val_max(b, j);
        assert(x.drop_last() =~= Seq::new(j, |i: int| b - 1));
        assert(y.drop_last() =~= Seq::new(j, |i: int| 0int));
        let p = val(x.drop_last(), b);
        assert(p * b + (b - 1) + 1 == (p + 1) * b) by (nonlinear_arith);
    }
}

} // verus!
verus! {

pub proof fn pw_mono(b: int, m: nat, n: nat)
    requires b >= 1, m <= n,
    ensures pw(b, m) <= pw(b, n),
    decreases n,
{
    if m < n {
        let k = (n - 1) as nat;
        pw_mono(b, m, k);
        pw_pos(b, k);
        assert(pw(b, k) <= pw(b, k) * b) by (nonlinear_arith) requires b >= 1, pw(b, k) >= 1;
    }
}

} // verus!
