//@ needs entropy sentinel hmap
verus! {

// std::io::Bytes over a slice: iterator without errors
#[verifier::external_body]
pub struct ByteIter { x: u8 }

#[derive(Debug)]
pub struct ByteError { pub x: bool }

impl ByteIter {
    pub uninterp spec fn rest(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<core::result::Result<u8, ByteError>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && r->0 is Ok && r->0->Ok_0 == old(self).rest()[0]
                && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int),
    {
        unimplemented!()
    }
}

// the bytes of a slice
#[verifier::external_body]
pub fn bytes_of(s: &[u8]) -> (r: ByteIter)
    ensures r.rest() == s@,
{
    unimplemented!()
}

// the number with the j digits s[m-j..m) to the base 256
pub open spec fn code(s: Seq<int>, m: int, j: int) -> int
    decreases j,
{
    if j <= 0 { 0 } else { code(s, m - 1, j - 1) * 256 + s[m - 1] }
}

pub open spec fn kmask(j: u64) -> u64 {
    u64::MAX >> ((8 * (8 - j)) as u64)
}

// the low bytes of r are the last ones of s[0..m)
pub open spec fn ring(s: Seq<int>, m: int, r: u64) -> bool {
    forall|j: u64| 1 <= j <= 8 && j <= m ==> r & #[trigger] kmask(j) == code(s, m, j as int)
}

pub proof fn ring_step(s: Seq<int>, m: int, r: u64, b: u8)
    requires ring(s, m, r), 0 <= m < s.len(), s[m] == b,
    ensures ring(s, m + 1, (r << 8) | (b as u64)),
{
    let r2 = (r << 8) | (b as u64);
    assert forall|j: u64| 1 <= j <= 8 && j <= m + 1 implies r2 & #[trigger] kmask(j) == code(s, m + 1, j as int) by {
        let bb = b as u64;
        assert(bb < 256);
        if j == 1 {
            assert(((r << 8u64) | bb) & (u64::MAX >> 56u64) == bb) by (bit_vector) requires bb < 256;
            assert(code(s, m + 1, 1) == s[m]) by { reveal_with_fuel(code, 2); }
        } else {
            let i = (j - 1) as u64;
            let c = r & kmask(i);
            assert(c == code(s, m, i as int));
            let x: u64 = (8 * (8 - j)) as u64;
            let y: u64 = (8 * (8 - i)) as u64;
            assert(y == x + 8 && x <= 48);
            assert(((r << 8u64) | bb) & (u64::MAX >> x) == ((r & (u64::MAX >> y)) << 8u64) | bb
                && (r & (u64::MAX >> y)) < 0x0100_0000_0000_0000) by (bit_vector) requires bb < 256, x <= 48, y == x + 8;
            assert((c << 8u64) | bb == c * 256 + bb) by (bit_vector) requires c < 0x0100_0000_0000_0000, bb < 256;
            assert(code(s, m + 1, j as int) == code(s, m, i as int) * 256 + s[m]);
        }
    }
}

pub proof fn ring_none(s: Seq<int>, r: u64)
    ensures ring(s, 0, r),
{
}

pub proof fn ring_at(s: Seq<int>, m: int, r: u64, j: u64)
    requires ring(s, m, r), 1 <= j <= 8, j <= m,
    ensures r & kmask(j) == code(s, m, j as int),
{
}

// different strings of the same length have different codes
pub proof fn code_inj(s: Seq<int>, p: int, q: int, k: int)
    requires chars(s), 0 <= k, 0 <= p, 0 <= q, p + k <= s.len(), q + k <= s.len(),
    ensures code(s, p + k, k) == code(s, q + k, k) <==> eqr(s, p, q, k),
    decreases k,
{
    if k > 0 {
        code_inj(s, p, q, k - 1);
        assert(0 <= s[p + k - 1] < 256 && 0 <= s[q + k - 1] < 256);
        let a = code(s, p + k - 1, k - 1);
        let b = code(s, q + k - 1, k - 1);
        assert(code(s, p + k, k) == a * 256 + s[p + k - 1]);
        assert(code(s, q + k, k) == b * 256 + s[q + k - 1]);
        if eqr(s, p, q, k) {
            eqr_at(s, p, q, k, k - 1);
            assert(eqr(s, p, q, k - 1));
        } else if eqr(s, p, q, k - 1) && s[p + k - 1] == s[q + k - 1] {
            assert(eqr(s, p, q, k)) by {
                assert forall|x: int| p <= x < p + k implies #[trigger] s[x] == s[x - p + q] by {
                    if x < p + k - 1 { eqr_at(s, p, q, k - 1, x - p); }
                }
            }
        }
    }
}

pub open spec fn codes(s: Seq<int>, k: int) -> Seq<int> {
    Seq::new((s.len() - k + 1) as nat, |q: int| code(s, q + k, k))
}

// mp holds the number of occurrences of each of the first m elements
pub open spec fn counted(mp: Map<u64, u64>, w: Seq<int>, m: int) -> bool {
    &&& forall|c: u64| #[trigger] mp.contains_key(c) ==> mp[c] == cnt(w, c as int, m) && mp[c] > 0
    &&& forall|i: int| 0 <= i < m ==> 0 <= #[trigger] w[i] <= u64::MAX && mp.contains_key(w[i] as u64)
}

pub proof fn counted_none(w: Seq<int>)
    ensures counted(Map::<u64, u64>::empty(), w, 0),
{
}

pub proof fn counted_at(mp: Map<u64, u64>, w: Seq<int>, m: int, c: u64)
    requires counted(mp, w, m), mp.contains_key(c),
    ensures mp[c] > 0,
{
}

pub open spec fn bump(mp: Map<u64, u64>, c: u64) -> Map<u64, u64> {
    mp.insert(c, if mp.contains_key(c) { (mp[c] + 1) as u64 } else { 1 })
}

pub proof fn counted_step(mp: Map<u64, u64>, w: Seq<int>, m: int, c: u64)
    requires counted(mp, w, m), 0 <= m < w.len(), w[m] == c, m < u64::MAX,
    ensures counted(bump(mp, c), w, m + 1), mp.contains_key(c) ==> mp[c] <= m,
{
    cnt_pos(w, c as int, m);
    if !mp.contains_key(c) {
        assert forall|i: int| 0 <= i < m implies #[trigger] w[i] != c by {}
        cnt_none(w, c as int, m);
    }
    let q = bump(mp, c);
    assert forall|d: u64| #[trigger] q.contains_key(d) implies q[d] == cnt(w, d as int, m + 1) && q[d] > 0 by {
        if d != c { assert(mp.contains_key(d)); }
    }
    assert forall|i: int| 0 <= i < m + 1 implies 0 <= #[trigger] w[i] <= u64::MAX && q.contains_key(w[i] as u64) by {}
}

// the contributions of the entries and of the positions
pub open spec fn entry_terms(es: Seq<(u64, u64)>) -> Seq<real> {
    Seq::new(es.len(), |x: int| es[x].1 as real * lg(es[x].1 as real))
}

pub open spec fn pos_terms(w: Seq<int>, m: int) -> Seq<real> {
    Seq::new(m as nat, |i: int| lg(cnt(w, w[i], m) as real))
}

pub open spec fn entry_at(es: Seq<(u64, u64)>, c: int) -> int {
    choose|x: int| 0 <= x < es.len() && (#[trigger] es[x]).0 == c
}

proof fn cnt_map(w: Seq<int>, g: Seq<int>, c: int, x: int, m: int)
    requires forall|i: int| 0 <= i < m ==> (#[trigger] w[i] == c <==> g[i] == x),
    ensures cnt(w, c, m) == cnt(g, x, m),
    decreases m,
{
    if m > 0 {
        cnt_map(w, g, c, x, m - 1);
        assert(w[m - 1] == c <==> g[m - 1] == x);
    }
}

pub proof fn entries_sum(mp: Map<u64, u64>, es: Seq<(u64, u64)>, w: Seq<int>, m: int)
    requires counted(mp, w, m), entries_of(mp, es), 0 <= m <= w.len(),
    ensures rsum(entry_terms(es), es.len() as int) == rsum(pos_terms(w, m), m),
{
    let g = Seq::new(m as nat, |i: int| entry_at(es, w[i]));
    let f = pos_terms(w, m);
    let l = es.len() as int;
    assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] g[i] < l && es[g[i]].0 == w[i] by {
        assert(0 <= w[i] <= u64::MAX && mp.contains_key(w[i] as u64));
        let x = choose|x: int| 0 <= x < es.len() && (#[trigger] es[x]).0 == w[i] as u64;
        assert(es[x].0 == w[i]);
    }
    grouped(f, g, m, l);
    assert forall|x: int| 0 <= x < l implies #[trigger] parts(f, g, m, l)[x] == entry_terms(es)[x] by {
        let c = es[x].0 as int;
        assert(mp.contains_key(es[x].0));
        assert forall|i: int| 0 <= i < m implies (#[trigger] w[i] == c <==> g[i] == x) by {
            assert(es[g[i]].0 == w[i]);
        }
        cnt_map(w, g, c, x, m);
        part_const(f, g, x, m, lg(es[x].1 as real));
    }
    rsum_eq(parts(f, g, m, l), entry_terms(es), l);
}

// the k-mers at positions before m that equal the one at p
proof fn codes_ctx(s: Seq<int>, p: int, k: int, m: int)
    requires chars(s), 0 <= k, 0 <= p, p + k <= s.len(), 0 <= m, m + k <= s.len(),
    ensures cnt(codes(s, k), codes(s, k)[p], m) == tot(ctx_sel(s, p, k), m),
    decreases m,
{
    if m > 0 {
        codes_ctx(s, p, k, m - 1);
        code_inj(s, p, m - 1, k);
        assert(codes(s, k)[m - 1] == code(s, m - 1 + k, k));
        assert(ctx_sel(s, p, k)[m - 1] == in_ctx(s, p, k, m - 1));
    }
}

proof fn codes_chr(s: Seq<int>, p: int, k: int, m: int)
    requires chars(s), 0 <= k, 0 <= p, p + k < s.len(), 0 <= m, m + k <= s.len(),
    ensures cnt(codes(s, k + 1), codes(s, k + 1)[p], m) == tot(chr_sel(s, p, k, s[p + k]), m),
    decreases m,
{
    if m > 0 {
        codes_chr(s, p, k, m - 1);
        let q = m - 1;
        code_inj(s, p, q, k + 1);
        assert(codes(s, k + 1)[q] == code(s, q + (k + 1), k + 1));
        assert(codes(s, k + 1)[p] == code(s, p + (k + 1), k + 1));
        assert(chr_sel(s, p, k, s[p + k])[q] == (in_ctx(s, p, k, q) && s[q + k] == s[p + k]));
        if eqr(s, p, q, k + 1) {
            eqr_at(s, p, q, k + 1, k);
            assert(eqr(s, p, q, k));
        } else if in_ctx(s, p, k, q) && s[q + k] == s[p + k] {
            assert(eqr(s, p, q, k + 1)) by {
                assert forall|x: int| p <= x < p + (k + 1) implies #[trigger] s[x] == s[x - p + q] by {
                    if x < p + k { eqr_at(s, p, q, k, x - p); }
                }
            }
        }
    }
}

proof fn tot_rest(b: Seq<bool>, m: int, n: int)
    requires 0 <= m <= n <= b.len(), forall|i: int| m <= i < n ==> !#[trigger] b[i],
    ensures tot(b, n) == tot(b, m),
    decreases n,
{
    if m < n { tot_rest(b, m, n - 1); }
}

// the last k-mer, which has the end marker, is unique
proof fn last_alone(s: Seq<int>, k: int, p: int)
    requires with_sentinel(s), chars(s), 1 <= k <= s.len(), 0 <= p < s.len() - k,
    ensures codes(s, k)[p] != codes(s, k)[s.len() - k],
{
    let q = s.len() - k;
    code_inj(s, p, q, k);
    if eqr(s, p, q, k) { eqr_at(s, p, q, k, k - 1); assert(s[p + (k - 1)] > 0); }
}

// the counts at position p
proof fn kmer_cnts(s: Seq<int>, k: int, p: int)
    requires with_sentinel(s), chars(s), 1 <= k <= s.len(), 0 <= p < s.len() - k,
    ensures
        foll(s, p, k).len() == cnt(codes(s, k), codes(s, k)[p], s.len() - k + 1),
        cnt(foll(s, p, k), s[p + k], foll(s, p, k).len() as int) == cnt(codes(s, k + 1), codes(s, k + 1)[p], s.len() - k),
        cnt(codes(s, k), codes(s, k)[p], s.len() - k + 1) > 0,
        cnt(codes(s, k + 1), codes(s, k + 1)[p], s.len() - k) > 0,
{
    hide(with_sentinel);
    hide(chars);
    hide(eqr);
    hide(code);
    let n = s.len() as int;
    let m = n - k;
    let c = s[p + k];
    follow_count(s, p, k, c, n);
    tot_rest(ctx_sel(s, p, k), m, n);
    tot_rest(chr_sel(s, p, k, c), m, n);
    codes_ctx(s, p, k, m);
    codes_chr(s, p, k, m);
    last_alone(s, k, p);
    let d = codes(s, k)[p];
    assert(cnt(codes(s, k), d, m + 1) == cnt(codes(s, k), d, m));
    cnt_has(codes(s, k), p, m + 1);
    cnt_has(codes(s, k + 1), p, m);
}

proof fn cnt_has(w: Seq<int>, p: int, m: int)
    requires 0 <= p < m,
    ensures cnt(w, w[p], m) > 0,
{
    cnt_pos(w, w[p], m);
    assert(w[p] == w[p]);
}

// the terms of position p
proof fn kmer_term(s: Seq<int>, k: int, p: int)
    requires with_sentinel(s), chars(s), 1 <= k <= s.len(), 0 <= p < s.len() - k,
    ensures
        lps(s, k)[p] == pos_terms(codes(s, k), s.len() - k + 1)[p] - pos_terms(codes(s, k + 1), s.len() - k)[p],
{
    hide(with_sentinel);
    hide(chars);
    hide(eqr);
    hide(code);
    hide(follow);
    hide(cnt);
    kmer_cnts(s, k, p);
    let a = cnt(codes(s, k), codes(s, k)[p], s.len() - k + 1);
    let b = cnt(codes(s, k + 1), codes(s, k + 1)[p], s.len() - k);
    lg_div(a as real, b as real);
}

// what the two tables of counts give
pub proof fn kmer_entropy(s: Seq<int>, k: int)
    requires with_sentinel(s), chars(s), 1 <= k <= s.len(),
    ensures
        rsum(pos_terms(codes(s, k), s.len() - k + 1), s.len() - k + 1) - rsum(pos_terms(codes(s, k + 1), s.len() - k), s.len() - k)
            == hk_sum(s, k, s.len() as int),
{
    let n = s.len() as int;
    let m = n - k;
    hk_positions(s, k);
    let a = pos_terms(codes(s, k), m + 1);
    let b = pos_terms(codes(s, k + 1), m);
    assert forall|p: int| 0 <= p < m implies #[trigger] lps(s, k)[p] == a[p] - b[p] by { kmer_term(s, k, p); }
    rsum_diff(lps(s, k), a, b, m);
    rsum_rest(lps(s, k), m, n);
    assert forall|i: int| 0 <= i < m + 1 && i != m implies #[trigger] codes(s, k)[i] != codes(s, k)[m] by { last_alone(s, k, i); }
    cnt_one(codes(s, k), codes(s, k)[m], m + 1, m);
    lg_one();
    assert(a[m] == 0real);
}

proof fn rsum_rest(a: Seq<real>, m: int, n: int)
    requires 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] a[i] == 0real,
    ensures rsum(a, n) == rsum(a, m),
    decreases n,
{
    if m < n { rsum_rest(a, m, n - 1); }
}

} // verus!
