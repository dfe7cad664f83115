//@ needs necklace digits
verus! {

impl LyndonWordGenerator {
    pub closed spec fn length(&self) -> nat { self.m_length as nat }
    pub closed spec fn sigma(&self) -> nat { self.m_alphabet_size as nat }
    pub closed spec fn word(&self) -> Seq<u8> { self.m_stack@ }
}

pub open spec fn dg(s: Seq<u8>) -> Seq<int> {
    Seq::new(s.len(), |i: int| s[i] as int)
}

// lexicographic order in which a proper prefix is smaller
pub open spec fn plt_at(v: Seq<int>, w: Seq<int>, q: int) -> bool {
    &&& 0 <= q <= v.len()
    &&& q < w.len()
    &&& q == v.len() || v[q] < w[q]
    &&& forall|i: int| 0 <= i < q ==> #[trigger] v[i] == w[i]
}

pub open spec fn plt(v: Seq<int>, w: Seq<int>) -> bool {
    exists|q: int| #[trigger] plt_at(v, w, q)
}

// v is a Lyndon word of length at most n over the digits 0..k
pub open spec fn lyword(v: Seq<int>, n: nat, k: nat) -> bool {
    v.len() <= n && digits(v, k as int) && lyn(v, 0, v.len() as int)
}

// z is the smallest Lyndon word larger than w
pub open spec fn lynext(n: nat, k: nat, w: Seq<int>, z: Seq<int>) -> bool {
    &&& lyword(z, n, k)
    &&& plt(w, z)
    &&& forall|v: Seq<int>| #[trigger] lyword(v, n, k) && plt(w, v) ==> !plt(v, z)
}

// no Lyndon word is larger than w
pub open spec fn lynlast(n: nat, k: nat, w: Seq<int>) -> bool {
    forall|v: Seq<int>| #[trigger] lyword(v, n, k) ==> !plt(w, v)
}

// a state of the generator: the last word, or the empty word at the beginning
pub open spec fn gen_state(n: nat, k: nat, w: Seq<int>) -> bool {
    w.len() == 0 || lyword(w, n, k)
}

// one call of next in the state (n, w): the state afterwards and the item
pub open spec fn gen_step(n: nat, k: nat, w: Seq<int>, n2: nat, w2: Seq<int>, item: Option<Seq<int>>) -> bool {
    match item {
        Some(z) => n > 0 && n2 == n && w2 == z && lynext(n, k, w, z),
        None => n2 == 0 && (n == 0 || lynlast(n, k, w)),
    }
}

// x repeats w up to the length n
pub open spec fn repeats(x: Seq<int>, w: Seq<int>, n: nat) -> bool {
    &&& 0 < w.len() <= n
    &&& x.len() == n
    &&& per(x, 0, n as int, w.len() as int)
    &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] x[i] == w[i]
}

// a proper prefix of a Lyndon word is a pre-necklace, and the next character does not break its period downwards
proof fn lyn_prefix_period(w: Seq<int>, j: int) -> (q: int)
    requires lyn(w, 0, w.len() as int), 0 < j < w.len(),
    ensures preneck(w, j, q), w[j] >= w[j - q],
    decreases j,
{
    let m = w.len() as int;
    if j == 1 {
        lyn_single(w, 0);
        lyn_first_min(w, 0, m, 1);
        assert(preneck(w, 1, 1));
        1
    } else {
        let i = j - 1;
        let q = lyn_prefix_period(w, i);
        let r = if w[i] == w[i - q] { q } else { j };
        if r == j {
            duval_step(w, 0, q, i);
        }
        assert(preneck(w, j, r)) by {
            assert forall|x: int| 0 + r <= x < j implies #[trigger] w[x] == w[x - r] by {
                if x < i { per_use(w, 0, i, q, x); }
            }
        }
        if r < j {
            assert(lynw(w, 0, r, m));
            let t = choose|t: int| #[trigger] lynw_at(w, 0, r, m, t);
            assert(lynw_at(w, 0, r, m, t));
            if t < j - r {
                per_use(w, 0, j, r, r + t);
            } else if t > j - r {
                eqr_at(w, 0, r, t, j - r);
            }
        } else {
            lyn_first_min(w, 0, m, j);
        }
        r
    }
}

// Lyndon is a property of the characters up to the end
proof fn lyn_same(s: Seq<int>, t: Seq<int>, b: int)
    requires lyn(s, 0, b), b <= s.len(), b <= t.len(), forall|i: int| 0 <= i < b ==> #[trigger] s[i] == t[i],
    ensures lyn(t, 0, b),
{
    assert forall|i: int| 0 < i < b implies #[trigger] lynw(t, 0, i, b) by {
        assert(lynw(s, 0, i, b));
        let q = choose|q: int| #[trigger] lynw_at(s, 0, i, b, q);
        assert(lynw_at(s, 0, i, b, q));
        assert(eqr(t, 0, i, q)) by {
            assert forall|x: int| 0 <= x < 0 + q implies #[trigger] t[x] == t[x - 0 + i] by {
                eqr_at(s, 0, i, q, x);
                assert(s[x] == t[x] && s[x + i] == t[x + i]);
            }
        }
        assert(s[0 + q] == t[0 + q] && s[i + q] == t[i + q]);
        assert(lynw_at(t, 0, i, b, q));
    }
}

// raising a character in the repetition of a Lyndon word ends a Lyndon word
proof fn lyn_raise(w: Seq<int>, x: Seq<int>, z: Seq<int>, n: nat)
    requires
        lyn(w, 0, w.len() as int), repeats(x, w, n),
        0 < z.len() <= n, z.last() > x[z.len() - 1],
        forall|i: int| 0 <= i < z.len() - 1 ==> #[trigger] z[i] == x[i],
    ensures
        lyn(z, 0, z.len() as int),
{
    let m = w.len() as int;
    let j = z.len() - 1;
    if j >= m {
        assert forall|i: int| 0 <= i < m implies #[trigger] w[i] == z[i] by { assert(x[i] == w[i] && z[i] == x[i]); }
        lyn_same(w, z, m);
        assert(per(z, 0, j, m)) by {
            assert forall|y: int| 0 + m <= y < j implies #[trigger] z[y] == z[y - m] by {
                per_use(x, 0, n as int, m, y);
                assert(z[y] == x[y] && z[y - m] == x[y - m]);
            }
        }
        per_use(x, 0, n as int, m, j);
        assert(z[j - m] == x[j - m]);
        duval_step(z, 0, m, j);
    } else if j == 0 {
        lyn_single(z, 0);
    } else {
        let q = lyn_prefix_period(w, j);
        assert forall|i: int| 0 <= i < j implies #[trigger] w[i] == z[i] by { assert(x[i] == w[i] && z[i] == x[i]); }
        lyn_same(w, z, q);
        assert(per(z, 0, j, q)) by {
            assert forall|y: int| 0 + q <= y < j implies #[trigger] z[y] == z[y - q] by {
                per_use(w, 0, j, q, y);
                assert(w[y] == z[y] && w[y - q] == z[y - q]);
            }
        }
        assert(x[j] == w[j]);
        assert(w[j - q] == z[j - q]);
        duval_step(z, 0, q, j);
    }
}

// a Lyndon word larger than w leaves the repetition of w upwards
proof fn lyn_above(w: Seq<int>, x: Seq<int>, v: Seq<int>, n: nat) -> (q: int)
    requires
        lyn(w, 0, w.len() as int), repeats(x, w, n),
        lyn(v, 0, v.len() as int), v.len() <= n, plt(w, v),
    ensures
        0 <= q < v.len(), v[q] > x[q],
        forall|i: int| 0 <= i < q ==> #[trigger] v[i] == x[i],
{
    let m = w.len() as int;
    let l = v.len() as int;
    let r = choose|r: int| #[trigger] plt_at(w, v, r);
    assert(plt_at(w, v, r));
    assert forall|i: int| 0 <= i < r implies #[trigger] v[i] == x[i] by { assert(w[i] == v[i] && x[i] == w[i]); }
    if r < m {
        assert(x[r] == w[r]);
        r
    } else {
        let q = agree(v, x, m);
        assert(lynw(v, 0, m, l));
        let t = choose|t: int| #[trigger] lynw_at(v, 0, m, l, t);
        assert(lynw_at(v, 0, m, l, t));
        let y = m + t;
        per_use(x, 0, n as int, m, y);
        assert(y - m == t);
        if y < q {
            assert(v[y] == x[y] && v[t] == x[t]);
        } else if y > q {
            eqr_at(v, 0, m, t, q - m);
            per_use(x, 0, n as int, m, q);
            assert(v[q - m] == x[q - m]);
        } else {
            assert(v[t] == x[t]);
        }
        q
    }
}

// the end of the common prefix
proof fn agree(v: Seq<int>, x: Seq<int>, m: int) -> (q: int)
    requires 0 <= m <= v.len() <= x.len(), forall|i: int| 0 <= i < m ==> #[trigger] v[i] == x[i],
    ensures m <= q <= v.len(), forall|i: int| 0 <= i < q ==> #[trigger] v[i] == x[i], q < v.len() ==> v[q] != x[q],
    decreases v.len() - m,
{
    if m == v.len() || v[m] != x[m] { m } else { agree(v, x, m + 1) }
}

// the successor: repeat w up to the length n, strip the largest digits at the end, raise the last digit
pub proof fn gen_some(n: nat, k: nat, w: Seq<int>, x: Seq<int>, z: Seq<int>)
    requires
        lyword(w, n, k), repeats(x, w, n),
        0 < z.len() <= n, x[z.len() - 1] != k - 1, z.last() == x[z.len() - 1] + 1,
        forall|i: int| 0 <= i < z.len() - 1 ==> #[trigger] z[i] == x[i],
        forall|i: int| z.len() <= i < n ==> #[trigger] x[i] == k - 1,
    ensures
        lynext(n, k, w, z),
{
    let m = w.len() as int;
    let j = z.len() - 1;
    rep_digits(n, k, w, x);
    assert(digits(z, k as int)) by {
        assert forall|i: int| 0 <= i < z.len() implies 0 <= #[trigger] z[i] < k as int by {
            assert(0 <= x[i] < k as int);
            if i < j { assert(z[i] == x[i]); }
        }
    }
    lyn_raise(w, x, z, n);
    assert(plt(w, z)) by {
        let q = if j < m { j } else { m };
        assert forall|i: int| 0 <= i < q implies #[trigger] w[i] == z[i] by { assert(x[i] == w[i] && z[i] == x[i]); }
        if j < m { assert(x[j] == w[j]); }
        assert(plt_at(w, z, q));
    }
    assert forall|v: Seq<int>| #[trigger] lyword(v, n, k) && plt(w, v) implies !plt(v, z) by {
        let q = lyn_above(w, x, v, n);
        assert(0 <= v[q] < k as int);
        assert(q <= j);
        if plt(v, z) {
            let r = choose|r: int| #[trigger] plt_at(v, z, r);
            assert(plt_at(v, z, r));
            if r < q { assert(v[r] == x[r] && z[r] == x[r]); }
            if r > q { assert(v[q] == z[q]); }
            if q < j { assert(z[q] == x[q]); }
            if r > q && q == j { }
        }
    }
}

// every digit is the largest one: no larger Lyndon word
pub proof fn gen_none(n: nat, k: nat, w: Seq<int>, x: Seq<int>)
    requires
        lyword(w, n, k), repeats(x, w, n),
        forall|i: int| 0 <= i < n ==> #[trigger] x[i] == k - 1,
    ensures
        lynlast(n, k, w),
{
    assert forall|v: Seq<int>| #[trigger] lyword(v, n, k) implies !plt(w, v) by {
        if plt(w, v) {
            let q = lyn_above(w, x, v, n);
            assert(0 <= v[q] < k as int);
        }
    }
}

// the first word
pub proof fn gen_first(n: nat, k: nat, w: Seq<int>, z: Seq<int>)
    requires w.len() == 0, n > 0, k > 0, z == seq![0int],
    ensures lynext(n, k, w, z),
{
    lyn_single(z, 0);
    assert(plt_at(w, z, 0));
    assert forall|v: Seq<int>| #[trigger] lyword(v, n, k) && plt(w, v) implies !plt(v, z) by {
        assert(0 <= v[0]);
        if plt(v, z) {
            let r = choose|r: int| #[trigger] plt_at(v, z, r);
            assert(plt_at(v, z, r));
        }
    }
}

pub proof fn rep_digits(n: nat, k: nat, w: Seq<int>, x: Seq<int>)
    requires digits(w, k as int), repeats(x, w, n),
    ensures digits(x, k as int),
{
    assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < k as int by { rep_digit(n, k, w, x, i); }
}

proof fn rep_digit(n: nat, k: nat, w: Seq<int>, x: Seq<int>, i: int)
    requires digits(w, k as int), repeats(x, w, n), 0 <= i < n,
    ensures 0 <= x[i] < k as int,
    decreases i,
{
    let m = w.len() as int;
    if i < m {
        assert(x[i] == w[i]);
    } else {
        per_use(x, 0, n as int, m, i);
        rep_digit(n, k, w, x, i - m);
    }
}

pub proof fn rep_push(s: Seq<u8>, t: Seq<u8>, w: Seq<int>)
    requires repeats(dg(s), w, s.len()), t == s.push(s[s.len() - w.len()]),
    ensures repeats(dg(t), w, t.len()),
{
    let x = dg(s);
    let y = dg(t);
    let m = w.len() as int;
    assert(per(y, 0, t.len() as int, m)) by {
        assert forall|i: int| 0 + m <= i < t.len() implies #[trigger] y[i] == y[i - m] by {
            if i < s.len() {
                per_use(x, 0, s.len() as int, m, i);
                assert(x[i] == y[i] && x[i - m] == y[i - m]);
            }
        }
    }
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] y[i] == w[i] by { assert(x[i] == w[i]); }
}

// ---- the order is total; numbers of words
pub proof fn plt_trans(u: Seq<int>, v: Seq<int>, w: Seq<int>)
    requires plt(u, v), plt(v, w),
    ensures plt(u, w),
{
    let q = choose|q: int| #[trigger] plt_at(u, v, q);
    let r = choose|r: int| #[trigger] plt_at(v, w, r);
    assert(plt_at(u, v, q) && plt_at(v, w, r));
    let m = if q < r { q } else { r };
    assert forall|i: int| 0 <= i < m implies #[trigger] u[i] == w[i] by { assert(u[i] == v[i] && v[i] == w[i]); }
    if q < r { assert(v[q] == w[q]); }
    if r < q { assert(u[r] == v[r]); }
    assert(plt_at(u, w, m));
}

pub proof fn plt_irr(u: Seq<int>)
    ensures !plt(u, u),
{
}

pub proof fn plt_total(u: Seq<int>, v: Seq<int>)
    ensures plt(u, v) || plt(v, u) || u == v,
{
    if u.len() <= v.len() {
        plt_tot(u, v);
    } else {
        plt_tot(v, u);
    }
}

proof fn plt_tot(u: Seq<int>, v: Seq<int>)
    requires u.len() <= v.len(),
    ensures plt(u, v) || plt(v, u) || u == v,
{
    let q = agree(u, v, 0);
    if q < u.len() {
        if u[q] < v[q] { assert(plt_at(u, v, q)); } else {
            assert forall|i: int| 0 <= i < q implies #[trigger] v[i] == u[i] by { assert(u[i] == v[i]); }
            assert(plt_at(v, u, q));
        }
    } else if u.len() < v.len() {
        assert(plt_at(u, v, q));
    } else {
        assert(u =~= v);
    }
}

// w padded to the length n: larger words have larger numbers
pub open spec fn padded(w: Seq<int>, n: nat) -> Seq<int> {
    Seq::new(n, |i: int| if i < w.len() { w[i] + 1 } else { 0 })
}

pub open spec fn code(w: Seq<int>, n: nat, k: nat) -> int {
    val(padded(w, n), k as int + 1)
}

pub proof fn code_range(w: Seq<int>, n: nat, k: nat)
    requires digits(w, k as int),
    ensures 0 <= code(w, n, k) < pw(k as int + 1, n),
{
    let p = padded(w, n);
    assert(digits(p, k as int + 1)) by {
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < k as int + 1 by {
            if i < w.len() { assert(0 <= w[i] < k as int); }
        }
    }
    val_range(p, k as int + 1);
}

pub proof fn code_mono(v: Seq<int>, w: Seq<int>, n: nat, k: nat)
    requires digits(v, k as int), digits(w, k as int), v.len() <= n, w.len() <= n, plt(v, w),
    ensures code(v, n, k) < code(w, n, k),
{
    let p = padded(v, n);
    let r = padded(w, n);
    let q = choose|q: int| #[trigger] plt_at(v, w, q);
    assert(plt_at(v, w, q));
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < k as int + 1 by {
        if i < v.len() { assert(0 <= v[i] < k as int); }
    }
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < k as int + 1 by {
        if i < w.len() { assert(0 <= w[i] < k as int); }
    }
    assert(0 <= w[q] < k as int);
    assert forall|i: int| 0 <= i < q implies #[trigger] p[i] == r[i] by { assert(v[i] == w[i]); }
    assert(lexw_at(p, r, q));
    lex_val(p, r, k as int + 1);
}

// ---- the whole sequence of calls
// ws[i]: the word after i calls; the calls 0..c yield words, the items of all later calls are None
pub open spec fn increasing(ws: Seq<Seq<int>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ws.len() ==> plt(#[trigger] ws[i], #[trigger] ws[j])
}

// ws are the Lyndon words not larger than the last of them
pub open spec fn lyn_list(ws: Seq<Seq<int>>, n: nat, k: nat) -> bool {
    &&& increasing(ws)
    &&& forall|i: int| 0 <= i < ws.len() ==> lyword(#[trigger] ws[i], n, k)
    &&& forall|v: Seq<int>| #[trigger] lyword(v, n, k) ==> ws.contains(v) || plt(last_of(ws), v)
}

pub open spec fn last_of(ws: Seq<Seq<int>>) -> Seq<int> {
    if ws.len() == 0 { Seq::empty() } else { ws.last() }
}

// ws are all Lyndon words
pub open spec fn lyn_all(ws: Seq<Seq<int>>, n: nat, k: nat) -> bool {
    &&& increasing(ws)
    &&& forall|i: int| 0 <= i < ws.len() ==> lyword(#[trigger] ws[i], n, k)
    &&& forall|v: Seq<int>| #[trigger] lyword(v, n, k) ==> ws.contains(v)
}

pub proof fn list_start(n: nat, k: nat)
    ensures lyn_list(Seq::<Seq<int>>::empty(), n, k),
{
    let e = Seq::<Seq<int>>::empty();
    assert forall|v: Seq<int>| #[trigger] lyword(v, n, k) implies plt(last_of(e), v) by { assert(plt_at(last_of(e), v, 0)); }
}

pub proof fn list_push(ws: Seq<Seq<int>>, n: nat, k: nat, z: Seq<int>)
    requires lyn_list(ws, n, k), lynext(n, k, last_of(ws), z),
    ensures lyn_list(ws.push(z), n, k),
{
    let us = ws.push(z);
    assert forall|i: int, j: int| 0 <= i < j < us.len() implies plt(#[trigger] us[i], #[trigger] us[j]) by {
        if j == ws.len() && i < ws.len() - 1 {
            assert(plt(ws[i], ws[ws.len() - 1]));
            plt_trans(ws[i], ws[ws.len() - 1], z);
        }
    }
    assert forall|v: Seq<int>| #[trigger] lyword(v, n, k) implies us.contains(v) || plt(last_of(us), v) by {
        if ws.contains(v) {
            let i = choose|i: int| 0 <= i < ws.len() && ws[i] == v;
            assert(us[i] == v);
        } else {
            plt_total(v, z);
            if v == z { assert(us[ws.len() as int] == v); }
        }
    }
}

pub proof fn list_end(ws: Seq<Seq<int>>, n: nat, k: nat)
    requires lyn_list(ws, n, k), n == 0 || lynlast(n, k, last_of(ws)),
    ensures lyn_all(ws, n, k),
{
}

pub proof fn list_unique(us: Seq<Seq<int>>, ws: Seq<Seq<int>>, n: nat, k: nat, i: int)
    requires lyn_all(us, n, k), lyn_all(ws, n, k), 0 <= i <= us.len(), 0 <= i <= ws.len(),
    ensures forall|j: int| 0 <= j < i ==> #[trigger] us[j] == ws[j],
    decreases i,
{
    if i > 0 {
        list_unique(us, ws, n, k, i - 1);
        let j = i - 1;
        plt_total(us[j], ws[j]);
        if plt(us[j], ws[j]) {
            list_smaller(us, ws, n, k, j);
        } else if plt(ws[j], us[j]) {
            list_smaller(ws, us, n, k, j);
        }
    }
}

proof fn list_smaller(us: Seq<Seq<int>>, ws: Seq<Seq<int>>, n: nat, k: nat, j: int)
    requires
        lyn_all(us, n, k), lyn_all(ws, n, k), 0 <= j < us.len(), j < ws.len(), plt(us[j], ws[j]),
        forall|x: int| 0 <= x < j ==> #[trigger] us[x] == ws[x],
    ensures false,
{
    assert(lyword(us[j], n, k));
    let x = choose|x: int| 0 <= x < ws.len() && ws[x] == us[j];
    if x < j {
        assert(us[x] == ws[x]);
        assert(plt(us[x], us[j]));
        plt_irr(us[j]);
    } else if x == j {
        plt_irr(us[j]);
    } else {
        assert(plt(ws[j], ws[x]));
        plt_trans(us[j], ws[j], us[j]);
        plt_irr(us[j]);
    }
}

// n[i], w[i]: the state after i calls of next, items[i]: what call i returns.
// the first c calls yield the list of all Lyndon words, all later calls yield nothing
pub open spec fn gen_history(ns: Seq<nat>, st: Seq<Seq<int>>, items: Seq<Option<Seq<int>>>, n: nat, k: nat) -> bool {
    &&& ns.len() == items.len() + 1 && st.len() == items.len() + 1
    &&& ns[0] == n && st[0].len() == 0
    &&& forall|i: int| 0 <= i < items.len() ==> gen_step(ns[i], k, st[i], ns[i + 1], st[i + 1], #[trigger] items[i])
}

// the words of the first i calls
pub open spec fn yielded(items: Seq<Option<Seq<int>>>, i: int) -> Seq<Seq<int>>
    decreases i,
{
    if i <= 0 { Seq::empty() } else {
        match items[i - 1] { Some(z) => yielded(items, i - 1).push(z), None => yielded(items, i - 1) }
    }
}

pub proof fn gen_run(ns: Seq<nat>, st: Seq<Seq<int>>, items: Seq<Option<Seq<int>>>, n: nat, k: nat, i: int)
    requires
        gen_history(ns, st, items, n, k), 0 <= i <= items.len(),
    ensures
        ({
            let ws = yielded(items, i);
            // nothing has ended: i words, the smallest Lyndon words
            ||| (ns[i] == n && st[i] == last_of(ws) && ws.len() == i && lyn_list(ws, n, k) && forall|j: int| 0 <= j < i ==> #[trigger] items[j] is Some)
            // ended: all Lyndon words, and nothing more to come
            ||| (ns[i] == 0 && lyn_all(ws, n, k) && exists|c: int| #[trigger] ended(items, i, c))
        }),
    decreases i,
{
    if i == 0 {
        list_start(n, k);
        assert(st[0] =~= Seq::<int>::empty());
    } else {
        gen_run(ns, st, items, n, k, i - 1);
        let j = i - 1;
        let ws = yielded(items, j);
        assert(gen_step(ns[j], k, st[j], ns[j + 1], st[j + 1], items[j]));
        if items[j] is Some {
            if ns[j] == n && n > 0 {
                list_push(ws, n, k, items[j]->0);
            }
        } else {
            if ns[j] == n && st[j] == last_of(ws) && ws.len() == j && lyn_list(ws, n, k) && (forall|x: int| 0 <= x < j ==> #[trigger] items[x] is Some) {
                list_end(ws, n, k);
                assert(ended(items, i, j));
            } else {
                let c = choose|c: int| #[trigger] ended(items, j, c);
                assert(ended(items, i, c));
            }
        }
    }
}

pub open spec fn ended(items: Seq<Option<Seq<int>>>, i: int, c: int) -> bool {
    &&& 0 <= c < i
    &&& forall|j: int| 0 <= j < c ==> #[trigger] items[j] is Some
    &&& forall|j: int| c <= j < i ==> #[trigger] items[j] is None
}

// a strictly increasing list of words is not longer than the largest number
pub proof fn list_bound(ws: Seq<Seq<int>>, n: nat, k: nat, i: int)
    requires increasing(ws), forall|j: int| 0 <= j < ws.len() ==> lyword(#[trigger] ws[j], n, k), 0 <= i < ws.len(),
    ensures code(ws[i], n, k) >= i, i < pw(k as int + 1, n),
    decreases i,
{
    assert(lyword(ws[i], n, k));
    code_range(ws[i], n, k);
    if i > 0 {
        list_bound(ws, n, k, i - 1);
        assert(lyword(ws[i - 1], n, k));
        assert(plt(ws[i - 1], ws[i]));
        code_mono(ws[i - 1], ws[i], n, k);
    }
}

// the generator ends, and what it yields are all Lyndon words in increasing order
pub proof fn gen_ends(ns: Seq<nat>, st: Seq<Seq<int>>, items: Seq<Option<Seq<int>>>, n: nat, k: nat)
    requires
        gen_history(ns, st, items, n, k), items.len() > pw(k as int + 1, n),
    ensures
        lyn_all(yielded(items, items.len() as int), n, k),
        exists|c: int| #[trigger] ended(items, items.len() as int, c),
{
    let i = items.len() as int;
    gen_run(ns, st, items, n, k, i);
    let ws = yielded(items, i);
    pw_pos(k as int + 1, n);
    if ns[i] == n && st[i] == last_of(ws) && ws.len() == i && lyn_list(ws, n, k) {
        list_bound(ws, n, k, i - 1);
        if i - 1 < pw(k as int + 1, n) { }
    }
}

} // verus!
