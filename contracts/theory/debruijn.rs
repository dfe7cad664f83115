//@ needs necklace perm words
verus! {

// ---- the successor rule of Sawada, Williams and Wong over the letters a = 97 and b = 98
pub open spec fn ab(w: Seq<int>) -> bool {
    forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == 97 || w[i] == 98
}

pub open spec fn flip(c: int) -> int {
    if c == 97 { 98 } else { 97 }
}

pub open spec fn succ(w: Seq<int>) -> Seq<int> {
    let y = w.drop_first();
    if nk(y.push(98)) { y.push(flip(w[0])) } else { y.push(w[0]) }
}

pub open spec fn all_a(n: nat) -> Seq<int> {
    Seq::new(n, |i: int| 97int)
}

// the word after j steps
pub open spec fn st(n: nat, j: nat) -> Seq<int>
    decreases j,
{
    if j == 0 { all_a(n) } else { succ(st(n, (j - 1) as nat)) }
}

pub open spec fn in_orbit(n: nat, w: Seq<int>) -> bool {
    exists|j: nat| w == #[trigger] st(n, j)
}

pub open spec fn nbs(w: Seq<int>) -> nat
    decreases w.len(),
{
    if w.len() == 0 { 0 } else { nbs(w.drop_first()) + if w[0] == 98 { 1nat } else { 0 } }
}

pub proof fn nbs_push(w: Seq<int>, c: int)
    ensures nbs(w.push(c)) == nbs(w) + if c == 98 { 1nat } else { 0 },
    decreases w.len(),
{
    if w.len() == 0 {
        assert(w.push(c).drop_first() =~= Seq::<int>::empty());
        assert(nbs(Seq::<int>::empty()) == 0);
    } else {
        assert(w.push(c).drop_first() =~= w.drop_first().push(c));
        nbs_push(w.drop_first(), c);
    }
}

pub proof fn nbs_bound(w: Seq<int>)
    ensures nbs(w) <= w.len(),
    decreases w.len(),
{
    if w.len() > 0 { nbs_bound(w.drop_first()); }
}

pub proof fn nbs_zero(w: Seq<int>, i: int)
    requires nbs(w) == 0, 0 <= i < w.len(),
    ensures w[i] != 98,
    decreases i,
{
    if i > 0 {
        nbs_zero(w.drop_first(), i - 1);
        assert(w.drop_first()[i - 1] == w[i]);
    }
}

pub proof fn rot_one(w: Seq<int>)
    requires w.len() > 0,
    ensures rot(w, 1) == w.drop_first().push(w[0]), nbs(rot(w, 1)) == nbs(w), ab(w) ==> ab(rot(w, 1)),
{
    hide(rot);
    hide(cyc);
    rot_at(w, 1, 0);
    let n = w.len() as int;
    let v = w.drop_first().push(w[0]);
    assert forall|t: int| 0 <= t < n implies rot(w, 1)[t] == v[t] by {
        rot_at(w, 1, t);
        if t < n - 1 {
            cyc_in(w, 1 + t);
        } else {
            rot_zero(w);
            cyc_in(w, 0);
            cyc_add(w, 0);
        }
    }
    assert(rot(w, 1) =~= v);
    nbs_push(w.drop_first(), w[0]);
    if ab(w) {
        assert forall|i: int| 0 <= i < n implies #[trigger] v[i] == 97 || v[i] == 98 by {
            if i < n - 1 { assert(v[i] == w[i + 1]); } else { assert(v[i] == w[0]); }
        }
    }
}

pub proof fn rot_facts(w: Seq<int>, i: int)
    requires w.len() > 0, 0 <= i,
    ensures nbs(rot(w, i)) == nbs(w), ab(w) ==> ab(rot(w, i)), rot(w, i).len() == w.len(),
    decreases i,
{
    if i == 0 {
        rot_zero(w);
    } else {
        rot_facts(w, i - 1);
        rot_rot(w, i - 1, 1);
        rot_one(rot(w, i - 1));
    }
}

pub proof fn orbit_succ(n: nat, w: Seq<int>)
    requires in_orbit(n, w),
    ensures in_orbit(n, succ(w)),
{
    let j = choose|j: nat| w == #[trigger] st(n, j);
    assert(st(n, j + 1) == succ(w));
}

// b y when y b is given
pub proof fn rot_back(y: Seq<int>, c: int)
    ensures
        rot(y.push(c), y.len() as int).len() == y.len() + 1,
        rot(y.push(c), y.len() as int)[0] == c,
        rot(y.push(c), y.len() as int).drop_first() == y,
{
    hide(rot);
    hide(ab);
    hide(nbs);
    let w = y.push(c);
    let n = w.len() as int;
    let v = rot(w, n - 1);
    rot_facts(w, n - 1);
    rot_rot(w, n - 1, 1);
    rot_zero(w);
    rot_one(v);
    assert(v.drop_first().push(v[0]) == w);
    assert(w.drop_last() =~= y);
    assert(v.drop_first().push(v[0]).drop_last() =~= v.drop_first());
    assert(v.drop_first().push(v[0]).last() == v[0]);
}

// if a necklace that ends with b is reached, all its rotations are
pub proof fn orbit_rotations(n: nat, w: Seq<int>, i: int)
    requires w.len() == n, n > 0, ab(w), nk(w), w[n - 1] == 98, in_orbit(n, w), 0 <= i <= n,
    ensures in_orbit(n, rot(w, i)),
    decreases n - nbs(w), i,
{
    hide(rot);
    hide(nk);
    nbs_bound(w);
    if i == 0 {
        rot_zero(w);
    } else {
        orbit_rotations(n, w, i - 1);
        let v = rot(w, i - 1);
        rot_facts(w, i - 1);
        rot_rot(w, i - 1, 1);
        rot_one(v);
        let y = v.drop_first();
        let c = v[0];
        orbit_succ(n, v);
        if nk(y.push(98)) {
            assert(c == 97 || c == 98);
            if c == 98 {
                nk_unique(w, i);
            } else {
                let u = y.push(98);
                assert(succ(v) == u);
                assert(ab(u));
                nbs_push(y, 98);
                nbs_push(y, 97);
                nbs_bound(u);
                assert(nbs(u) == nbs(w) + 1);
                orbit_rotations(n, u, n - 1);
                rot_back(y, 98);
                orbit_succ(n, rot(u, n - 1));
                assert(succ(rot(u, n - 1)) == y.push(97));
            }
        }
    }
}

// every word is reached
pub proof fn orbit_all(n: nat, w: Seq<int>)
    requires w.len() == n, n > 0, ab(w),
    ensures in_orbit(n, w),
    decreases nbs(w),
{
    hide(rot);
    hide(nk);
    if nbs(w) == 0 {
        assert forall|i: int| 0 <= i < n implies w[i] == 97 by { nbs_zero(w, i); }
        assert(w =~= all_a(n));
        assert(w == st(n, 0));
    } else {
        let r = nk_exists(w);
        let m = rot(w, r);
        rot_facts(w, r);
        nk_last(m);
        assert(m[n - 1] == 98) by {
            if m[n - 1] != 98 {
                assert(m[n - 1] == 97);
                assert(m[0] == 97 || m[0] == 98);
                assert forall|i: int| 0 <= i < n implies m[i] != 98 by { assert(m[i] == m[0]); assert(m[n - 1] == m[0]); }
                no_b(m);
            }
        }
        let x = m.drop_last();
        assert(x.push(98) =~= m);
        nbs_push(x, 98);
        let v = rot(x.push(97), n - 1);
        nbs_push(x, 97);
        rot_facts(x.push(97), n - 1);
        rot_back(x, 97);
        assert(ab(x.push(97))) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] x.push(97)[i] == 97 || x.push(97)[i] == 98 by {
                if i < n - 1 { assert(x.push(97)[i] == m[i]); }
            }
        }
        orbit_all(n, v);
        orbit_succ(n, v);
        assert(succ(v) == m);
        orbit_rotations(n, m, n - r);
        rot_rot(w, r, n - r);
        rot_zero(w);
    }
}

pub proof fn no_b(w: Seq<int>)
    requires forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != 98,
    ensures nbs(w) == 0,
    decreases w.len(),
{
    if w.len() > 0 {
        assert(w[0] != 98);
        assert forall|i: int| 0 <= i < w.drop_first().len() implies #[trigger] w.drop_first()[i] != 98 by { assert(w[i + 1] != 98); }
        no_b(w.drop_first());
    }
}

pub proof fn st_facts(n: nat, j: nat)
    requires n > 0,
    ensures st(n, j).len() == n, ab(st(n, j)),
    decreases j,
{
    if j > 0 {
        let w = st(n, (j - 1) as nat);
        st_facts(n, (j - 1) as nat);
        let v = succ(w);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == 97 || v[i] == 98 by {
            if i < n - 1 { assert(v[i] == w[i + 1]); } else { assert(w[0] == 97 || w[0] == 98); }
        }
    }
}

// successor is injective
pub proof fn succ_inj(u: Seq<int>, w: Seq<int>)
    requires u.len() == w.len(), u.len() > 0, ab(u), ab(w), succ(u) == succ(w),
    ensures u == w,
{
    let y = u.drop_first();
    let z = w.drop_first();
    assert(succ(u).drop_last() =~= y);
    assert(succ(w).drop_last() =~= z);
    assert(y == z);
    assert(succ(u).last() == succ(w).last());
    assert(u[0] == 97 || u[0] == 98);
    assert(w[0] == 97 || w[0] == 98);
    let d = nk(y.push(98));
    assert(succ(u).last() == if d { flip(u[0]) } else { u[0] });
    assert(succ(w).last() == if d { flip(w[0]) } else { w[0] });
    assert(u[0] == w[0]);
    assert forall|i: int| 0 <= i < u.len() implies u[i] == w[i] by {
        if i > 0 { assert(u[i] == y[i - 1] && w[i] == z[i - 1]); }
    }
    assert(u =~= w);
}

pub proof fn st_back(n: nat, i: nat, j: nat)
    requires n > 0, i <= j, st(n, i) == st(n, j),
    ensures st(n, 0) == st(n, (j - i) as nat),
    decreases i,
{
    if i > 0 {
        st_facts(n, (i - 1) as nat);
        st_facts(n, (j - 1) as nat);
        succ_inj(st(n, (i - 1) as nat), st(n, (j - 1) as nat));
        st_back(n, (i - 1) as nat, (j - 1) as nat);
    }
}

// the first word is not reached again in the first m steps
pub open spec fn fresh(n: nat, m: nat) -> bool {
    forall|j: nat| 1 <= j <= m ==> #[trigger] st(n, j) != all_a(n)
}

// ---- words as numbers
pub open spec fn wval(w: Seq<int>) -> nat
    decreases w.len(),
{
    if w.len() == 0 { 0 } else { 2 * wval(w.drop_last()) + if w.last() == 98 { 1nat } else { 0 } }
}

pub proof fn wval_bound(w: Seq<int>)
    ensures wval(w) < pow2(w.len()),
    decreases w.len(),
{
    if w.len() == 0 {
        pow2_zero();
    } else {
        wval_bound(w.drop_last());
        pow2_step((w.len() - 1) as nat);
    }
}

pub proof fn wval_inj(u: Seq<int>, w: Seq<int>)
    requires u.len() == w.len(), ab(u), ab(w), wval(u) == wval(w),
    ensures u == w,
    decreases u.len(),
{
    if u.len() == 0 {
        assert(u =~= w);
    } else {
        assert(ab(u.drop_last()) && ab(w.drop_last()));
        wval_inj(u.drop_last(), w.drop_last());
        assert(u[u.len() - 1] == 97 || u[u.len() - 1] == 98);
        assert(w[w.len() - 1] == 97 || w[w.len() - 1] == 98);
        assert(u =~= u.drop_last().push(u.last()));
        assert(w =~= w.drop_last().push(w.last()));
    }
}

pub proof fn wval_onto(n: nat, x: nat) -> (w: Seq<int>)
    requires x < pow2(n),
    ensures w.len() == n, ab(w), wval(w) == x,
    decreases n,
{
    if n == 0 {
        pow2_zero();
        Seq::empty()
    } else {
        pow2_step((n - 1) as nat);
        let v = wval_onto((n - 1) as nat, x / 2);
        let w = v.push(if x % 2 == 1 { 98 } else { 97 });
        assert(w.drop_last() =~= v);
        w
    }
}

// the values of the first k words
pub open spec fn vals(n: nat, k: nat) -> Seq<int> {
    Seq::new(k, |i: int| wval(st(n, i as nat)) as int)
}

pub proof fn vals_inj(n: nat, m: nat)
    requires n > 0, fresh(n, m),
    ensures forall|i: int, j: int| 0 <= i < j < m + 1 ==> #[trigger] vals(n, m + 1)[i] != #[trigger] vals(n, m + 1)[j],
{
    let p = vals(n, m + 1);
    assert forall|i: int, j: int| 0 <= i < j < m + 1 implies #[trigger] p[i] != #[trigger] p[j] by {
        st_facts(n, i as nat);
        st_facts(n, j as nat);
        if p[i] == p[j] {
            wval_inj(st(n, i as nat), st(n, j as nat));
            st_back(n, i as nat, j as nat);
            assert(st(n, (j - i) as nat) == all_a(n));
        }
    }
}

// at most 2^n words before the first return
pub proof fn fresh_bound(n: nat, m: nat)
    requires n > 0, fresh(n, m),
    ensures m + 1 <= pow2(n),
{
    let p = vals(n, m + 1);
    vals_inj(n, m);
    lemma_pow2_pos(n);
    let full = range_set(pow2(n) as int);
    let r = inj_set(p, (m + 1) as int);
    assert forall|x: int| r.contains(x) implies full.contains(x) by {
        let i = choose|i: int| 0 <= i < m + 1 && p[i] == x;
        st_facts(n, i as nat);
        wval_bound(st(n, i as nat));
    }
    assert(r.subset_of(full));
    vstd::set_lib::lemma_len_subset(r, full);
}

// after a return, the words repeat
pub proof fn st_period(n: nat, m: nat, j: nat)
    requires m > 0, st(n, m) == all_a(n),
    ensures st(n, j) == st(n, (j % m) as nat), st(n, j + m) == st(n, j),
    decreases j,
{
    st_shift(n, m, j);
    if j < m {
        vstd::arithmetic::div_mod::lemma_small_mod(j, m);
    } else {
        st_period(n, m, (j - m) as nat);
        st_shift(n, m, (j - m) as nat);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(j - m, m as int);
        assert(m + (j - m) == j);
    }
}

pub proof fn st_shift(n: nat, m: nat, j: nat)
    requires m > 0, st(n, m) == all_a(n),
    ensures st(n, j + m) == st(n, j),
    decreases j,
{
    if j > 0 { st_shift(n, m, (j - 1) as nat); }
}

// the first return happens after exactly 2^n steps
pub proof fn return_time(n: nat, m: nat)
    requires n > 0, m > 0, st(n, m) == all_a(n), fresh(n, (m - 1) as nat),
    ensures m == pow2(n),
{
    fresh_bound(n, (m - 1) as nat);
    let p = vals(n, m);
    vals_inj(n, (m - 1) as nat);
    let full = range_set(pow2(n) as int);
    let r = inj_set(p, m as int);
    assert forall|x: int| full.contains(x) implies r.contains(x) by {
        let w = wval_onto(n, x as nat);
        orbit_all(n, w);
        let j = choose|j: nat| w == #[trigger] st(n, j);
        st_period(n, m, j);
        vstd::arithmetic::div_mod::lemma_mod_bound(j as int, m as int);
        let i = j as int % m as int;
        assert(0 <= i < m && p[i] == x);
    }
    assert(full.subset_of(r));
    vstd::set_lib::lemma_len_subset(full, r);
}

// ---- the output
pub open spec fn ints(s: Seq<u8>) -> Seq<int> {
    Seq::new(s.len(), |i: int| s[i] as int)
}

// o holds the characters appended in the first steps
pub open spec fn appended(n: nat, o: Seq<int>) -> bool {
    forall|t: int| 0 <= t < o.len() ==> #[trigger] o[t] == st(n, (t + 1) as nat)[n - 1]
}

// w occurs at position t of o, read cyclically
pub open spec fn occurs_cyc(o: Seq<int>, w: Seq<int>, t: int) -> bool {
    0 <= t < o.len() && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == cyc(o, t + i)
}

// o is a de Bruijn word of order n: every word of length n over a and b occurs exactly once
pub open spec fn de_bruijn(o: Seq<int>, n: nat) -> bool {
    &&& o.len() == pow2(n)
    &&& ab(o)
    &&& forall|w: Seq<int>| w.len() == n && #[trigger] ab(w) ==> occurs_once(o, w)
}

pub open spec fn occurs_once(o: Seq<int>, w: Seq<int>) -> bool {
    &&& exists|t: int| #[trigger] occurs_cyc(o, w, t)
    &&& forall|t: int, u: int| #[trigger] occurs_cyc(o, w, t) && #[trigger] occurs_cyc(o, w, u) ==> t == u
}

// the characters of a word were appended in the last n steps
pub proof fn st_chars(n: nat, j: nat, i: int)
    requires n > 0, 0 <= i < n, j + i >= n - 1,
    ensures st(n, j)[i] == st(n, (j - (n - 1 - i)) as nat)[n - 1],
    decreases n - i,
{
    if i < n - 1 {
        let w = st(n, (j - 1) as nat);
        st_facts(n, (j - 1) as nat);
        assert(j > 0);
        assert(succ(w)[i] == w[i + 1]);
        st_chars(n, (j - 1) as nat, i + 1);
    }
}

pub proof fn cyc_out(n: nat, m: nat, o: Seq<int>, t: int)
    requires n > 0, m > 0, o.len() == m, st(n, m) == all_a(n), appended(n, o), 0 <= t,
    ensures cyc(o, t) == st(n, (t + 1) as nat)[n - 1],
{
    mod_pos(t, m as int);
    let q = t % (m as int);
    assert(cyc(o, t) == o[q]);
    st_period(n, m, (t + 1) as nat);
    st_period(n, m, (q + 1) as nat);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(1, t, m as int);
    assert((1 + t % (m as int)) == q + 1);
}

// the window at t is the word after t + n steps
pub proof fn window(n: nat, m: nat, o: Seq<int>, t: int)
    requires n > 0, m > 0, o.len() == m, st(n, m) == all_a(n), appended(n, o), 0 <= t < m,
    ensures
        occurs_cyc(o, st(n, (t + n) as nat), t),
        forall|w: Seq<int>| w.len() == n && occurs_cyc(o, w, t) ==> w == st(n, (t + n) as nat),
{
    let v = st(n, (t + n) as nat);
    st_facts(n, (t + n) as nat);
    assert forall|i: int| 0 <= i < n implies #[trigger] v[i] == cyc(o, t + i) by {
        st_chars(n, (t + n) as nat, i);
        cyc_out(n, m, o, t + i);
        assert((t + n) - (n - 1 - i) == t + i + 1);
    }
    assert forall|w: Seq<int>| w.len() == n && occurs_cyc(o, w, t) implies w == v by {
        assert forall|i: int| 0 <= i < n implies w[i] == v[i] by {}
        assert(w =~= v);
    }
}

// the theorem: the output at the first return is a de Bruijn word
pub proof fn de_bruijn_thm(n: nat, o: Seq<int>)
    requires
        n > 0, o.len() > 0, appended(n, o), st(n, o.len()) == all_a(n), fresh(n, (o.len() - 1) as nat),
    ensures
        de_bruijn(o, n),
{
    let m = o.len();
    return_time(n, m);
    assert forall|i: int| 0 <= i < m implies #[trigger] o[i] == 97 || o[i] == 98 by {
        st_facts(n, (i + 1) as nat);
    }
    assert forall|w: Seq<int>| w.len() == n && #[trigger] ab(w) implies occurs_once(o, w) by {
        orbit_all(n, w);
        let j = choose|j: nat| w == #[trigger] st(n, j);
        // a step number that is congruent and at least n
        let k = (j + n * m) as int;
        shift_many(n, m, j, n);
        let t0 = k - n;
        assert(n * m >= n) by (nonlinear_arith) requires m >= 1;
        mod_pos(t0, m as int);
        let t = t0 % (m as int);
        st_period(n, m, k as nat);
        st_period(n, m, (t + n) as nat);
        vstd::arithmetic::div_mod::lemma_add_mod_noop_right(n as int, t0, m as int);
        assert(n + t % (m as int) == t + n) by { vstd::arithmetic::div_mod::lemma_small_mod(t as nat, m); }
        assert(st(n, (t + n) as nat) == w);
        window(n, m, o, t);
        assert(occurs_cyc(o, w, t));
        assert forall|t: int, u: int| #[trigger] occurs_cyc(o, w, t) && #[trigger] occurs_cyc(o, w, u) implies t == u by {
            window(n, m, o, t);
            window(n, m, o, u);
            if t < u { once(n, m, t, u); }
            if u < t { once(n, m, u, t); }
        }
    }
}

proof fn shift_many(n: nat, m: nat, j: nat, k: nat)
    requires m > 0, st(n, m) == all_a(n),
    ensures st(n, (j + k * m) as nat) == st(n, j),
    decreases k,
{
    if k > 0 {
        shift_many(n, m, j, (k - 1) as nat);
        st_shift(n, m, (j + (k - 1) * m) as nat);
        assert((k - 1) * m + m == k * m) by (nonlinear_arith);
        assert((k - 1) * m >= 0) by (nonlinear_arith) requires k >= 1, m >= 0;
    } else {
        assert(k * m == 0) by (nonlinear_arith) requires k == 0;
    }
}

proof fn once(n: nat, m: nat, t: int, u: int)
    requires
        n > 0, m > 0, 0 <= t < u < m, fresh(n, (m - 1) as nat),
        st(n, (t + n) as nat) == st(n, (u + n) as nat),
    ensures
        false,
{
    st_back(n, (t + n) as nat, (u + n) as nat);
    assert(st(n, (u - t) as nat) == all_a(n));
}

} // verus!
