//@ needs mbwt
verus! {

pub open spec fn shift(n: int, c: int, x: int) -> int {
    if x + c < n { x + c } else { x + c - n }
}

pub open spec fn rotated<C>(t: Seq<C>, c: int) -> Seq<C> {
    t.subrange(c, t.len() as int) + t.subrange(0, c)
}

proof fn shift_char(s: Seq<int>, w: Seq<int>, c: int, x: int, i: int)
    requires 0 <= c < s.len(), w == rotated(s, c), 0 <= x < s.len(), 0 <= i < s.len(),
    ensures doubled(w)[x + i] == doubled(s)[shift(s.len() as int, c, x) + i],
{
    let n = s.len() as int;
    let y = if x + i < n { x + i } else { x + i - n };
    assert(doubled(w)[x + i] == w[y]);
    assert(w[y] == s[shift(n, c, y)]);
}

// rotations of a rotation
proof fn shift_rot(s: Seq<int>, w: Seq<int>, c: int, x: int, y: int)
    requires
        0 <= c < s.len(), w == rotated(s, c), 0 <= x < s.len(), 0 <= y < s.len(),
    ensures
        rot_lt(w, x, y) <==> rot_lt(s, shift(s.len() as int, c, x), shift(s.len() as int, c, y)),
{
    let n = s.len() as int;
    let a = shift(n, c, x);
    let b = shift(n, c, y);
    let d = doubled(s);
    let e = doubled(w);
    assert forall|i: int| 0 <= i < n implies #[trigger] e[x + i] == d[a + i] && e[y + i] == d[b + i] by {
        shift_char(s, w, c, x, i);
        shift_char(s, w, c, y, i);
    }
    if rot_lt(w, x, y) {
        let q = choose|q: int| #[trigger] lt_at(e, x, x + n, y, y + n, q);
        assert(lt_at(e, x, x + n, y, y + n, q));
        assert forall|z: int| a <= z < a + q implies #[trigger] d[z] == d[z - a + b] by {
            eqr_at(e, x, y, q, z - a);
            assert(e[x + (z - a)] == d[a + (z - a)]);
        }
        assert(e[x + q] == d[a + q]);
        assert(lt_at(d, a, a + n, b, b + n, q));
    }
    if rot_lt(s, a, b) {
        let q = choose|q: int| #[trigger] lt_at(d, a, a + n, b, b + n, q);
        assert(lt_at(d, a, a + n, b, b + n, q));
        assert forall|z: int| x <= z < x + q implies #[trigger] e[z] == e[z - x + y] by {
            eqr_at(d, a, b, q, z - x);
            assert(e[x + (z - x)] == d[a + (z - x)]);
        }
        assert(e[x + q] == d[a + q]);
        assert(lt_at(e, x, x + n, y, y + n, q));
    }
}

pub open spec fn unsent(n: int, v: int) -> int {
    if v == n { 0 } else { v }
}

// the order of the suffixes of w0 refines the order of the rotations of a smallest rotation w
proof fn suf_rot(w: Seq<int>, u: Seq<int>, a: int, b: int)
    requires
        w.len() > 0, u == w.push(0), forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] > 0,
        min_rot(w, 0), 1 <= a <= w.len(), 1 <= b <= w.len(), suf_lt(u, a, b),
    ensures
        rot_le(w, unsent(w.len() as int, a), unsent(w.len() as int, b)),
{
    let n = w.len() as int;
    let d = doubled(w);
    let q = choose|q: int| #[trigger] lt_at(u, a, n + 1, b, n + 1, q);
    assert(lt_at(u, a, n + 1, b, n + 1, q));
    assert(d.len() == 2 * n);
    if a == n {
        let y = unsent(n, b);
        assert(!lt_sub(d, y, y + n, 0, 0 + n));
    } else if b == n {
        assert(q == 0);
        assert(u[a] == w[a]);
        assert(u[n] == 0);
    } else {
        if a + q == n + 1 {
            eqr_at(u, a, b, q, n - a);
            assert(u[n] == 0);
            assert(u[b + (n - a)] == w[b + (n - a)]);
        }
        assert(u[a + q] >= 0);
        assert(b + q < n);
        if a + q < n {
            assert forall|x: int| a <= x < a + q implies #[trigger] d[x] == d[x - a + b] by {
                assert(u[x] == u[x - a + b]);
            }
            assert(lt_at(d, a, a + n, b, b + n, q));
            lt_asym(d, a, a + n, b, b + n);
        } else if rot_lt(w, b, a) {
            let z = choose|z: int| #[trigger] lt_at(d, b, b + n, a, a + n, z);
            assert(lt_at(d, b, b + n, a, a + n, z));
            assert(a + q == n);
            if z < q {
                assert(u[a + z] == u[a + z - a + b]);
                assert(d[a + z] == u[a + z] && d[b + z] == u[b + z]);
            }
            let m = b + q;
            assert forall|x: int| m <= x < m + (z - q) implies #[trigger] d[x] == d[x - m + 0] by {
                eqr_at(d, b, a, z, x - b);
                assert(b + (x - b) == x);
                assert(a + (x - b) == n + (x - m));
                assert(d[n + (x - m)] == d[x - m]);
            }
            assert(a + z == n + (z - q));
            assert(d[a + z] == d[z - q]);
            assert(m + (z - q) == b + z);
            assert(lt_at(d, m, m + n, 0, 0 + n, z - q));
            assert(lt_sub(d, m, m + n, 0, 0 + n));
            assert(0 <= m < n);
        }
    }
}

pub open spec fn zero_free(t: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 0
}

spec fn src(k: int, i: int) -> int {
    if i < k { i } else { i + 1 }
}

// the order of the rotations of t that the suffix array of the rotated text gives
spec fn mp(n: int, c: int, sa: Seq<int>, k: int) -> Seq<int> {
    Seq::new(n as nat, |i: int| shift(n, c, unsent(n, sa[src(k, i)])))
}

spec fn mat_pre(t: Seq<u8>, c: int, sa: Seq<int>, b: Seq<u8>, k: int) -> bool {
    &&& t.len() > 0 && zero_free(t) && 0 <= c < t.len()
    &&& is_bwt(rotated(t, c).push(0), sa, b)
    &&& is_perm(sa)
    &&& 0 <= k < b.len() && sa[k] == 0
}

proof fn mat_entry(t: Seq<u8>, c: int, sa: Seq<int>, b: Seq<u8>, k: int, i: int)
    requires mat_pre(t, c, sa, b, k), 0 <= i < t.len(),
    ensures
        1 <= sa[src(k, i)] <= t.len(),
        0 <= mp(t.len() as int, c, sa, k)[i] < t.len(),
        b.remove(k)[i] == t[prev(t.len() as int, mp(t.len() as int, c, sa, k)[i])],
{
    let n = t.len() as int;
    let i2 = src(k, i);
    let v = sa[i2];
    assert(0 <= v < n + 1);
    assert(v != sa[k]);
    let tw = rotated(t, c);
    assert(b.remove(k)[i] == b[i2]);
    assert(b[i2] == tw.push(0)[prev(n + 1, v)]);
    assert(tw[v - 1] == t[shift(n, c, v - 1)]);
}

proof fn mat_perm(t: Seq<u8>, c: int, sa: Seq<int>, b: Seq<u8>, k: int)
    requires mat_pre(t, c, sa, b, k),
    ensures is_perm(mp(t.len() as int, c, sa, k)), is_bwt(t, mp(t.len() as int, c, sa, k), b.remove(k)),
{
    let n = t.len() as int;
    let pt = mp(n, c, sa, k);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pt[i] < n by {
        mat_entry(t, c, sa, b, k, i);
    }
    assert forall|i: int, j: int| 0 <= i < pt.len() && 0 <= j < pt.len() && i != j implies #[trigger] pt[i] != #[trigger] pt[j] by {
        mat_entry(t, c, sa, b, k, i);
        mat_entry(t, c, sa, b, k, j);
        assert(sa[src(k, i)] != sa[src(k, j)]);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] b.remove(k)[i] == t[prev(n, pt[i])] by {
        mat_entry(t, c, sa, b, k, i);
    }
}

proof fn mat_sorted(t: Seq<u8>, c: int, sa: Seq<int>, b: Seq<u8>, k: int, i: int, j: int)
    requires
        mat_pre(t, c, sa, b, k), 0 <= i < j < t.len(), min_rot(bs(rotated(t, c)), 0),
        is_sa(bs(rotated(t, c).push(0)), sa),
    ensures
        rot_le(bs(t), mp(t.len() as int, c, sa, k)[i], mp(t.len() as int, c, sa, k)[j]),
{
    let n = t.len() as int;
    let tw = rotated(t, c);
    let w = bs(tw);
    let u = bs(tw.push(0));
    assert(u =~= w.push(0));
    assert(w =~= rotated(bs(t), c));
    mat_entry(t, c, sa, b, k, i);
    mat_entry(t, c, sa, b, k, j);
    let x = sa[src(k, i)];
    let y = sa[src(k, j)];
    assert(suf_lt(u, x, y));
    assert forall|x: int| 0 <= x < w.len() implies #[trigger] w[x] > 0 by {
        assert(tw[x] == t[shift(n, c, x)]);
    }
    suf_rot(w, u, x, y);
    shift_rot(bs(t), w, c, unsent(n, y), unsent(n, x));
}

// removing the sentinel from the BWT of w0 gives the matrix BWT of t, w being a smallest rotation of t
pub proof fn mat_bwt(t: Seq<u8>, c: int, sa: Seq<int>, b: Seq<u8>, k: int)
    requires
        t.len() > 0, zero_free(t), min_rot(bs(t), c),
        is_bwt(rotated(t, c).push(0), sa, b), is_sa(bs(rotated(t, c).push(0)), sa),
        0 <= k < b.len(), b[k] == 0,
    ensures
        is_mbwt(t, b.remove(k)),
{
    let n = t.len() as int;
    let tw = rotated(t, c);
    let s = bs(t);
    let w = bs(tw);
    assert(w =~= rotated(s, c));
    sa_perm(bs(tw.push(0)), sa);
    assert(sa[k] == 0) by {
        assert(0 <= sa[k] < n + 1);
        assert(b[k] == tw.push(0)[prev(n + 1, sa[k])]);
        if sa[k] > 0 { assert(tw[sa[k] - 1] == t[shift(n, c, sa[k] - 1)]); }
    }
    // w is its own smallest rotation
    assert(min_rot(w, 0)) by {
        assert forall|p: int| 0 <= p < w.len() implies !#[trigger] lt_sub(doubled(w), p, p + w.len(), 0int, 0int + w.len()) by {
            shift_rot(s, w, c, p, 0);
            let y = shift(n, c, p);
            assert(!lt_sub(doubled(s), y, y + n, c, c + n));
            assert(rot_lt(w, p, 0) == lt_sub(doubled(w), p, p + w.len(), 0int, 0int + w.len()));
        }
    }
    let pt = mp(n, c, sa, k);
    mat_perm(t, c, sa, b, k);
    assert forall|i: int, j: int| 0 <= i < j < n implies rot_le(s, #[trigger] pt[i], #[trigger] pt[j]) by {
        mat_sorted(t, c, sa, b, k, i, j);
    }
    assert(rot_sorted(s, pt));
}

// the BWT of w0 contains the sentinel
pub proof fn has_zero(tu: Seq<u8>, sa: Seq<int>, b: Seq<u8>) -> (k: int)
    requires tu.len() > 0, tu[tu.len() - 1] == 0, is_bwt(tu, sa, b), is_sa(bs(tu), sa),
    ensures 0 <= k < b.len(), b[k] == 0,
{
    sa_perm(bs(tu), sa);
    let k = perm_at(sa, 0);
    assert(b[k] == tu[prev(tu.len() as int, sa[k])]);
    k
}

pub proof fn min_rot_iso(s: Seq<int>, t: Seq<int>, c: int)
    requires iso(s, t), min_rot(s, c),
    ensures min_rot(t, c),
{
    let n = s.len() as int;
    assert forall|p: int| 0 <= p < t.len() implies !#[trigger] lt_sub(doubled(t), p, p + t.len(), c, c + t.len()) by {
        iso_rot(s, t, p, c);
        assert(!lt_sub(doubled(s), p, p + s.len(), c, c + s.len()));
        assert(rot_lt(t, p, c) == lt_sub(doubled(t), p, p + t.len(), c, c + t.len()));
    }
}

} // verus!
