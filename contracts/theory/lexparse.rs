//@ needs plcp
verus! {

// ---- factors: (position or literal, length), length 0 for a literal
pub type Factors = Seq<(int, int)>;

pub open spec fn flen(f: Factors, x: int) -> int {
    if f[x].1 == 0 { 1 } else { f[x].1 }
}

// start of factor x
pub open spec fn fpos(f: Factors, x: int) -> int
    decreases x,
{
    if x <= 0 { 0 } else { fpos(f, x - 1) + flen(f, x - 1) }
}

// factor x is what lex-parse takes at its start
pub open spec fn lexf_at(s: Seq<int>, phi: Seq<int>, f: Factors, x: int) -> bool {
    let b = fpos(f, x);
    let l = plcp_at(s, phi[b], b);
    &&& 0 <= b < s.len()
    &&& l <= 0 ==> f[x] == (s[b], 0int)
    &&& l > 0 ==> f[x] == (phi[b], l)
}

// f factorizes the first k characters
pub open spec fn lexf_prefix(s: Seq<int>, phi: Seq<int>, f: Factors, k: int) -> bool {
    &&& fpos(f, f.len() as int) == k
    &&& forall|x: int| 0 <= x < f.len() ==> #[trigger] lexf_at(s, phi, f, x)
}

pub open spec fn is_lexparse(s: Seq<int>, phi: Seq<int>, f: Factors) -> bool {
    lexf_prefix(s, phi, f, s.len() as int)
}

pub proof fn fpos_push(f: Factors, e: (int, int), x: int)
    requires 0 <= x <= f.len(),
    ensures fpos(f.push(e), x) == fpos(f, x),
    decreases x,
{
    if x > 0 { fpos_push(f, e, x - 1); }
}

pub proof fn lexf_push(s: Seq<int>, phi: Seq<int>, f: Factors, k: int, e: (int, int))
    requires
        lexf_prefix(s, phi, f, k), 0 <= k < s.len(),
        ({ let l = plcp_at(s, phi[k], k); if l <= 0 { e == (s[k], 0int) } else { e == (phi[k], l) } }),
    ensures
        lexf_prefix(s, phi, f.push(e), k + if e.1 == 0 { 1 } else { e.1 }),
{
    let g = f.push(e);
    fpos_push(f, e, f.len() as int);
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] lexf_at(s, phi, g, x) by {
        fpos_push(f, e, x);
        if x < f.len() { assert(lexf_at(s, phi, f, x)); assert(g[x] == f[x]); }
    }
}

// t agrees with the factors: literals stand where they are, copies equal what they refer to
pub open spec fn agrees(f: Factors, t: Seq<int>, x: int) -> bool {
    let b = fpos(f, x);
    if f[x].1 == 0 { t[b] == f[x].0 } else { forall|d: int| 0 <= d < f[x].1 ==> #[trigger] t[b + d] == t[f[x].0 + d] }
}

pub open spec fn consistent(f: Factors, t: Seq<int>) -> bool {
    forall|x: int| 0 <= x < f.len() ==> #[trigger] agrees(f, t, x)
}

// the factor that contains position y
proof fn factor_of(s: Seq<int>, phi: Seq<int>, f: Factors, y: int, x: int) -> (r: int)
    requires 0 <= x <= f.len(), 0 <= y < fpos(f, x), forall|x: int| 0 <= x < f.len() ==> #[trigger] lexf_at(s, phi, f, x),
    ensures 0 <= r < x, fpos(f, r) <= y < fpos(f, r) + flen(f, r),
    decreases x,
{
    if y >= fpos(f, x - 1) { x - 1 } else { factor_of(s, phi, f, y, x - 1) }
}

// the text is the only sequence of its length that agrees with the factors: they decode to it
proof fn decode_rec(s: Seq<int>, sa: Seq<int>, phi: Seq<int>, f: Factors, t: Seq<int>, r: int)
    requires
        is_sa(s, sa), is_perm(sa), phi_ok(s, phi), is_lexparse(s, phi, f), consistent(f, t), t.len() == s.len(), 0 <= r < s.len(),
    ensures t[sa[r]] == s[sa[r]],
    decreases r,
{
    let n = s.len() as int;
    let y = sa[r];
    let x = factor_of(s, phi, f, y, f.len() as int);
    assert(lexf_at(s, phi, f, x));
    assert(agrees(f, t, x));
    let b = fpos(f, x);
    let d = y - b;
    if f[x].1 != 0 {
        let a = phi[b];
        let l = plcp_at(s, a, b);
        assert(phi_at(s, phi[b], b));
        lce_props(s, a, n, b, n);
        lce_lt(s, a, b);
        eqr_at(s, a, b, l, d);
        assert(suf_lt(s, a + d, b + d)) by {
            assert(eqr(s, a + d, b + d, l - d)) by {
                assert forall|z: int| a + d <= z < a + d + (l - d) implies #[trigger] s[z] == s[z - (a + d) + (b + d)] by {
                    eqr_at(s, a, b, l, z - a);
                }
            }
            assert(a + d + (l - d) == a + l && b + d + (l - d) == b + l);
            assert(lt_at(s, a + d, n, b + d, n, l - d));
        }
        let q = perm_at(sa, a + d);
        sa_lt(s, sa, q, r);
        decode_rec(s, sa, phi, f, t, q);
        assert(t[b + d] == t[f[x].0 + d]);
    }
}

pub proof fn lexparse_decodes(s: Seq<int>, sa: Seq<int>, phi: Seq<int>, f: Factors, t: Seq<int>)
    requires is_sa(s, sa), phi_ok(s, phi), is_lexparse(s, phi, f), t.len() == s.len(),
    ensures consistent(f, t) <==> t == s,
{
    sa_perm(s, sa);
    let n = s.len() as int;
    if consistent(f, t) {
        assert forall|y: int| 0 <= y < n implies t[y] == s[y] by {
            let r = perm_at(sa, y);
            decode_rec(s, sa, phi, f, t, r);
        }
        assert(t =~= s);
    }
    if t == s {
        assert forall|x: int| 0 <= x < f.len() implies #[trigger] agrees(f, t, x) by {
            assert(lexf_at(s, phi, f, x));
            let b = fpos(f, x);
            if f[x].1 != 0 {
                let a = phi[b];
                assert(phi_at(s, phi[b], b));
                lce_props(s, a, n, b, n);
                assert forall|d: int| 0 <= d < f[x].1 implies #[trigger] t[b + d] == t[a + d] by {
                    eqr_at(s, a, b, plcp_at(s, a, b), d);
                }
            }
        }
    }
}

pub open spec fn lexparse_of(s: Seq<int>, sa: Seq<int>, phi: Seq<int>, f: Factors) -> bool {
    is_sa(s, sa) && is_phi(sa, phi) && is_lexparse(s, phi, f)
}

} // verus!
