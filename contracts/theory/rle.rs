//@ needs stream decimal
verus! {

// ---- pairs of a byte and the run length minus one
pub open spec fn rle_dec(o: Seq<u8>) -> Seq<u8>
    decreases o.len(),
{
    if o.len() < 2 {
        Seq::empty()
    } else {
        let n = o.len() as int;
        rle_dec(o.subrange(0, n - 2)) + rep(o[n - 2], o[n - 1] + 1)
    }
}

// (names the output in the contracts)
pub open spec fn rle_out(o: Seq<u8>) -> Seq<u8> {
    o
}

// a run is only split if it is longer than 256
pub open spec fn rle_tight(o: Seq<u8>) -> bool {
    &&& o.len() % 2 == 0
    &&& forall|j: int| 2 <= j < o.len() && j % 2 == 0 && #[trigger] o[j] == o[j - 2] ==> o[j - 1] == 255
}

pub proof fn rle_push(o: Seq<u8>, c: u8, n: u8)
    requires o.len() % 2 == 0,
    ensures
        rle_dec(o + seq![c, n]) == rle_dec(o) + rep(c, n + 1),
        rle_tight(o) && (o.len() > 0 && o[o.len() - 2] == c ==> o[o.len() - 1] == 255) ==> rle_tight(o + seq![c, n]),
{
    let p = o + seq![c, n];
    assert(p.subrange(0, p.len() - 2) =~= o);
}

// ---- only runs of '0' are encoded
pub open spec fn z_dec(o: Seq<u8>) -> Seq<u8>
    decreases o.len(),
{
    if o.len() == 0 {
        Seq::empty()
    } else if o[0] != 48 {
        seq![o[0]] + z_dec(tail(o, 1))
    } else if o.len() == 1 {
        Seq::empty()
    } else {
        rep(48, o[1] + 1) + z_dec(tail(o, 2))
    }
}

// the encoding does not end within a pair
pub open spec fn z_wf(o: Seq<u8>) -> bool
    decreases o.len(),
{
    if o.len() == 0 {
        true
    } else if o[0] != 48 {
        z_wf(tail(o, 1))
    } else {
        o.len() >= 2 && z_wf(tail(o, 2))
    }
}

pub proof fn z_append(a: Seq<u8>, b: Seq<u8>)
    requires z_wf(a),
    ensures z_dec(a + b) == z_dec(a) + z_dec(b), z_wf(b) ==> z_wf(a + b),
    decreases a.len(),
{
    let o = a + b;
    if a.len() == 0 {
        assert(o =~= b);
        assert(z_dec(o) =~= z_dec(a) + z_dec(b));
    } else if a[0] != 48 {
        z_append(tail(a, 1), b);
        assert(tail(o, 1) =~= tail(a, 1) + b);
        assert(z_dec(o) =~= z_dec(a) + z_dec(b));
    } else {
        z_append(tail(a, 2), b);
        assert(tail(o, 2) =~= tail(a, 2) + b);
        assert(z_dec(o) =~= z_dec(a) + z_dec(b));
    }
}

pub proof fn z_char(a: Seq<u8>, c: u8)
    requires z_wf(a), c != 48,
    ensures z_dec(a + seq![c]) == z_dec(a).push(c), z_wf(a + seq![c]),
{
    let b = seq![c];
    assert(tail(b, 1) =~= Seq::empty());
    assert(z_dec(tail(b, 1)) =~= Seq::empty());
    assert(z_wf(tail(b, 1)));
    z_append(a, b);
    assert(z_dec(a + b) =~= z_dec(a).push(c));
}

pub proof fn z_pair(a: Seq<u8>, n: u8)
    requires z_wf(a),
    ensures z_dec(a + seq![48u8, n]) == z_dec(a) + rep(48, n + 1), z_wf(a + seq![48u8, n]),
{
    let b = seq![48u8, n];
    assert(tail(b, 2) =~= Seq::empty());
    assert(z_dec(tail(b, 2)) =~= Seq::empty());
    assert(z_wf(tail(b, 2)));
    z_append(a, b);
    assert(z_dec(a + b) =~= z_dec(a) + rep(48, n + 1));
}

// ---- human readable: one group per maximal run
pub struct Group { pub c: u8, pub n: int }

pub open spec fn groups(s: Seq<u8>) -> Seq<Group>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        let g = groups(s.drop_last());
        if g.len() > 0 && g.last().c == s.last() {
            g.update(g.len() - 1, Group { c: s.last(), n: g.last().n + 1 })
        } else {
            g.push(Group { c: s.last(), n: 1 })
        }
    }
}

pub open spec fn expand(g: Seq<Group>) -> Seq<u8>
    decreases g.len(),
{
    if g.len() == 0 { Seq::empty() } else { expand(g.drop_last()) + rep(g.last().c, g.last().n) }
}

// expanding the groups gives the text, and neighbouring groups have different characters
pub proof fn groups_expand(s: Seq<u8>)
    ensures
        expand(groups(s)) == s,
        forall|i: int| 0 < i < groups(s).len() ==> (#[trigger] groups(s)[i]).c != groups(s)[i - 1].c,
        forall|i: int| 0 <= i < groups(s).len() ==> (#[trigger] groups(s)[i]).n >= 1,
    decreases s.len(),
{
    if s.len() > 0 {
        let u = s.drop_last();
        groups_expand(u);
        let g = groups(u);
        let h = groups(s);
        if g.len() > 0 && g.last().c == s.last() {
            assert(h.drop_last() =~= g.drop_last());
            assert(rep(h.last().c, h.last().n) =~= rep(g.last().c, g.last().n).push(s.last()));
            assert(expand(h) =~= expand(g).push(s.last()));
        } else {
            assert(h.drop_last() =~= g);
            assert(expand(h) =~= expand(g).push(s.last()));
        }
        assert(u.push(s.last()) =~= s);
    } else {
        assert(expand(groups(s)) =~= s);
    }
}

// UTF-8 of the character with code c
pub open spec fn utf8(c: u8) -> Seq<u8> {
    if c < 128 { seq![c] } else { seq![(0xC0 + c / 64) as u8, (0x80 + c % 64) as u8] }
}

pub open spec fn fmt_group(g: Group) -> Seq<u8> {
    seq![40u8] + utf8(g.c) + seq![44u8] + dec(g.n) + seq![41u8]
}

pub open spec fn fmt(g: Seq<Group>) -> Seq<u8>
    decreases g.len(),
{
    if g.len() == 0 { Seq::empty() } else { fmt(g.drop_last()) + fmt_group(g.last()) }
}

// write!(w, "({},{})", a as char, n) (assumed contract of the formatting library)
#[verifier::external_body]
pub fn write_group<W: vio::Write, N: Shown>(w: &mut W, c: u8, n: N) -> (r: vio::Result<()>)
    ensures
        !crate::faults() ==> r is Ok,
        r is Ok ==> final(w).out() == old(w).out() + fmt_group(Group { c: c, n: n.shown() }),
        final(w).to() == old(w).to(),
        final(w).mode() == old(w).mode(),
        r is Ok && !old(w).lost() ==> !final(w).lost(),
        old(w).mode() is Direct && !old(w).pending() ==> !final(w).pending(),
{
    unimplemented!()
}

} // verus!
