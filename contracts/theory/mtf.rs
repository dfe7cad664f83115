//@ needs stream
verus! {

// the list of the symbols after the text s has been processed
pub open spec fn mtf_list(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::new(256, |i: int| i as u8)
    } else {
        front(mtf_list(s.drop_last()), s.last())
    }
}

// position of c in the list
pub open spec fn pos(l: Seq<u8>, c: u8) -> int {
    choose|i: int| 0 <= i < l.len() && l[i] == c
}

// c moved to the front
pub open spec fn front(l: Seq<u8>, c: u8) -> Seq<u8> {
    let p = pos(l, c);
    Seq::new(l.len(), |i: int| if i == 0 { c } else if i <= p { l[i - 1] } else { l[i] })
}

pub open spec fn mtf_out(s: Seq<u8>) -> Seq<u8> {
    Seq::new(s.len(), |i: int| pos(mtf_list(upto(s, i)), s[i]) as u8)
}

pub open spec fn has_byte(l: Seq<u8>, c: u8) -> bool {
    exists|i: int| 0 <= i < 256 && #[trigger] l[i] == c
}

// the list contains every byte exactly once
pub open spec fn is_list(l: Seq<u8>) -> bool {
    &&& l.len() == 256
    &&& forall|i: int, j: int| 0 <= i < j < 256 ==> #[trigger] l[i] != #[trigger] l[j]
    &&& forall|c: u8| #[trigger] has_byte(l, c)
}

pub proof fn list_ok(s: Seq<u8>)
    ensures is_list(mtf_list(s)),
    decreases s.len(),
{
    let l = mtf_list(s);
    if s.len() == 0 {
        assert forall|c: u8| #[trigger] has_byte(l, c) by {
            assert(l[c as int] == c);
        }
        assert forall|i: int, j: int| 0 <= i < j < 256 implies #[trigger] l[i] != #[trigger] l[j] by {
            assert(i as u8 != j as u8);
        }
    } else {
        let m = mtf_list(s.drop_last());
        let c = s.last();
        list_ok(s.drop_last());
        let p = pos(m, c);
        assert(has_byte(m, c));
        assert(0 <= p < 256 && m[p] == c);
        assert forall|i: int, j: int| 0 <= i < j < 256 implies #[trigger] l[i] != #[trigger] l[j] by {
            let i2 = if i == 0 { p } else if i <= p { i - 1 } else { i };
            let j2 = if j <= p { j - 1 } else { j };
            assert(l[i] == m[i2] && l[j] == m[j2]);
            if i2 < j2 { } else { assert(m[j2] != m[i2]); }
        }
        assert forall|x: u8| #[trigger] has_byte(l, x) by {
            assert(has_byte(m, x));
            let i = choose|i: int| 0 <= i < 256 && #[trigger] m[i] == x;
            assert(m[i] == x);
            if i == p { assert(l[0] == x); } else if i < p { assert(l[i + 1] == x); } else { assert(l[i] == x); }
        }
    }
}

pub proof fn pos_is(l: Seq<u8>, c: u8, i: int)
    requires is_list(l), 0 <= i < 256, l[i] == c,
    ensures pos(l, c) == i,
{
    let p = pos(l, c);
    assert(0 <= p < l.len() && l[p] == c);
    if p < i { assert(l[p] != l[i]); } else if i < p { assert(l[i] != l[p]); }
}

pub proof fn pos_ok(s: Seq<u8>, c: u8)
    ensures
        0 <= pos(mtf_list(s), c) < 256, mtf_list(s)[pos(mtf_list(s), c)] == c, is_list(mtf_list(s)),
{
    list_ok(s);
    let l = mtf_list(s);
    assert(has_byte(l, c));
}

// the standard inverse transform: state of the decoder after k symbols
pub open spec fn dec_text(o: Seq<u8>) -> Seq<u8>
    decreases o.len(),
{
    if o.len() == 0 {
        Seq::empty()
    } else {
        dec_text(o.drop_last()).push(dec_list(o.drop_last())[o.last() as int])
    }
}

pub open spec fn dec_list(o: Seq<u8>) -> Seq<u8>
    decreases o.len(),
{
    if o.len() == 0 {
        Seq::new(256, |i: int| i as u8)
    } else {
        let l = dec_list(o.drop_last());
        let p = o.last() as int;
        Seq::new(256, |i: int| if i == 0 { l[p] } else if i <= p { l[i - 1] } else { l[i] })
    }
}

// decoding recovers the text
pub proof fn mtf_inverse(s: Seq<u8>)
    ensures dec_text(mtf_out(s)) == s, dec_list(mtf_out(s)) == mtf_list(s),
    decreases s.len(),
{
    let o = mtf_out(s);
    if s.len() == 0 {
        assert(dec_text(o) =~= s);
    } else {
        let u = s.drop_last();
        mtf_inverse(u);
        assert(o.drop_last() =~= mtf_out(u)) by {
            assert forall|i: int| 0 <= i < u.len() implies o[i] == mtf_out(u)[i] by {
                assert(upto(s, i) =~= upto(u, i));
            }
        }
        assert(upto(s, s.len() - 1) =~= u);
        pos_ok(u, s.last());
        assert(o.last() as int == pos(mtf_list(u), s.last()));
        assert(dec_text(o) =~= s);
        assert(dec_list(o) =~= mtf_list(s));
    }
}

// (0..=b).collect()
pub fn collect_inclusive(a: u8, b: u8) -> (r: Vec<u8>)
    requires a <= b,
    ensures r@ =~= Seq::new((b - a + 1) as nat, |i: int| (a + i) as u8),
{
    let mut v = Vec::new();
    let mut c = a;
    while c < b
        invariant a <= c <= b, v@ =~= Seq::new((c - a) as nat, |i: int| (a + i) as u8),
        decreases b - c,
    {
        v.push(c);
        c = c + 1;
    }
    v.push(c);
    v
}

} // verus!
