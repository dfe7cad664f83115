//@ needs stream stdfn
use std::collections::HashMap;
verus! {

// membership in a slice, for types with structural equality
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures vstd::laws_eq::obeys_concrete_eq::<T>() ==> r == s@.contains(*x),
;

// the tables of the property: forbidden symbols f, distinct replacements t, escape symbol e
pub open spec fn admissible(f: Seq<u8>, t: Seq<u8>, e: u8) -> bool {
    &&& f.len() == t.len()
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j]
    &&& !f.contains(e)
    &&& !t.contains(e)
    &&& forall|i: int| 0 <= i < f.len() ==> !t.contains(#[trigger] f[i])
}

// the map of the keys k[0..n) to the values v[0..n) (the last one counts)
pub open spec fn table(k: Seq<u8>, v: Seq<u8>, n: int) -> Map<u8, u8>
    decreases n,
{
    if n <= 0 { Map::empty() } else { table(k, v, n - 1).insert(k[n - 1], v[n - 1]) }
}

pub proof fn table_dom(k: Seq<u8>, v: Seq<u8>, n: int, c: u8)
    requires 0 <= n <= k.len(), k.len() == v.len(),
    ensures
        table(k, v, n).contains_key(c) <==> exists|i: int| 0 <= i < n && k[i] == c,
        table(k, v, n).contains_key(c) ==> exists|i: int| 0 <= i < n && k[i] == c && #[trigger] v[i] == table(k, v, n)[c],
    decreases n,
{
    if n > 0 {
        table_dom(k, v, n - 1, c);
        if k[n - 1] == c {
            assert(v[n - 1] == table(k, v, n)[c]);
        }
        if table(k, v, n).contains_key(c) && k[n - 1] != c {
            let i = choose|i: int| 0 <= i < n - 1 && k[i] == c && #[trigger] v[i] == table(k, v, n - 1)[c];
            assert(0 <= i < n && k[i] == c && v[i] == table(k, v, n)[c]);
        }
    }
}

pub proof fn table_inj(k: Seq<u8>, v: Seq<u8>, n: int, i: int)
    requires
        0 <= i < n <= k.len(), k.len() == v.len(),
        forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] != #[trigger] k[j],
    ensures table(k, v, n).contains_key(k[i]), table(k, v, n)[k[i]] == v[i],
    decreases n,
{
    if i < n - 1 {
        table_inj(k, v, n - 1, i);
        assert(k[i] != k[n - 1]);
    }
}

// the escaped form of one byte and of a byte string
pub open spec fn esc1(f: Seq<u8>, t: Seq<u8>, e: u8, c: u8) -> Seq<u8> {
    if c == e { seq![e, e] }
    else if f.contains(c) { seq![e, table(f, t, f.len() as int)[c]] }
    else { seq![c] }
}

pub open spec fn esc(f: Seq<u8>, t: Seq<u8>, e: u8, s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { esc1(f, t, e, s[0]) + esc(f, t, e, tail(s, 1)) }
}

pub proof fn esc_tail(f: Seq<u8>, t: Seq<u8>, e: u8, s: Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures esc(f, t, e, tail(s, k)) == esc1(f, t, e, s[k]) + esc(f, t, e, tail(s, k + 1)),
{
    assert(tail(tail(s, k), 1) =~= tail(s, k + 1));
}

pub proof fn esc_cat(f: Seq<u8>, t: Seq<u8>, e: u8, a: Seq<u8>, b: Seq<u8>)
    ensures esc(f, t, e, a + b) == esc(f, t, e, a) + esc(f, t, e, b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(esc(f, t, e, a) + esc(f, t, e, b) =~= esc(f, t, e, b));
    } else {
        assert(tail(a + b, 1) =~= tail(a, 1) + b);
        esc_cat(f, t, e, tail(a, 1), b);
        assert(esc1(f, t, e, a[0]) + (esc(f, t, e, tail(a, 1)) + esc(f, t, e, b))
            =~= (esc1(f, t, e, a[0]) + esc(f, t, e, tail(a, 1))) + esc(f, t, e, b));
    }
}

pub proof fn esc_push(f: Seq<u8>, t: Seq<u8>, e: u8, s: Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures esc(f, t, e, upto(s, k + 1)) == esc(f, t, e, upto(s, k)) + esc1(f, t, e, s[k]),
{
    assert(upto(s, k + 1) =~= upto(s, k) + seq![s[k]]);
    esc_cat(f, t, e, upto(s, k), seq![s[k]]);
    let x = seq![s[k]];
    assert(tail(x, 1) =~= Seq::<u8>::empty());
    reveal_with_fuel(esc, 2);
    assert(esc(f, t, e, x) =~= esc1(f, t, e, s[k]));
}

pub proof fn esc_len(f: Seq<u8>, t: Seq<u8>, e: u8, s: Seq<u8>)
    ensures s.len() <= esc(f, t, e, s).len(),
    decreases s.len(),
{
    if s.len() > 0 { esc_len(f, t, e, tail(s, 1)); }
}

// the replacement of a forbidden symbol is a replacement symbol
pub proof fn esc_sym(f: Seq<u8>, t: Seq<u8>, e: u8, c: u8)
    requires admissible(f, t, e), f.contains(c),
    ensures
        table(f, t, f.len() as int).contains_key(c),
        ({ let d = table(f, t, f.len() as int)[c];
            &&& t.contains(d) && d != e && !f.contains(d)
            &&& table(t, f, f.len() as int).contains_key(d) && table(t, f, f.len() as int)[d] == c }),
{
    let n = f.len() as int;
    let q = choose|q: int| 0 <= q < n && f[q] == c;
    table_dom(f, t, n, c);
    assert(table(f, t, n).contains_key(c)) by { assert(f[q] == c); }
    let i = choose|i: int| 0 <= i < n && f[i] == c && #[trigger] t[i] == table(f, t, n)[c];
    let d = t[i];
    assert(t.contains(d));
    if f.contains(d) {
        let j = choose|j: int| 0 <= j < n && f[j] == d;
        assert(!t.contains(f[j]));
    }
    table_inj(t, f, n, i);
}

// what reverting does with an escaped string: consumes the escaped form of its first byte
pub proof fn esc_front(f: Seq<u8>, t: Seq<u8>, e: u8, s: Seq<u8>)
    requires admissible(f, t, e),
    ensures
        s.len() == 0 <==> esc(f, t, e, s).len() == 0,
        s.len() > 0 ==> ({
            let x = esc(f, t, e, s);
            &&& (x[0] == e <==> s[0] == e || f.contains(s[0]))
            &&& (x[0] != e ==> s[0] == x[0] && tail(x, 1) == esc(f, t, e, tail(s, 1)))
            &&& (x[0] == e ==> x.len() >= 2 && tail(x, 2) == esc(f, t, e, tail(s, 1)) && tail(tail(x, 1), 1) == tail(x, 2)
                && tail(x, 1)[0] == x[1]
                && (x[1] == e ==> s[0] == e)
                && (x[1] != e ==> table(t, f, f.len() as int).contains_key(x[1]) && table(t, f, f.len() as int)[x[1]] == s[0]))
        }),
{
    if s.len() > 0 {
        let x = esc(f, t, e, s);
        if f.contains(s[0]) { esc_sym(f, t, e, s[0]); }
        let r = esc(f, t, e, tail(s, 1));
        if s[0] == e || f.contains(s[0]) {
            assert(tail(x, 2) =~= r);
            assert(tail(tail(x, 1), 1) =~= tail(x, 2));
        } else {
            assert(tail(x, 1) =~= r);
        }
    }
}

// the property: an escaped string has no forbidden symbol, and it determines the string
pub proof fn esc_safe(f: Seq<u8>, t: Seq<u8>, e: u8, s: Seq<u8>)
    requires admissible(f, t, e),
    ensures forall|i: int| 0 <= i < esc(f, t, e, s).len() ==> !f.contains(#[trigger] esc(f, t, e, s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        esc_safe(f, t, e, tail(s, 1));
        if f.contains(s[0]) { esc_sym(f, t, e, s[0]); }
        let x = esc1(f, t, e, s[0]);
        let y = esc(f, t, e, tail(s, 1));
        assert forall|i: int| 0 <= i < esc(f, t, e, s).len() implies !f.contains(#[trigger] esc(f, t, e, s)[i]) by {
            if i < x.len() { assert((x + y)[i] == x[i]); } else { assert((x + y)[i] == y[i - x.len()]); }
        }
    }
}

pub proof fn esc_injective(f: Seq<u8>, t: Seq<u8>, e: u8, a: Seq<u8>, b: Seq<u8>)
    requires admissible(f, t, e), esc(f, t, e, a) == esc(f, t, e, b),
    ensures a == b,
    decreases a.len(),
{
    esc_front(f, t, e, a);
    esc_front(f, t, e, b);
    if a.len() == 0 {
        assert(a =~= b);
    } else {
        esc_injective(f, t, e, tail(a, 1), tail(b, 1));
        assert(a =~= seq![a[0]] + tail(a, 1));
        assert(b =~= seq![b[0]] + tail(b, 1));
    }
}

} // verus!
