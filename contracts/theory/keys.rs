verus! {

// f embeds the order of C into the integers: every comparison operator of C agrees with it
pub open spec fn key_ok<C: Ord>(f: spec_fn(C) -> int) -> bool {
    &&& <C as PartialEqSpec<C>>::obeys_eq_spec()
    &&& <C as PartialOrdSpec<C>>::obeys_partial_cmp_spec()
    &&& <C as OrdSpec>::obeys_cmp_spec()
    &&& forall|a: C, b: C| #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> f(a) == f(b)
    &&& forall|a: C, b: C| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(ord_of(f(a), f(b)))
    &&& forall|a: C, b: C| #[trigger] OrdSpec::cmp_spec(&a, &b) == ord_of(f(a), f(b))
}

// C is a totally ordered type (embeddable into the integers)
pub open spec fn keyed<C: Ord>() -> bool {
    exists|f: spec_fn(C) -> int| #[trigger] key_ok::<C>(f)
}

pub open spec fn key<C: Ord>() -> spec_fn(C) -> int {
    choose|f: spec_fn(C) -> int| #[trigger] key_ok::<C>(f)
}

pub open spec fn ks<C: Ord>(s: Seq<C>) -> Seq<int> {
    Seq::new(s.len(), |i: int| key::<C>()(s[i]))
}

pub proof fn keyed_facts<C: Ord>()
    requires keyed::<C>(),
    ensures key_ok::<C>(key::<C>()),
{
}

pub proof fn keyed_u8()
    ensures keyed::<u8>(), key_ok::<u8>(key::<u8>()),
        forall|a: u8, b: u8| #![trigger key::<u8>()(a), key::<u8>()(b)] key::<u8>()(a) < key::<u8>()(b) <==> a < b,
        forall|a: u8, b: u8| #![trigger key::<u8>()(a), key::<u8>()(b)] key::<u8>()(a) == key::<u8>()(b) <==> a == b,
{
    let f = |a: u8| a as int;
    assert(key_ok::<u8>(f));
    let g = key::<u8>();
    assert(key_ok::<u8>(g));
    assert forall|a: u8, b: u8| #![trigger key::<u8>()(a), key::<u8>()(b)] (g(a) < g(b) <==> a < b) && (g(a) == g(b) <==> a == b) by {
        assert(PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(ord_of(g(a), g(b))));
        assert(PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(ord_of(f(a), f(b))));
    }
}

pub proof fn keyed_i32()
    ensures keyed::<i32>(), key_ok::<i32>(key::<i32>()),
        forall|a: i32, b: i32| #![trigger key::<i32>()(a), key::<i32>()(b)] key::<i32>()(a) < key::<i32>()(b) <==> a < b,
{
    let f = |a: i32| a as int;
    assert(key_ok::<i32>(f));
    let g = key::<i32>();
    assert(key_ok::<i32>(g));
    assert forall|a: i32, b: i32| #![trigger key::<i32>()(a), key::<i32>()(b)] (g(a) < g(b) <==> a < b) by {
        assert(PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(ord_of(g(a), g(b))));
        assert(PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(ord_of(f(a), f(b))));
    }
}

// C has an equality (embeddable into the integers)
pub open spec fn eqkey_ok<C: Eq>(f: spec_fn(C) -> int) -> bool {
    &&& <C as PartialEqSpec<C>>::obeys_eq_spec()
    &&& forall|a: C, b: C| #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> f(a) == f(b)
}

// cloning a value gives an equal value
pub open spec fn copyable<C: Clone>() -> bool {
    forall|a: C, b: C| #[trigger] cloned(a, b) ==> a == b
}

pub proof fn copyable_u8()
    ensures copyable::<u8>(), copyable::<i32>(), copyable::<u32>(), copyable::<usize>(),
{
}

pub open spec fn eqkeyed<C: Eq>() -> bool {
    exists|f: spec_fn(C) -> int| #[trigger] eqkey_ok::<C>(f)
}

pub open spec fn eqkey<C: Eq>() -> spec_fn(C) -> int {
    choose|f: spec_fn(C) -> int| #[trigger] eqkey_ok::<C>(f)
}

pub open spec fn eks<C: Eq>(s: Seq<C>) -> Seq<int> {
    Seq::new(s.len(), |i: int| eqkey::<C>()(s[i]))
}

pub proof fn eqkeyed_facts<C: Eq>()
    requires eqkeyed::<C>(),
    ensures eqkey_ok::<C>(eqkey::<C>()),
{
}

} // verus!
