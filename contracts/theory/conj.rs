verus! {

impl<'a, C: Eq + Copy + Clone> ConjugateIterator<'a, C> {
    pub closed spec fn text(&self) -> Seq<C> { self.m_text@ }
    pub closed spec fn pos(&self) -> int { self.m_pos as int }
}

// the text rotated by k positions
pub open spec fn rotation<C>(t: Seq<C>, k: int) -> Seq<C> {
    Seq::new(t.len(), |i: int| if i + k < t.len() { t[i + k] } else { t[i + k - t.len()] })
}

// one call of next: position before and after, the item
pub open spec fn conj_step<C>(t: Seq<C>, k: int, k2: int, item: Option<Seq<C>>) -> bool {
    if k < t.len() { k2 == k + 1 && item == Some(rotation(t, k)) } else { k2 == k && item is None }
}

// calling next again and again yields the rotations in order and then ends
pub proof fn conj_run<C>(t: Seq<C>, st: Seq<int>, items: Seq<Option<Seq<C>>>, i: int)
    requires
        st.len() == items.len() + 1, st[0] == 0,
        forall|k: int| 0 <= k < items.len() ==> conj_step(t, st[k], #[trigger] st[k + 1], items[k]),
        0 <= i <= items.len(),
    ensures
        st[i] == if i <= t.len() { i } else { t.len() as int },
        i < items.len() ==> items[i] == if i < t.len() { Some(rotation(t, i)) } else { None },
    decreases i,
{
    if i > 0 {
        conj_run(t, st, items, i - 1);
        assert(conj_step(t, st[i - 1], st[i - 1 + 1], items[i - 1]));
    }
    if i < items.len() { assert(conj_step(t, st[i], st[i + 1], items[i])); }
}

} // verus!
