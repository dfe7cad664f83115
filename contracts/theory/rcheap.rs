verus! {

// Stand-ins for std::rc::Rc and std::cell::RefCell: a shared cell has an identity, its content is kept
// in a heap that is passed along as ghost state (assumed contracts of the standard library). `held` are
// the cells that a guard has borrowed mutably: they must not be borrowed again before it is released.
pub tracked struct Heap<V> {
    pub ghost m: Map<int, V>,
    pub ghost held: Set<int>,
}

impl<V> Heap<V> {
    // no guard is out
    pub open spec fn free(&self) -> bool { forall|k: int| !(#[trigger] self.held.contains(k)) }
}

// the guard of a mutable borrow that lasts longer than a statement
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct RefMut<V> { x: core::marker::PhantomData<V> }

impl<V> RefMut<V> {
    pub uninterp spec fn id(&self) -> int;

    #[verifier::external_body]
    pub fn get<'a>(&'a self, Tracked(h): Tracked<&'a Heap<V>>) -> (r: &'a V)
        requires h.m.dom().contains(self.id()), h.held.contains(self.id()),
        ensures *r == h.m[self.id()],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_mut<'a>(&'a self, Tracked(h): Tracked<&'a mut Heap<V>>) -> (r: &'a mut V)
        requires old(h).m.dom().contains(self.id()), old(h).held.contains(self.id()),
        ensures
            *r == old(h).m[self.id()],
            final(h).m == old(h).m.insert(self.id(), *final(r)),
            final(h).held == old(h).held,
    {
        unimplemented!()
    }

    // the end of the scope of the guard
    #[verifier::external_body]
    pub fn release(self, Tracked(h): Tracked<&mut Heap<V>>)
        requires old(h).held.contains(self.id()),
        ensures
            final(h).m == old(h).m,
            final(h).held == old(h).held.remove(self.id()),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct RefCell<V> { x: core::marker::PhantomData<V> }

impl<V> RefCell<V> {
    pub uninterp spec fn val(&self) -> V;

    #[verifier::external_body]
    pub fn new(v: V) -> (r: RefCell<V>)
        ensures r.val() == v,
    {
        unimplemented!()
    }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Rc<T> { x: core::marker::PhantomData<T> }

impl<V> Rc<RefCell<V>> {
    pub uninterp spec fn id(&self) -> int;

    #[verifier::external_body]
    pub fn new(c: RefCell<V>, Tracked(h): Tracked<&mut Heap<V>>) -> (r: Rc<RefCell<V>>)
        ensures
            !old(h).m.dom().contains(r.id()),
            final(h).m == old(h).m.insert(r.id(), c.val()),
            final(h).held == old(h).held,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn clone(c: &Rc<RefCell<V>>) -> (r: Rc<RefCell<V>>)
        ensures r.id() == c.id(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn borrow<'a>(&'a self, Tracked(h): Tracked<&'a Heap<V>>) -> (r: &'a V)
        requires h.m.dom().contains(self.id()), !h.held.contains(self.id()),
        ensures *r == h.m[self.id()],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn borrow_mut<'a>(&'a self, Tracked(h): Tracked<&'a mut Heap<V>>) -> (r: &'a mut V)
        requires old(h).m.dom().contains(self.id()), !old(h).held.contains(self.id()),
        ensures
            *r == old(h).m[self.id()],
            final(h).m == old(h).m.insert(self.id(), *final(r)),
            final(h).held == old(h).held,
    {
        unimplemented!()
    }

    // a borrow that is kept in a variable
    #[verifier::external_body]
    pub fn borrow_guard(&self, Tracked(h): Tracked<&mut Heap<V>>) -> (r: RefMut<V>)
        requires old(h).m.dom().contains(self.id()), !old(h).held.contains(self.id()),
        ensures
            r.id() == self.id(),
            final(h).m == old(h).m,
            final(h).held == old(h).held.insert(self.id()),
    {
        unimplemented!()
    }
}

// vec![a, b]
pub fn vec_of_2<T>(a: T, b: T) -> (r: Vec<T>)
    ensures r@ == seq![a, b],
{
    let mut r = Vec::new();
    r.push(a);
    r.push(b);
    proof { assert(r@ =~= seq![a, b]); }
    r
}

} // verus!
