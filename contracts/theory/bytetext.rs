//@ needs debruijn
use std::collections::VecDeque;
verus! {

// a text of bytes with indexed access: stands for std::ops::Index<usize, Output = u8> of the two types used
pub trait ByteText {
    spec fn bytes(&self) -> Seq<u8>;

    fn index(&self, i: usize) -> (c: &u8)
        requires i < self.bytes().len(),
        ensures *c == self.bytes()[i as int];
}

impl ByteText for [u8] {
    open spec fn bytes(&self) -> Seq<u8> {
        self@
    }

    fn index(&self, i: usize) -> (c: &u8) {
        &self[i]
    }
}

impl ByteText for VecDeque<u8> {
    open spec fn bytes(&self) -> Seq<u8> {
        self@
    }

    fn index(&self, i: usize) -> (c: &u8) {
        &self[i]
    }
}

// *deque.back_mut().unwrap() = c
pub fn deque_set_back(d: &mut VecDeque<u8>, c: u8)
    requires old(d)@.len() > 0,
    ensures final(d)@ == old(d)@.update(old(d)@.len() - 1, c),
{
    d.pop_back();
    d.push_back(c);
    proof { assert(final(d)@ =~= old(d)@.update(old(d)@.len() - 1, c)); }
}

// number of items of deque.iter().take(n)
pub fn deque_take(d: &VecDeque<u8>, n: usize) -> (r: usize)
    ensures r == if n < d@.len() { n as int } else { d@.len() as int },
{
    if n < d.len() { n } else { d.len() }
}

} // verus!
