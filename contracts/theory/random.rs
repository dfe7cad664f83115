//@ needs stream
verus! {

pub open spec fn alnum(c: u8) -> bool {
    48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122
}

pub struct Alphanumeric;

// crate rand (assumed contract: the samples are ASCII letters or digits)
mod rand {
    use vstd::prelude::*;
    use crate::{alnum, Alphanumeric};

    #[verifier::external_body]
    pub struct ThreadRng { x: u8 }

    #[verifier::external_body]
    pub fn thread_rng() -> ThreadRng {
        unimplemented!()
    }

    impl ThreadRng {
        #[verifier::external_body]
        pub fn sample(&mut self, d: Alphanumeric) -> (r: u8)
            ensures alnum(r),
        {
            unimplemented!()
        }
    }
}

// what the random string tool may write
pub open spec fn random_ok(w: Seq<u8>, length: int, alphabet_size: int) -> bool {
    &&& w.len() == length
    &&& forall|i: int| 0 <= i < w.len() ==> alnum(#[trigger] w[i])
    &&& alphabet_size != 0 ==> w.to_set().len() <= alphabet_size
}

pub proof fn set_push(w: Seq<u8>, c: u8)
    ensures w.push(c).to_set() == w.to_set().insert(c),
{
    let a = w.push(c).to_set();
    let b = w.to_set().insert(c);
    assert forall|x: u8| a.contains(x) <==> b.contains(x) by {
        if w.contains(x) {
            let i = choose|i: int| 0 <= i < w.len() && w[i] == x;
            assert(w.push(c)[i] == x);
        }
        if x == c { assert(w.push(c)[w.len() as int] == x); }
        if w.push(c).contains(x) {
            let i = choose|i: int| 0 <= i < w.push(c).len() && w.push(c)[i] == x;
            if i < w.len() { assert(w[i] == x); }
        }
    }
    assert(a =~= b);
}

} // verus!
