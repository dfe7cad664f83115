verus! {

// Streams. The traits stand for std::io::Read / std::io::Write: rest() is what is still to be read,
// out() is what has been written. Streams do not fail, except in the property about failing streams
// (faults(): every operation can fail): failed() and lost() say that an operation did, pending() that
// something is in a buffer and can still get lost.
mod vio {
    use vstd::prelude::*;

    #[derive(Debug)]
    pub struct Error { pub x: bool }

    #[derive(Debug)]
    pub enum ErrorKind { Other, NotFound }

    impl Error {
        pub fn new(k: ErrorKind, s: &str) -> Error { Error { x: true } }
    }

    pub type Result<T> = core::result::Result<T, Error>;

    pub trait Read {
        spec fn rest(&self) -> Seq<u8>;

        // a read has failed
        spec fn failed(&self) -> bool;

        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                !crate::faults() ==> r is Ok,
                r is Ok && !old(self).failed() ==> !final(self).failed(),
                r is Ok ==> ({
                    let k = r->Ok_0;
                    &&& k <= old(buf)@.len() && k <= old(self).rest().len()
                    &&& (k == 0 <==> old(buf)@.len() == 0 || old(self).rest().len() == 0)
                    &&& final(buf)@ == old(self).rest().subrange(0, k as int) + old(buf)@.subrange(k as int, old(buf)@.len() as int)
                    &&& final(self).rest() == old(self).rest().subrange(k as int, old(self).rest().len() as int)
                });
    }

    impl<R: Read> Read for &mut R {
        open spec fn rest(&self) -> Seq<u8> { (**self).rest() }

        open spec fn failed(&self) -> bool { (**self).failed() }

        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { (**self).read(buf) }
    }

    // what becomes of the bytes of a write: they are handed over at once, up to the last line break, or when the
    // buffer is full
    pub enum Mode { Direct, Lines, Buffered }

    // after the write of the given bytes, some can be left in a buffer
    pub open spec fn may_pend(m: Mode, before: bool, b: Seq<u8>) -> bool {
        match m {
            Mode::Direct => before,
            Mode::Lines => if b.len() == 0 { before } else { b.last() != 10 },
            Mode::Buffered => true,
        }
    }

    pub trait Write {
        spec fn out(&self) -> Seq<u8>;

        // the name of the file it goes to (None: standard output, or memory)
        spec fn to(&self) -> Option<Seq<char>>;

        spec fn mode(&self) -> Mode;

        // something has been written that may still be in a buffer
        spec fn pending(&self) -> bool;

        // a write has failed
        spec fn lost(&self) -> bool;

        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
                !crate::faults() ==> r is Ok,
                r is Ok ==> final(self).out() == old(self).out() + buf@,
                final(self).to() == old(self).to(),
                final(self).mode() == old(self).mode(),
                r is Ok && !old(self).lost() ==> !final(self).lost(),
                final(self).pending() ==> may_pend(old(self).mode(), old(self).pending(), buf@);

        // a part of the buffer, at least one byte
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
                !crate::faults() ==> r is Ok,
                r is Ok ==> r->Ok_0 <= buf@.len() && (r->Ok_0 == 0 ==> buf@.len() == 0),
                r is Ok ==> final(self).out() == old(self).out() + buf@.subrange(0, r->Ok_0 as int),
                final(self).to() == old(self).to(),
                final(self).mode() == old(self).mode(),
                r is Ok && !old(self).lost() ==> !final(self).lost(),
                r is Ok && final(self).pending() ==> may_pend(old(self).mode(), old(self).pending(), buf@.subrange(0, r->Ok_0 as int));

        fn flush(&mut self) -> (r: Result<()>)
            ensures
                !crate::faults() ==> r is Ok,
                final(self).out() == old(self).out(),
                final(self).to() == old(self).to(),
                final(self).mode() == old(self).mode(),
                r is Ok && !old(self).lost() ==> !final(self).lost(),
                r is Ok ==> !final(self).pending();
    }

    impl Write for Vec<u8> {
        open spec fn out(&self) -> Seq<u8> { self@ }

        open spec fn to(&self) -> Option<Seq<char>> { None }

        open spec fn mode(&self) -> Mode { Mode::Direct }

        open spec fn pending(&self) -> bool { false }

        open spec fn lost(&self) -> bool { false }

        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) {
            self.extend_from_slice(buf);
            assert(self@ =~= old(self)@ + buf@);
            Ok(())
        }

        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) {
            self.extend_from_slice(buf);
            assert(self@ =~= old(self)@ + buf@);
            assert(buf@.subrange(0, buf@.len() as int) =~= buf@);
            Ok(buf.len())
        }

        fn flush(&mut self) -> (r: Result<()>) { Ok(()) }
    }

    // reading from a slice takes its first bytes and moves the slice forward (as in std)
    impl Read for &[u8] {
        open spec fn rest(&self) -> Seq<u8> { (*self)@ }

        open spec fn failed(&self) -> bool { false }

        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    }
}

// everything that was written has been handed over
pub open spec fn delivered<W: vio::Write>(w: &W) -> bool {
    !w.lost() && !w.pending()
}

// written to a new stream
pub broadcast proof fn nothing_before(x: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + x) == x,
{
    assert(Seq::<u8>::empty() + x =~= x);
}

pub open spec fn tail(s: Seq<u8>, k: int) -> Seq<u8> {
    s.subrange(k, s.len() as int)
}

pub open spec fn upto<C>(s: Seq<C>, k: int) -> Seq<C> {
    s.subrange(0, k)
}

pub proof fn upto_step<C>(s: Seq<C>, k: int)
    requires 0 <= k < s.len(),
    ensures upto(s, k + 1) == upto(s, k).push(s[k]), upto(s, k + 1).drop_last() == upto(s, k), upto(s, k + 1).last() == s[k],
{
    assert(upto(s, k + 1) =~= upto(s, k).push(s[k]));
    assert(upto(s, k + 1).drop_last() =~= upto(s, k));
}

pub proof fn upto_all<C>(s: Seq<C>)
    ensures upto(s, s.len() as int) == s,
{
    assert(upto(s, s.len() as int) =~= s);
}

pub open spec fn rep(c: u8, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| c)
}

} // verus!
verus! {

// the requested prefix of an input: n bytes, all of it if it is shorter or if n is 0
pub open spec fn prefix_of<C>(s: Seq<C>, n: usize) -> Seq<C> {
    if n == 0 || n >= s.len() { s } else { upto(s, n as int) }
}

} // verus!
