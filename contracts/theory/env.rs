//@ needs stream
verus! {

#[allow(unused_imports)]
use vio::Write as _;

// ---- the environment: contents of files and of standard input (streams without errors)
pub uninterp spec fn file_content(name: Seq<char>) -> Seq<u8>;
pub uninterp spec fn stdin_content() -> Seq<u8>;

// what a tool reads that got this input file argument
pub open spec fn input_of(name: Option<Seq<char>>) -> Seq<u8> {
    match name { Some(n) => file_content(n), None => stdin_content() }
}

pub open spec fn opt_name(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}

pub open spec fn opt_str(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}

// std::path::Path, std::fs (stand-ins: the file exists and does not change)
mod venv {
    use vstd::prelude::*;
    use crate::{file_content, stdin_content};

    #[verifier::external_body]
    pub struct Path { x: u8 }

    impl Path {
        pub uninterp spec fn name(&self) -> Seq<char>;
    }

    #[verifier::external_body]
    pub fn path_new(name: &str) -> (r: &Path)
        ensures r.name() == name@,
    {
        unimplemented!()
    }

    // AsRef<std::path::Path>
    pub trait PathLike {
        spec fn file(&self) -> Seq<char>;
    }

    impl PathLike for &Path {
        open spec fn file(&self) -> Seq<char> { self.name() }
    }

    impl PathLike for String {
        open spec fn file(&self) -> Seq<char> { self@ }
    }

    impl PathLike for &String {
        open spec fn file(&self) -> Seq<char> { (*self)@ }
    }

    impl PathLike for &str {
        open spec fn file(&self) -> Seq<char> { (*self)@ }
    }

    #[derive(Debug)]
    pub struct IoError { pub x: bool }

    pub mod fs {
        use vstd::prelude::*;
        use super::*;

        #[verifier::external_body]
        pub struct File { x: u8 }

        #[verifier::external_body]
        pub struct Metadata { x: u8 }

        // a regular file (and not, say, a named pipe)
        pub uninterp spec fn regular(name: Seq<char>) -> bool;

        // std::fs::metadata of a file that exists
        #[verifier::external_body]
        pub fn metadata(path: &Path) -> (r: core::result::Result<Metadata, IoError>)
            ensures !crate::faults() ==> r is Ok, r is Ok && regular(path.name()) ==> r->Ok_0.size() == file_content(path.name()).len(),
        {
            unimplemented!()
        }

        impl Metadata {
            pub uninterp spec fn size(&self) -> nat;

            // length of the file in bytes
            #[verifier::external_body]
            pub fn len(&self) -> (r: u64)
                ensures r == self.size(),
            {
                unimplemented!()
            }
        }

        // std::fs::OpenOptions. The contents of a file that is opened without truncating it is left open.
        pub struct OpenOptions { pub w: bool, pub a: bool, pub c: bool, pub t: bool }

        impl OpenOptions {
            pub fn new() -> (r: OpenOptions)
                ensures !r.w && !r.a && !r.c && !r.t,
            {
                OpenOptions { w: false, a: false, c: false, t: false }
            }

            pub fn write(self, x: bool) -> (r: OpenOptions)
                ensures r == (OpenOptions { w: x, ..self }),
            {
                OpenOptions { w: x, ..self }
            }

            pub fn append(self, x: bool) -> (r: OpenOptions)
                ensures r == (OpenOptions { a: x, ..self }),
            {
                OpenOptions { a: x, ..self }
            }

            pub fn create(self, x: bool) -> (r: OpenOptions)
                ensures r == (OpenOptions { c: x, ..self }),
            {
                OpenOptions { c: x, ..self }
            }

            pub fn truncate(self, x: bool) -> (r: OpenOptions)
                ensures r == (OpenOptions { t: x, ..self }),
            {
                OpenOptions { t: x, ..self }
            }

            #[verifier::external_body]
            pub fn open<P: PathLike>(self, path: P) -> (r: core::result::Result<File, IoError>)
                ensures
                    !crate::faults() && (self.w && self.c && !self.a || self.a && self.c && !self.t) ==> r is Ok,
                    r is Ok ==> r->Ok_0.to() == Some(path.file()) && !r->Ok_0.lost() && !r->Ok_0.pending(),
                    r is Ok && self.w && self.c && self.t && !self.a ==> r->Ok_0.out() == Seq::<u8>::empty(),
            {
                unimplemented!()
            }
        }

        impl File {
            pub uninterp spec fn rest(&self) -> Seq<u8>;

            pub uninterp spec fn failed(&self) -> bool;

            pub uninterp spec fn lost(&self) -> bool;

            pub uninterp spec fn pending(&self) -> bool;

            // std::fs::File::open of a file that exists
            #[verifier::external_body]
            pub fn open<P: PathLike>(path: P) -> (r: core::result::Result<File, IoError>)
                ensures
                    !crate::faults() ==> r is Ok,
                    r is Ok ==> r->Ok_0.rest() == file_content(path.file()) && !r->Ok_0.failed(),
            {
                unimplemented!()
            }

            pub uninterp spec fn out(&self) -> Seq<u8>;

            pub uninterp spec fn to(&self) -> Option<Seq<char>>;

            // std::fs::File::create: an empty file of this name
            #[verifier::external_body]
            pub fn create<P: PathLike>(path: P) -> (r: core::result::Result<File, IoError>)
                ensures
                    !crate::faults() ==> r is Ok,
                    r is Ok ==> r->Ok_0.out() == Seq::<u8>::empty() && r->Ok_0.to() == Some(path.file()) && !r->Ok_0.lost() && !r->Ok_0.pending(),
            {
                unimplemented!()
            }

            // fills the buffer or fails at the end of the file
            #[verifier::external_body]
            pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<(), IoError>)
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    r is Ok ==> old(buf)@.len() <= old(self).rest().len(),
                    !crate::faults() && old(buf)@.len() <= old(self).rest().len() ==> r is Ok,
                    r is Ok ==> final(buf)@ == old(self).rest().subrange(0, old(buf)@.len() as int),
            {
                unimplemented!()
            }

            // std::io::Read::take: at most the first n bytes
            #[verifier::external_body]
            pub fn take(self, n: u64) -> (r: super::Take)
                ensures r.rest() == self.rest().subrange(0, if n < self.rest().len() { n as int } else { self.rest().len() as int }),
            {
                unimplemented!()
            }

            // appends everything up to the end of the file
            #[verifier::external_body]
            pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoError>)
                ensures !crate::faults() ==> r is Ok, r is Ok ==> final(buf)@ == old(buf)@ + old(self).rest() && r->Ok_0 == old(self).rest().len(),
            {
                unimplemented!()
            }
        }
    }

    #[verifier::external_body]
    pub struct Stdin { x: u8 }

    #[verifier::external_body]
    pub struct Take { x: u8 }

    #[verifier::external_body]
    pub struct Stdout { x: u8 }

    // std::io::stdout, to which nothing has been written
    #[verifier::external_body]
    pub fn stdout() -> (r: Stdout)
        ensures r.out() == Seq::<u8>::empty(), !r.lost(), !r.pending(),
    {
        unimplemented!()
    }

    impl Stdout {
        pub uninterp spec fn out(&self) -> Seq<u8>;

        pub uninterp spec fn lost(&self) -> bool;

        pub uninterp spec fn pending(&self) -> bool;
    }

    // std::io::stdin, nothing of which has been read
    #[verifier::external_body]
    pub fn stdin() -> (r: Stdin)
        ensures r.rest() == stdin_content(), !r.failed(),
    {
        unimplemented!()
    }

    impl Stdin {
        pub uninterp spec fn rest(&self) -> Seq<u8>;

        pub uninterp spec fn failed(&self) -> bool;

        // std::io::Read::take: at most the first n bytes
        #[verifier::external_body]
        pub fn take(self, n: u64) -> (r: Take)
            ensures r.rest() == self.rest().subrange(0, if n < self.rest().len() { n as int } else { self.rest().len() as int }),
        {
            unimplemented!()
        }

        // std::io::Read::read_to_end
        #[verifier::external_body]
        pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoError>)
            ensures !crate::faults() ==> r is Ok, r is Ok ==> final(buf)@ == old(buf)@ + old(self).rest() && r->Ok_0 == old(self).rest().len(),
        {
            unimplemented!()
        }
    }

    impl Take {
        pub uninterp spec fn rest(&self) -> Seq<u8>;

        // std::io::Read::read_to_end
        #[verifier::external_body]
        pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoError>)
            ensures !crate::faults() ==> r is Ok, r is Ok ==> final(buf)@ == old(buf)@ + old(self).rest() && r->Ok_0 == old(self).rest().len(),
        {
            unimplemented!()
        }
    }
}

// what a tool prints: the values it reports, in order
pub struct Console<T> {
    pub ghost_lines: Ghost<Seq<T>>,
}

impl<T> Console<T> {
    pub open spec fn lines(&self) -> Seq<T> {
        self.ghost_lines@
    }

    // stands for println! (which panics if printing fails, and hands completed lines over at once)
    pub fn put(&mut self, x: T)
        ensures final(self).lines() == old(self).lines().push(x),
    {
        self.ghost_lines = Ghost(self.ghost_lines@.push(x));
    }
}

// reading from a file or from standard input
impl vio::Read for venv::fs::File {
    open spec fn rest(&self) -> Seq<u8> { venv::fs::File::rest(self) }

    open spec fn failed(&self) -> bool { venv::fs::File::failed(self) }

    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: vio::Result<usize>) { unimplemented!() }
}

impl vio::Read for venv::Stdin {
    open spec fn rest(&self) -> Seq<u8> { venv::Stdin::rest(self) }

    open spec fn failed(&self) -> bool { venv::Stdin::failed(self) }

    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: vio::Result<usize>) { unimplemented!() }
}

// Box<dyn std::io::Read>
#[verifier::external_body]
pub struct InStream { x: u8 }

pub uninterp spec fn in_rest(s: InStream) -> Seq<u8>;

pub uninterp spec fn in_failed(s: InStream) -> bool;

impl vio::Read for InStream {
    open spec fn rest(&self) -> Seq<u8> { in_rest(*self) }

    open spec fn failed(&self) -> bool { in_failed(*self) }

    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: vio::Result<usize>) { unimplemented!() }
}

// boxing a stream as a trait object leaves its contents
#[verifier::external_body]
pub fn boxed<R: vio::Read>(r: R) -> (s: InStream)
    ensures in_rest(s) == r.rest(), in_failed(s) == r.failed(),
{
    unimplemented!()
}

// writing to a file or to standard output
impl vio::Write for venv::fs::File {
    open spec fn out(&self) -> Seq<u8> { venv::fs::File::out(self) }

    open spec fn to(&self) -> Option<Seq<char>> { venv::fs::File::to(self) }

    open spec fn mode(&self) -> vio::Mode { vio::Mode::Direct }

    open spec fn pending(&self) -> bool { venv::fs::File::pending(self) }

    open spec fn lost(&self) -> bool { venv::fs::File::lost(self) }

    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: vio::Result<()>) { unimplemented!() }

    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: vio::Result<usize>) { unimplemented!() }

    #[verifier::external_body]
    fn flush(&mut self) -> (r: vio::Result<()>) { unimplemented!() }
}

impl vio::Write for venv::Stdout {
    open spec fn out(&self) -> Seq<u8> { venv::Stdout::out(self) }

    open spec fn to(&self) -> Option<Seq<char>> { None }

    open spec fn mode(&self) -> vio::Mode { vio::Mode::Lines }

    open spec fn pending(&self) -> bool { venv::Stdout::pending(self) }

    open spec fn lost(&self) -> bool { venv::Stdout::lost(self) }

    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: vio::Result<()>) { unimplemented!() }

    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: vio::Result<usize>) { unimplemented!() }

    #[verifier::external_body]
    fn flush(&mut self) -> (r: vio::Result<()>) { unimplemented!() }
}

// Box<dyn std::io::Write>
#[verifier::external_body]
pub struct OutStream { x: u8 }

pub uninterp spec fn out_bytes(s: OutStream) -> Seq<u8>;

pub uninterp spec fn out_target(s: OutStream) -> Option<Seq<char>>;

pub uninterp spec fn out_mode(s: OutStream) -> vio::Mode;

pub uninterp spec fn out_pending(s: OutStream) -> bool;

pub uninterp spec fn out_lost(s: OutStream) -> bool;

impl vio::Write for OutStream {
    open spec fn out(&self) -> Seq<u8> { out_bytes(*self) }

    open spec fn to(&self) -> Option<Seq<char>> { out_target(*self) }

    open spec fn mode(&self) -> vio::Mode { out_mode(*self) }

    open spec fn pending(&self) -> bool { out_pending(*self) }

    open spec fn lost(&self) -> bool { out_lost(*self) }

    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: vio::Result<()>) { unimplemented!() }

    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: vio::Result<usize>) { unimplemented!() }

    #[verifier::external_body]
    fn flush(&mut self) -> (r: vio::Result<()>) { unimplemented!() }
}

// boxing a stream as a trait object leaves what it stands for
#[verifier::external_body]
pub fn boxed_out<W: vio::Write>(w: W) -> (s: OutStream)
    ensures out_bytes(s) == w.out(), out_target(s) == w.to(), out_mode(s) == w.mode(), out_pending(s) == w.pending(), out_lost(s) == w.lost(),
{
    unimplemented!()
}

// std::io::BufWriter::new
#[verifier::external_body]
pub fn buffered<W: vio::Write>(w: W) -> (s: OutStream)
    ensures
        out_bytes(s) == w.out(), out_target(s) == w.to(), out_mode(s) == vio::Mode::Buffered, out_pending(s) == w.pending(), out_lost(s) == w.lost(),
{
    unimplemented!()
}

// slice::reverse (assumed contract of the standard library)
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse(),
;

} // verus!
