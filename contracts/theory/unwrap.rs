verus! {

// With streams that can fail, unwrap and expect of the result of a stream operation may end the program
// (unsuccessfully): they give the value or do not return. Of an Option and of other results they are an
// obligation as ever.
pub trait Unwrap: Sized {
    type V;

    spec fn may(&self) -> bool;

    spec fn good(&self) -> bool;

    spec fn val(&self) -> Self::V;

    fn vunwrap(self) -> (r: Self::V)
        requires self.may(),
        ensures self.good(), r == self.val(),
        ;

    fn vexpect(self, m: &str) -> (r: Self::V)
        requires self.may(),
        ensures self.good(), r == self.val(),
        ;
}

impl<T> Unwrap for Option<T> {
    type V = T;

    open spec fn may(&self) -> bool { self is Some }

    open spec fn good(&self) -> bool { self is Some }

    open spec fn val(&self) -> T { self->0 }

    fn vunwrap(self) -> (r: T) { match self { Some(x) => x, None => runtime_unreachable() } }

    fn vexpect(self, m: &str) -> (r: T) { match self { Some(x) => x, None => runtime_unreachable() } }
}

impl<T> Unwrap for core::result::Result<T, vio::Error> {
    type V = T;

    open spec fn may(&self) -> bool { true }

    open spec fn good(&self) -> bool { self is Ok }

    open spec fn val(&self) -> T { self->Ok_0 }

    fn vunwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => ends_unsuccessfully() } }

    fn vexpect(self, m: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => ends_unsuccessfully() } }
}

impl<T> Unwrap for core::result::Result<T, venv::IoError> {
    type V = T;

    open spec fn may(&self) -> bool { true }

    open spec fn good(&self) -> bool { self is Ok }

    open spec fn val(&self) -> T { self->Ok_0 }

    fn vunwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => ends_unsuccessfully() } }

    fn vexpect(self, m: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => ends_unsuccessfully() } }
}

} // verus!
