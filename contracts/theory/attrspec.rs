//@ needs sentinel sa
verus! {

// the occurrence of w[p..p+l) at p2 contains the x-th of the given positions
pub open spec fn hit(w: Seq<int>, a: Seq<u64>, p: int, l: int, p2: int, x: int) -> bool {
    &&& 0 <= x < a.len() && 0 <= p2 && p2 + l <= w.len()
    &&& p2 <= a[x] < p2 + l
    &&& eqr(w, p, p2, l)
}

pub open spec fn covered(w: Seq<int>, a: Seq<u64>, p: int, l: int) -> bool {
    exists|p2: int, x: int| #[trigger] hit(w, a, p, l, p2, x)
}

// every nonempty substring of w has an occurrence that contains one of the positions
pub open spec fn attr_ok(w: Seq<int>, a: Seq<u64>) -> bool {
    forall|p: int, l: int| 0 <= p && 1 <= l && p + l <= w.len() ==> #[trigger] covered(w, a, p, l)
}

// one of the positions is behind the end of a text of length n (and its sentinel)
pub open spec fn beyond(a: Seq<u64>, n: int) -> bool {
    exists|x: int| 0 <= x < a.len() && #[trigger] a[x] > n
}

// the exit code of the process
pub struct ExitCode {
    pub ghost_code: Ghost<int>,
}

impl ExitCode {
    pub open spec fn code(&self) -> int {
        self.ghost_code@
    }

    // stands for std::process::exit, after which nothing is done
    pub fn set(&mut self, c: i32)
        ensures final(self).code() == c,
    {
        self.ghost_code = Ghost(c as int);
    }
}

} // verus!
