verus! {

// Floating-point numbers, taken as real numbers: f64 is replaced by this type, whose operations are
// exact. Rounding is not modelled.
#[verifier::external_body]
pub struct Real { x: u64 }

impl Copy for Real {}

impl Clone for Real {
    #[verifier::external_body]
    fn clone(&self) -> (r: Real)
        ensures r == *self,
    {
        unimplemented!()
    }
}

// the binary logarithm
pub uninterp spec fn lg(x: real) -> real;

pub axiom fn lg_one()
    ensures lg(1real) == 0real;

pub axiom fn lg_div(a: real, b: real)
    requires a > 0real, b > 0real,
    ensures lg(a / b) == lg(a) - lg(b);

impl Real {
    pub uninterp spec fn v(&self) -> real;

    #[verifier::external_body]
    pub fn log2(self) -> (r: Real)
        ensures self.v() > 0real ==> r.v() == lg(self.v()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn min(self, o: Real) -> (r: Real)
        ensures r.v() == if self.v() <= o.v() { self.v() } else { o.v() },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn max(self, o: Real) -> (r: Real)
        ensures r.v() == if self.v() <= o.v() { o.v() } else { self.v() },
    {
        unimplemented!()
    }
}

// x as f64
#[verifier::external_body]
pub fn real_of(x: u64) -> (r: Real)
    ensures r.v() == x as real,
{
    unimplemented!()
}

impl vstd::std_specs::ops::AddSpecImpl<Real> for Real {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: Real) -> bool { true }
    open spec fn add_spec(self, o: Real) -> Real { self }
}

impl core::ops::Add for Real {
    type Output = Real;

    #[verifier::external_body]
    fn add(self, o: Real) -> (r: Real)
        ensures r.v() == self.v() + o.v(),
    {
        unimplemented!()
    }
}

impl vstd::std_specs::ops::SubSpecImpl<Real> for Real {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Real) -> bool { true }
    open spec fn sub_spec(self, o: Real) -> Real { self }
}

impl core::ops::Sub for Real {
    type Output = Real;

    #[verifier::external_body]
    fn sub(self, o: Real) -> (r: Real)
        ensures r.v() == self.v() - o.v(),
    {
        unimplemented!()
    }
}

impl vstd::std_specs::ops::MulSpecImpl<Real> for Real {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Real) -> bool { true }
    open spec fn mul_spec(self, o: Real) -> Real { self }
}

impl core::ops::Mul for Real {
    type Output = Real;

    #[verifier::external_body]
    fn mul(self, o: Real) -> (r: Real)
        ensures r.v() == self.v() * o.v(),
    {
        unimplemented!()
    }
}

impl vstd::std_specs::ops::DivSpecImpl<Real> for Real {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: Real) -> bool { true }
    open spec fn div_spec(self, o: Real) -> Real { self }
}

impl core::ops::Div for Real {
    type Output = Real;

    #[verifier::external_body]
    fn div(self, o: Real) -> (r: Real)
        ensures o.v() != 0real ==> r.v() == self.v() / o.v(),
    {
        unimplemented!()
    }
}

impl vstd::std_specs::ops::AddAssignSpecImpl<Real> for Real {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: Real) -> bool { true }
    open spec fn add_assign_spec(&self, o: Real) -> &Self { self }
}

impl core::ops::AddAssign for Real {
    #[verifier::external_body]
    fn add_assign(&mut self, o: Real)
        ensures final(self).v() == old(self).v() + o.v(),
    {
        unimplemented!()
    }
}

} // verus!
verus! {

pub proof fn ratio_pos(n: int, m: int)
    ensures n > 0 && m > 0 ==> n as real / m as real > 0real,
{
    if n > 0 && m > 0 {
        let a = n as real;
        let b = m as real;
        assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real;
    }
}

} // verus!
