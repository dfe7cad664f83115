verus! {

// std::cmp::min / max (assumed contracts of the standard library)
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T>[ std::cmp::min::<T> ](a: T, b: T) -> (r: T)
    where T: std::cmp::Ord + std::marker::Destruct
    ensures
        <T as OrdSpec>::obeys_cmp_spec() ==> r == (if OrdSpec::cmp_spec(&a, &b) == Ordering::Greater { b } else { a }),
;

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T>[ std::cmp::max::<T> ](a: T, b: T) -> (r: T)
    where T: std::cmp::Ord + std::marker::Destruct
    ensures
        <T as OrdSpec>::obeys_cmp_spec() ==> r == (if OrdSpec::cmp_spec(&a, &b) == Ordering::Greater { a } else { b }),
;

} // verus!
