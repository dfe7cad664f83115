use std::collections::HashMap;
verus! {

// HashMap::get_mut (assumed contract of the standard library)
#[verifier::external_body]
pub fn map_get_mut<'a>(m: &'a mut HashMap<u64, u64>, k: &u64) -> (r: Option<&'a mut u64>)
    ensures match r {
        Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
        None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@,
    },
{
    unimplemented!()
}

// the entries of a map, in any order, each one once
pub open spec fn entries_of(m: Map<u64, u64>, es: Seq<(u64, u64)>) -> bool {
    &&& forall|x: int| 0 <= x < es.len() ==> m.contains_key((#[trigger] es[x]).0) && m[es[x].0] == es[x].1
    &&& forall|x: int, y: int| 0 <= x < es.len() && 0 <= y < es.len() && x != y ==> (#[trigger] es[x]).0 != (#[trigger] es[y]).0
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> exists|x: int| 0 <= x < es.len() && (#[trigger] es[x]).0 == k
}

// iteration over a HashMap (assumed contract of the standard library)
#[verifier::external_body]
pub fn map_entries(m: HashMap<u64, u64>) -> (r: Vec<(u64, u64)>)
    ensures entries_of(m@, r@),
{
    unimplemented!()
}

} // verus!
