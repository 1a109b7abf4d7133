# age order in a population
=== raw
pub open spec fn o_ix<X>(o: Option<(usize, X)>) -> int { match o { Some(p) => p.0 as int, None => -1 } }
pub open spec fn o_m<X>(o: Option<(usize, &X)>) -> X { *(o->0).1 }
/// i is the place of the first member with the earliest birth, not counting place `skip`
pub open spec fn is_oldest<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, n: int, i: int, skip: int) -> bool {
    &&& 0 <= i < n && i != skip
    &&& forall|j: int| 0 <= j < n && j != skip ==> (#[trigger] ms[j]).birth >= ms[i].birth && (j < i ==> ms[j].birth > ms[i].birth)
}
pub proof fn oldest_unique<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, n: int, i: int, j: int, skip: int)
    requires is_oldest(ms, n, i, skip), is_oldest(ms, n, j, skip),
    ensures i == j,
{ }
