# the vocabulary of migration contracts
=== raw
/// m is a copy of the migrant s, with s as its parent and identifiers out of the fresh ranges
pub open spec fn copy_of<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, s: PopMember<T, Ops, D>, id0: u64, b0: u64, k: int) -> bool {
    m == PopMember { id: m.id, birth: m.birth, parent: Some(s.id), ..s } && id0 <= m.id.0 < id0 + k && m.birth - b0 == m.id.0 - id0
}
pub open spec fn arrived<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, mig: Seq<PopMember<T, Ops, D>>, id0: u64, b0: u64, k: int) -> bool {
    exists|j: int| 0 <= j < mig.len() && copy_of(m, #[trigger] mig[j], id0, b0, k)
}
pub open spec fn migrated<T: Float, Ops, const D: usize>(a: Seq<PopMember<T, Ops, D>>, b: Seq<PopMember<T, Ops, D>>, mig: Seq<PopMember<T, Ops, D>>, id0: u64, b0: u64, k: int) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] || arrived(b[i], mig, id0, b0, k)
    // identifiers and births given out are pairwise different
    &&& forall|i: int, j: int| 0 <= i < j < a.len() && b[i] != a[i] && b[j] != a[j] && !(b[i].id.0 < id0) && !(b[j].id.0 < id0) && arrived(b[i], mig, id0, b0, k) && arrived(b[j], mig, id0, b0, k) ==> (#[trigger] b[i]).id != (#[trigger] b[j]).id
}
pub proof fn arrived_more<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, mig: Seq<PopMember<T, Ops, D>>, id0: u64, b0: u64, k: int)
    requires arrived(m, mig, id0, b0, k),
    ensures arrived(m, mig, id0, b0, k + 1),
{
    let j = choose|j: int| 0 <= j < mig.len() && copy_of(m, #[trigger] mig[j], id0, b0, k);
    assert(copy_of(m, mig[j], id0, b0, k + 1));
}
/// cheapest first, equals in their old order; p maps places of the ranking to places of the population
pub open spec fn ranked<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, p: Seq<int>) -> bool {
    &&& is_perm(p, ms.len() as int)
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < ms.len() ==> ms[p[i]].cost.key() <= ms[p[j]].cost.key() && (ms[p[i]].cost.key() == ms[p[j]].cost.key() ==> p[i] < p[j])
}
pub open spec fn no_nan<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>) -> bool { forall|i: int| 0 <= i < ms.len() ==> !(#[trigger] ms[i]).cost.nan() }
