=== raw
// ---- permutations: p lists the old positions, q is its inverse ----
pub open spec fn perm(p: Seq<int>, q: Seq<int>, n: int) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
    &&& forall|j: int| 0 <= j < n ==> 0 <= #[trigger] q[j] < n && p[q[j]] == j
}
pub open spec fn permuted<T>(old: Seq<T>, new: Seq<T>, p: Seq<int>) -> bool {
    old.len() == new.len() && p.len() == new.len() && forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] == old[p[i]]
}
/// the same elements in another order
pub open spec fn shuffled<T>(old: Seq<T>, new: Seq<T>) -> bool {
    exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(p, q, old.len() as int) && permuted(old, new, p)
}
