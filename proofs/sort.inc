=== raw
// ---- slice::sort_by: a stable sort, for comparators that are total preorders on the elements present ----
pub open spec fn opposite(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn orders<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] call_requires(f, (&s[i], &s[j]))
    &&& forall|i: int, j: int, o: Ordering, q: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] call_ensures(f, (&s[i], &s[j]), o) && #[trigger] call_ensures(f, (&s[j], &s[i]), q) ==> q == opposite(o)
    &&& forall|i: int, j: int, k: int, o: Ordering, q: Ordering, w: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && o != Ordering::Greater && q != Ordering::Greater
        && #[trigger] call_ensures(f, (&s[i], &s[j]), o) && #[trigger] call_ensures(f, (&s[j], &s[k]), q) && #[trigger] call_ensures(f, (&s[i], &s[k]), w) ==> w != Ordering::Greater
}
/// p lists the positions 0..n, each once
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
/// r is s rearranged by p, in order, equal elements in their old order
pub open spec fn sorted_by<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>, r: Seq<T>, p: Seq<int>) -> bool {
    &&& is_perm(p, s.len() as int) && r.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == s[p[i]]
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < s.len() ==> exists|o: Ordering| #[trigger] call_ensures(f, (&r[i], &r[j]), o) && o != Ordering::Greater && (o == Ordering::Equal ==> p[i] < p[j])
}
#[verifier::external_body]
pub fn vx_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires orders(f, old(v)@),
    ensures exists|p: Seq<int>| sorted_by(f, old(v)@, final(v)@, p),
{ v.sort_by(f) }
