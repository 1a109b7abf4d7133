=== type symbolic_regression/src/operators.rs Operators
=== raw
/// how many operators are listed for arities 1..=m
pub open spec fn nsum<const D: usize>(o: Operators<D>, m: int) -> int
    decreases m,
{ if m <= 0 { 0 } else { nsum(o, m - 1) + o.ops_by_arity@[m - 1]@.len() } }
pub open spec fn upto_d<const D: usize>(m: int) -> int { if m < D { m } else { D as int } }
/// the list for arity a holds operators of arity a only; their number is a machine number
pub open spec fn ops_ok<const D: usize>(o: Operators<D>) -> bool {
    &&& o.ops_by_arity@.len() == D && 1 <= D <= 255
    &&& forall|a: int, k: int| 1 <= a <= D && 0 <= k < o.ops_by_arity@[a - 1]@.len() ==> (#[trigger] o.ops_by_arity@[a - 1]@[k]).arity == a
    &&& nsum(o, D as int) <= usize::MAX
}
pub proof fn nsum_mono<const D: usize>(o: Operators<D>, m: int, n: int)
    requires 0 <= m <= n <= D, o.ops_by_arity@.len() == D,
    ensures 0 <= nsum(o, m) <= nsum(o, n),
    decreases n,
{ if m < n { nsum_mono(o, m, n - 1); } else if n > 0 { nsum_mono(o, n - 1, n - 1); } }
