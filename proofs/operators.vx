# symbolic_regression/src/operators.rs: the listed operators and drawing from them
=== include prelude.inc
=== include float_sr.inc
=== raw
use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== include operators.inc
=== include rng.inc
=== fn symbolic_regression/src/operators.rs Operators::push
--- panics !(1 <= op.arity <= D)
--- spec
requires old(self).ops_by_arity@.len() == D,
ensures
    1 <= op.arity <= D, final(self).ops_by_arity@.len() == D,
    forall|a: int| 1 <= a <= D ==> (#[trigger] final(self).ops_by_arity@[a - 1])@ == (if a == op.arity { old(self).ops_by_arity@[a - 1]@.push(op) } else { old(self).ops_by_arity@[a - 1]@ }),
    // the lists stay sorted by arity
    ops_ok(*old(self)) && nsum(*old(self), D as int) < usize::MAX ==> ops_ok(*final(self)),
--- exit
proof { let o0 = *old(self); let o1 = *self; if ops_ok(o0) && nsum(o0, D as int) < usize::MAX {
    nsum_push(o0, o1, op.arity as int, D as int);
    assert forall|a: int, k: int| 1 <= a <= D && 0 <= k < o1.ops_by_arity@[a - 1]@.len() implies (#[trigger] o1.ops_by_arity@[a - 1]@[k]).arity == a by {
        if k < o0.ops_by_arity@[a - 1]@.len() { assert(o0.ops_by_arity@[a - 1]@[k].arity == a); }
    }
} }
=== raw
pub proof fn nsum_push<const D: usize>(o: Operators<D>, p: Operators<D>, x: int, m: int)
    requires o.ops_by_arity@.len() == D, p.ops_by_arity@.len() == D, 1 <= x <= D, 0 <= m <= D,
        forall|a: int| 1 <= a <= D ==> (#[trigger] p.ops_by_arity@[a - 1])@.len() == o.ops_by_arity@[a - 1]@.len() + (if a == x { 1int } else { 0 }),
    ensures nsum(p, m) == nsum(o, m) + (if x <= m { 1int } else { 0 }),
    decreases m,
{ if m > 0 { nsum_push(o, p, x, m - 1); assert(p.ops_by_arity@[m - 1]@.len() == o.ops_by_arity@[m - 1]@.len() + (if m == x { 1int } else { 0 })); } }
=== fn symbolic_regression/src/operators.rs Operators::nops
--- ret r
--- spec
requires self.ops_by_arity@.len() == D, 1 <= arity <= D,
ensures r == self.ops_by_arity@[arity - 1]@.len(),
=== fn symbolic_regression/src/operators.rs Operators::total_ops_up_to
--- ret r
--- spec
requires ops_ok(*self),
ensures r == nsum(*self, upto_d::<D>(max_arity as int)),
--- loop 0
invariant ops_ok(*self), __n0 == max_arity, max_arity <= D, __k0 <= __n0, __acc0 == nsum(*self, __k0 as int),
decreases __n0 - __k0,
--- head 0
proof { nsum_mono(*self, __k0 as int, D as int); nsum_mono(*self, __k0 - 1, D as int); }
=== fn symbolic_regression/src/operators.rs Operators::sample_arity
--- ret r
--- panics nsum(*self, upto_d::<D>(__p as int)) == 0
--- entry
let ghost __p = max_arity;
--- spec
requires ops_ok(*self),
ensures 1 <= r <= max_arity, r <= D, self.ops_by_arity@[r - 1]@.len() > 0,
--- loops 2
--- loop 0
invariant ops_ok(*self), __n0 == max_arity, max_arity <= D, __k0 <= __n0, __acc0 == nsum(*self, __k0 as int),
decreases __n0 - __k0,
--- head 0
proof { nsum_mono(*self, __k0 as int, D as int); nsum_mono(*self, __k0 - 1, D as int); }
--- lattr 1
#[verifier::loop_isolation(false)]
--- loop 1
invariant ops_ok(*self), __n1 == max_arity, max_arity <= D, max_arity <= __p, 1 <= __k1 <= __n1 + 1, r + nsum(*self, __k1 - 1) < nsum(*self, max_arity as int),
decreases __n1 + 1 - __k1,
--- head 1
proof { nsum_mono(*self, __k1 - 2, max_arity as int); }
--- after 1
assert(false);
=== fn symbolic_regression/src/operators.rs Operators::sample_op
--- ret r
--- spec
requires ops_ok(*self), 1 <= arity <= D, self.ops_by_arity@[arity - 1]@.len() > 0,
ensures r.arity == arity, exists|k: int| 0 <= k < self.ops_by_arity@[arity - 1]@.len() && #[trigger] self.ops_by_arity@[arity - 1]@[k] == r,
