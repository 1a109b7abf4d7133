# web/wasm: the rows of a data set are shared out between training and validation
=== include prelude.inc
=== raw
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Mul, Sub, Div, Neg};
=== include fx.inc
=== include fx32.inc
=== include perm.inc
=== raw
#[verifier::external_body]
pub struct Rng { x: u64 }
impl Rng {
    #[verifier::external_body]
    pub fn with_seed(s: u64) -> Rng { unimplemented!() }
    #[verifier::external_body]
    pub fn usize(&mut self, r: core::ops::Range<usize>) -> (x: usize) requires r.start < r.end, ensures r.start <= x < r.end, { unimplemented!() }
}
/// the two lists together hold every row number below n exactly once
pub open spec fn shares_out(val: Seq<usize>, train: Seq<usize>, n: int) -> bool {
    let s = val + train;
    &&& s.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] s[i] != #[trigger] s[j]
    &&& forall|r: int| 0 <= r < n ==> #[trigger] held(s, r)
}
pub open spec fn held(s: Seq<usize>, r: int) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == r }
/// the requested fraction: between nothing and nine tenths
pub open spec fn fraction(vf: Fx) -> real { if vf.k() < 0real { 0real } else if vf.k() > rnd(9real / 10real) { rnd(9real / 10real) } else { vf.k() } }
/// the number of validation rows: the fraction of the rows, to the nearest whole number, leaving one for training
pub open spec fn val_rows(vf: Fx, n: int) -> int {
    if n == 0 || vf.isnan() { 0 } else { let k = fx_round(rnd(fraction(vf) * rnd(n as real))).floor(); if k > n - 1 { n - 1 } else { k } }
}
pub proof fn limits() ensures rnd(9real / 10real) <= 1real, rnd(9real / 10real) >= 0real { fx_laws(); assert(rnd(9real / 10real) <= rnd(1real)); assert(rnd(0real) <= rnd(9real / 10real)); }
/// the product of the fraction and the row count, rounded to a whole number
pub proof fn product(vf: Fx, c: Fx, n: int)
    requires 0 < n <= 0x100_0000, c.isnan() == vf.isnan(), !vf.isnan() ==> c.k() == fraction(vf),
    ensures
        vf.isnan() ==> c.s_mul(fx_int(n)).isnan(),
        !vf.isnan() ==> c.s_mul(fx_int(n)).isfin() && c.s_mul(fx_int(n)).k() == rnd(fraction(vf) * rnd(n as real)) && c.s_mul(fx_int(n)).k() >= 0real
            && fx_round(c.s_mul(fx_int(n)).k()) >= 0real,
{
    fx_laws(); fx_int_law(); rnd_int(n); limits();
    let (f, x) = (fraction(vf), fx_int(n));
    assert(x.k() == n as real && x.isfin());
    assert(0real <= f <= 1real);
    assert(0real <= f * (n as real) <= n as real) by (nonlinear_arith) requires 0real <= f <= 1real, n >= 0;
    assert(rnd(0real) <= rnd(f * (n as real)) <= rnd(n as real));
    if !vf.isnan() {
        assert(c.isfin());
        assert(fx_is(c.s_mul(x), c.k() * x.k()));
    }
}
=== type web/wasm/src/lib.rs WasmSplitIndices
=== fn symbolic_regression/src/random.rs shuffle
--- rename shuffle_sr
--- subst fastrand::Rng => Rng
--- spec
ensures shuffled(old(values)@, final(values)@),
--- entry
let ghost v0 = values@;
let ghost mut p = Seq::new(values@.len(), |i: int| i);
let ghost mut q = Seq::new(values@.len(), |i: int| i);
proof { perm_id(values@.len() as int); assert(perm(p, q, v0.len() as int) && permuted(v0, values@, p)); }
--- loop 0
invariant __n0 == 1, __k0 <= v0.len(), values@.len() == v0.len(), perm(p, q, v0.len() as int), permuted(v0, values@, p),
decreases __k0,
--- at before values.swap
proof {
    let (i, j) = (i as int, j as int);
    perm_swap(v0, values@, p, q, v0.len() as int, i, j);
    let q1 = q.update(p[i], j).update(p[j], i);
    p = swapped(p, i, j);
    q = q1;
}
=== fn web/wasm/src/lib.rs shuffle
--- spec
ensures shuffled(old(values)@, final(values)@),
--- entry
let ghost v0 = values@;
let ghost mut p = Seq::new(values@.len(), |i: int| i);
let ghost mut q = Seq::new(values@.len(), |i: int| i);
proof { perm_id(values@.len() as int); assert(perm(p, q, v0.len() as int) && permuted(v0, values@, p)); }
--- loop 0
invariant __n0 == 1, __k0 <= v0.len(), values@.len() == v0.len(), perm(p, q, v0.len() as int), permuted(v0, values@, p),
decreases __k0,
--- at before values.swap
proof {
    let (i, j) = (i as int, j as int);
    perm_swap(v0, values@, p, q, v0.len() as int, i, j);
    let q1 = q.update(p[i], j).update(p[j], i);
    p = swapped(p, i, j);
    q = q1;
}
=== fn web/wasm/src/lib.rs make_split_indices
--- opt fx
--- ret r
--- spec
requires n_rows <= 0x100_0000,
ensures shares_out(r.val@, r.train@, n_rows as int), r.val@.len() == val_rows(validation_fraction, n_rows as int), n_rows > 0 ==> r.train@.len() > 0,
--- entry
proof { limits(); }
--- loop 0
invariant __n0 == n_rows, __k0 <= __n0, __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __acc0@[i] == i,
decreases __n0 - __k0,
--- after 0
proof {
    let s = Seq::<usize>::empty() + __acc0@;
    assert(s =~= __acc0@);
    assert forall|r: int| 0 <= r < n_rows implies #[trigger] held(s, r) by { assert(s[r] == r); }
}
--- loop 1
invariant __n1 == n_rows, __k1 <= __n1, __acc1@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> #[trigger] __acc1@[i] == i,
decreases __n1 - __k1,
--- after 1
proof { assert(__acc1@ =~= Seq::new(n_rows as nat, |i: int| i as usize)); }
--- at after lettrain=
proof {
    let ids = Seq::new(n_rows as nat, |i: int| i as usize);
    let s = val@ + train@;
    assert(s =~= idx@);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(p, q, n_rows as int) && permuted(ids, idx@, p);
    assert forall|i: int| 0 <= i < n_rows implies #[trigger] s[i] == p[i] by { }
    assert forall|i: int, j: int| 0 <= i < j < n_rows implies #[trigger] s[i] != #[trigger] s[j] by { assert(q[p[i]] == i); assert(q[p[j]] == j); }
    assert forall|r: int| 0 <= r < n_rows implies #[trigger] held(s, r) by { assert(s[q[r]] == p[q[r]]); }
}
--- at before letn_val=
proof { product(validation_fraction, vf, n_rows as int); }
