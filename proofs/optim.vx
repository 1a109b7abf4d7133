# symbolic_regression: the local optimisers return a point together with the objective's value there
=== include prelude.inc
=== raw
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Mul, Sub, Div, Neg};
=== include fx.inc
=== include optimspec.inc
=== include idx.inc
=== raw
impl<'a> SubSpecImpl<&'a Fx> for &'a Fx { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &'a Fx) -> bool { true } open spec fn sub_spec(self, o: &'a Fx) -> Fx { (*self).s_sub(*o) } }
impl<'a> Sub<&'a Fx> for &'a Fx { type Output = Fx; #[verifier::external_body] fn sub(self, o: &'a Fx) -> (r: Fx) { unimplemented!() } }
impl<'a> NegSpecImpl for &'a Fx { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fx { (*self).s_neg() } }
impl<'a> Neg for &'a Fx { type Output = Fx; #[verifier::external_body] fn neg(self) -> (r: Fx) { unimplemented!() } }
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len();
impl Fx {
    // no contract: any value
    #[verifier::external_body]
    pub fn abs(self) -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn ln(self) -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(self) -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn epsilon() -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(it: Fx) -> Fx { unimplemented!() }
}
=== fn symbolic_regression/src/optim.rs inf_norm
--- opt fx
--- loop 0
invariant __n0 == v@.len(), __k0 <= __n0,
decreases __n0 - __k0,
=== fn symbolic_regression/src/optim.rs dot
--- opt fx
--- spec
requires a@.len() == b@.len(),
--- loop 0
invariant __n0 == a@.len() == b@.len(), __k0 <= __n0,
decreases __n0 - __k0,
=== fn symbolic_regression/src/optim.rs axpy_into
--- opt fx
--- spec
requires old(out)@.len() == x@.len() == s@.len(),
ensures final(out)@.len() == old(out)@.len(),
--- loop 0
invariant __n0 == x@.len() == s@.len() == out@.len(), __k0 <= __n0,
decreases __n0 - __k0,
=== fn symbolic_regression/src/optim.rs matvec
--- opt fx
--- spec
requires a@.len() == x@.len() * x@.len(), old(out)@.len() == x@.len(),
ensures final(out)@.len() == old(out)@.len(),
--- entry
proof { assert(a.len() == a@.len()); }
--- loop 0
invariant __n0 == n == x@.len() == out@.len(), a@.len() == n * n, a@.len() <= usize::MAX, __k0 <= __n0,
decreases __n0 - __k0,
--- head 0
proof { idx_le(i as int, n as int, n as int); }
--- loop 1
invariant __n1 == n == x@.len() == row@.len(), __k1 <= __n1,
decreases __n1 - __k1,
=== fn symbolic_regression/src/optim.rs quadratic_step
--- opt fx
=== fn symbolic_regression/src/optim.rs cubic_step
--- opt fx
=== raw
/// `&mut impl FnMut(&[f64]) -> Option<f64>`: the closures given to the line search, as records with a call method
pub trait PhiFn: Sized {
    spec fn ready(&self, n: int) -> bool;
    #[verifier::prophetic]
    spec fn same(&self, o: &Self) -> bool;
    proof fn same_laws(&self)
        ensures forall|a: Self| #[trigger] a.same(&a), forall|a: Self, b: Self, c: Self| #[trigger] a.same(&b) && #[trigger] b.same(&c) ==> a.same(&c);
    fn call(&mut self, x_trial: &[Fx]) -> (r: Option<Fx>)
        requires old(self).ready(x_trial@.len() as int),
        ensures final(self).ready(x_trial@.len() as int), final(self).same(old(self));
}
=== type symbolic_regression/src/optim.rs LineSearchInput
derive Clone, Copy
subst f64 => Fx
=== fn symbolic_regression/src/optim.rs BackTracking@Default::default
--- opt fx inherent
--- ret r
--- spec
ensures true,
=== fn symbolic_regression/src/optim.rs backtracking_linesearch
--- opt fx
--- attrs
#[verifier::loop_isolation(false)]

--- ret r
--- subst impl FnMut(&[Fx]) -> Option<Fx> => impl PhiFn
--- subst phi_at(x_new) => phi_at.call(x_new)
--- spec
requires
    input.x@.len() == input.s@.len() == old(x_new)@.len(), old(phi_at).ready(input.x@.len() as int),
ensures
    final(x_new)@.len() == old(x_new)@.len(), final(phi_at).ready(input.x@.len() as int), final(phi_at).same(old(phi_at)),
--- entry
let ghost p0 = *phi_at;
let ghost n = input.x@.len() as int;
proof { p0.same_laws(); }
--- loop 0
invariant x@.len() == n, s@.len() == n, x_new@.len() == n, phi_at.ready(n), phi_at.same(&p0), __k0 <= __n0,
decreases __n0 - __k0,
--- loop 1
invariant x@.len() == n, s@.len() == n, x_new@.len() == n, phi_at.ready(n), phi_at.same(&p0), __k1 <= __n1,
decreases __n1 - __k1,
=== raw
/// the closure `phi_at` of bfgs_minimize and of newton_1d_minimize
pub struct Phi<'a, 'b, O: Objective> { pub obj: &'a mut O, pub budget: &'b mut EvalBudget, pub opts: OptimOptions }
=== fn symbolic_regression/src/optim.rs bfgs_minimize
--- opt fx
--- entry
proof { old(self).obj.same_laws(); }
--- fromclosure phi_at
impl<'a, 'b, O: Objective> PhiFn for Phi<'a, 'b, O>
obj=>self.obj budget=>(*self.budget) opts=>self.opts
--- implhead
open spec fn ready(&self, n: int) -> bool { self.obj.ready(n) }
#[verifier::prophetic]
open spec fn same(&self, o: &Self) -> bool { self.obj.same(&*o.obj) && *final(self.obj) == *final(o.obj) && *final(self.budget) == *final(o.budget) && self.opts == o.opts }
proof fn same_laws(&self) { self.obj.same_laws(); }
=== fn symbolic_regression/src/optim.rs bfgs_minimize
--- opt fx
--- ret r
--- attrs
#[verifier::loop_isolation(false)]

--- conv phi_at
Phi { obj: &mut *obj, budget: &mut budget, opts: opts }
--- subst x0.to_vec() => vx_sub_to_vec(x0, 0, x0.len())
--- spec
requires old(obj).ready(x0@.len() as int), x0@.len() * x0@.len() <= usize::MAX,
ensures
    final(obj).ready(x0@.len() as int), final(obj).same(old(obj)),
    opt_post(old(obj), x0@.len() as int, r), // [P20]
--- entry
let ghost o0 = *obj;
proof { o0.same_laws(); assert(x0.len() == x0@.len()); }
--- loops 12
--- loop 0
invariant __n0 == n, __k0 <= __n0, inv_h@.len() == n * n,
decreases __n0 - __k0,
--- head 0
proof { idx_in(i as int, n as int, i as int, n as int); }
--- loop 1
invariant
    x@.len() == n, x_prev@.len() == n, x_ls@.len() == n, g@.len() == n, g_prev@.len() == n, s@.len() == n, u@.len() == n, dx@.len() == n, dg@.len() == n, inv_h@.len() == n * n,
    obj.ready(n as int), obj.same(&o0), o0.val(x@) == Some(fx), // [P20]
    __k1 <= __n1,
decreases __n1 - __k1,
--- loop 2
invariant __n2 == n, __k2 <= __n2, s@.len() == n,
decreases __n2 - __k2,
--- loop 3
invariant __n3 == n, __k3 <= __n3, inv_h@.len() == n * n,
decreases __n3 - __k3,
--- head 3
proof { idx_in(i as int, n as int, i as int, n as int); }
--- loop 4
invariant __n4 == n, __k4 <= __n4, s@.len() == n,
decreases __n4 - __k4,
--- loop 5
invariant __n5 == n, __k5 <= __n5, dx@.len() == n,
decreases __n5 - __k5,
--- loop 6
invariant __n6 == n, __k6 <= __n6, dg@.len() == n,
decreases __n6 - __k6,
--- loop 7
invariant __n7 == n, __k7 <= __n7, inv_h@.len() == n * n,
decreases __n7 - __k7,
--- head 7
proof { idx_in(i as int, n as int, i as int, n as int); }
--- loop 8
invariant __n8 == n, __k8 <= __n8, inv_h@.len() == n * n,
decreases __n8 - __k8,
--- loop 9
invariant __n9 == n, __k9 <= __n9, inv_h@.len() == n * n, i < n,
decreases __n9 - __k9,
--- head 9
proof { idx_in(i as int, n as int, j as int, n as int); }
--- loop 10
invariant __n10 == n, __k10 <= __n10, inv_h@.len() == n * n,
decreases __n10 - __k10,
--- loop 11
invariant __n11 == n, __k11 <= __n11, inv_h@.len() == n * n, i < n,
decreases __n11 - __k11,
--- head 11
proof { idx_in(i as int, n as int, j as int, n as int); idx_in(j as int, n as int, i as int, n as int); }
=== fn symbolic_regression/src/optim.rs newton_1d_minimize
--- opt fx
--- ret r
--- attrs
#[verifier::loop_isolation(false)]

--- conv phi_at
Phi { obj: &mut *obj, budget: &mut budget, opts: opts }
--- spec
requires old(obj).ready(1),
ensures
    final(obj).ready(1), final(obj).same(old(obj)),
    opt_post(old(obj), 1, r), // [P20]
--- entry
let ghost o0 = *obj;
proof { o0.same_laws(); }
--- loops 1
--- loop 0
invariant
    obj.ready(1), obj.same(&o0),
    o0.val(seq![best_x]) == Some(best_f) || best_f == fx_inf(), // [P20]
    __k0 <= __n0,
decreases __n0 - __k0,
--- at after let f=
proof { assert(x_vec@ =~= seq![x]); }
--- after 0
proof { assert forall|v: Seq<Fx>| v.len() == 1 && v[0] == best_x implies #[trigger] o0.val(v) == o0.val(seq![best_x]) by { assert(v =~= seq![best_x]); } }
