=== type symbolic_regression/src/optim.rs OptimOptions
derive Clone, Copy
subst f64 => Fx
=== type symbolic_regression/src/optim.rs BackTracking
derive Clone, Copy
subst f64 => Fx
=== type symbolic_regression/src/optim.rs EvalBudget
derive Clone, Copy
=== type symbolic_regression/src/optim.rs OptimResult
subst f64 => Fx
=== raw
// #[derive(Default)]
impl EvalBudget { pub fn default() -> (r: EvalBudget) ensures r.f_calls == 0 { EvalBudget { f_calls: 0 } } }
/// the objective of a minimisation: a function of the point alone, whatever the state of the objective's buffers
pub trait Objective: Sized {
    spec fn ready(&self, n: int) -> bool;
    /// the value at a point, if there is one
    spec fn val(&self, x: Seq<Fx>) -> Option<Fx>;
    /// o and self differ in scratch state only
    #[verifier::prophetic]
    spec fn same(&self, o: &Self) -> bool;
    proof fn same_laws(&self)
        ensures forall|a: Self| #[trigger] a.same(&a), forall|a: Self, b: Self, c: Self| #[trigger] a.same(&b) && #[trigger] b.same(&c) ==> a.same(&c),
            forall|a: Self, b: Self, x: Seq<Fx>| #![trigger a.same(&b), a.val(x)] #![trigger a.same(&b), b.val(x)] a.same(&b) ==> a.val(x) == b.val(x);
    fn f_only(&mut self, x: &[Fx], budget: &mut EvalBudget) -> (r: Option<Fx>)
        requires old(self).ready(x@.len() as int),
        ensures final(self).ready(x@.len() as int), final(self).same(old(self)), r is Some ==> r == old(self).val(x@);
    fn fg(&mut self, x: &[Fx], g_out: &mut [Fx], budget: &mut EvalBudget) -> (r: Option<Fx>)
        requires old(self).ready(x@.len() as int), old(g_out)@.len() == x@.len(),
        ensures final(self).ready(x@.len() as int), final(self).same(old(self)), final(g_out)@.len() == old(g_out)@.len(), r is Some ==> r == old(self).val(x@);
}
/// a minimisation result is a point with the objective's value there (or plus infinity, which improves on nothing)
pub open spec fn opt_post<O: Objective>(o: &O, n: int, r: Option<OptimResult>) -> bool {
    r matches Some(res) ==> res.minimizer@.len() == n && (o.val(res.minimizer@) == Some(res.minimum) || res.minimum == fx_inf())
}
