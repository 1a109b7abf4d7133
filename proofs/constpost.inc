# the vocabulary of optimize_constants' contract
=== type symbolic_regression/src/constant_optimization.rs OptimizeConstantsCtx
=== raw
/// a loss as f64
pub open spec fn f64_of<T: Float>(l: Option<T>) -> Option<Fx> { match l { Some(v) => match v.s_to_f64() { Some(x) => Some(x), None => Some(fx_inf()) }, None => None } }
/// everything of a member but the values of its constants
pub open spec fn shell<T: Float, Ops, const D: usize>(a: PopMember<T, Ops, D>, b: PopMember<T, Ops, D>) -> bool {
    a.id == b.id && a.parent == b.parent && a.plan == b.plan && a.expr.nodes == b.expr.nodes && a.expr.consts@.len() == b.expr.consts@.len()
}
/// a loss that is a number strictly below the other one (read as f64)
pub open spec fn improved<T: Float>(new: Option<T>, old: Option<T>) -> bool {
    new is Some && old is Some && !f64_of(new)->0.isnan() && !f64_of(old)->0.isnan() && f64_of(new)->0.k() < f64_of(old)->0.k()
}
