# symbolic_regression: constant optimisation
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include search.inc
=== include optimspec.inc
=== include idx.inc
=== include rng.inc
=== include constpost.inc
=== uses optim.vx bfgs_minimize
=== uses optim.vx newton_1d_minimize
=== uses optim.vx BackTracking@Default::default
=== uses complexity.inc compute_complexity
=== fn symbolic_regression/src/pop_member.rs PopMember::evaluate
--- ret r
--- subst dynamic_expressions:: => 
--- subst dataset.x => dataset.data.x
--- subst dataset.y => dataset.data.y
--- subst dataset.weights => dataset.data.weights
--- spec
requires mem_ok(*old(self), dataset.data.n_features as int), dataset.data.ok(), dataset.data.n_rows > 0, ev_ok(*old(evaluator), dataset.data.n_rows as int),
ensures
    ev_ok(*final(evaluator), dataset.data.n_rows as int), own(*final(self), *dataset, *options),
    r == (loss_of::<Ops, T, D>(old(self).expr.nodes@, old(self).expr.consts@, *dataset.data, *options) is Some),
    final(self).id == old(self).id, final(self).parent == old(self).parent, final(self).birth == old(self).birth, final(self).expr == old(self).expr, final(self).plan == old(self).plan,
    priced(*final(self), dataset.baseline_loss, *options), // [P33]
--- entry
proof { prog_sound::<Ops>(self.expr.nodes@, dataset.data.n_features as int, self.expr.consts@.len() as int, D as int); }
=== type symbolic_regression/src/constant_optimization.rs EvalWorkspace
subst Float + AddAssign => Float
=== type symbolic_regression/src/constant_optimization.rs ConstObjective
subst Float + AddAssign => Float
subst dynamic_expressions::expression::PostfixExpr => PostfixExpr
subst dynamic_expressions::EvalPlan => EvalPlan
=== raw
pub open spec fn ws_ok<'a, T: Float, const D: usize>(w: EvalWorkspace<'a, T, D>) -> bool {
    &&& w.dataset.ok() && w.dataset.n_rows > 0 && ev_ok(*w.evaluator, w.dataset.n_rows as int)
    &&& gctx_ok(*w.grad_ctx) && w.grad_ctx.n_rows == w.dataset.n_rows && w.eval_opts.check_finite && w.eval_opts.early_exit && w.dloss_dyhat@.len() == w.dataset.n_rows
}
#[verifier::prophetic]
pub open spec fn ws_same<'a, T: Float, const D: usize>(a: EvalWorkspace<'a, T, D>, b: EvalWorkspace<'a, T, D>) -> bool {
    &&& a.dataset == b.dataset && a.options == b.options && a.eval_opts == b.eval_opts
    &&& *final(a.evaluator) == *final(b.evaluator) && *final(a.grad_ctx) == *final(b.grad_ctx)
    &&& a.evaluator.eval_opts == b.evaluator.eval_opts
}
=== fn symbolic_regression/src/constant_optimization.rs EvalWorkspace::new
--- ret r
--- subst Float + AddAssign => Float
--- spec
requires dataset.ok(), dataset.n_rows > 0, ev_ok(*old(evaluator), dataset.n_rows as int), gctx_ok(*old(grad_ctx)), old(grad_ctx).n_rows == dataset.n_rows,
ensures ws_ok(r), r.dataset == dataset, r.options == options, *r.evaluator == *old(evaluator), *final(r.evaluator) == *final(evaluator), *r.grad_ctx == *old(grad_ctx), *final(r.grad_ctx) == *final(grad_ctx),
=== fn symbolic_regression/src/constant_optimization.rs EvalWorkspace::loss_only
--- ret r
--- opt fx
--- subst Float + AddAssign => Float
--- subst dynamic_expressions::expression:: => 
--- subst dynamic_expressions:: => 
--- spec
requires ws_ok(*old(self)), plan_is::<Ops, D>(*plan, expr.nodes@, old(self).dataset.n_features as int, expr.consts@.len() as int),
ensures
    ws_ok(*final(self)), ws_same(*final(self), *old(self)),
    r == f64_of(loss_of::<Ops, T, D>(expr.nodes@, expr.consts@, *old(self).dataset, *old(self).options)), // [P20]
=== fn symbolic_regression/src/constant_optimization.rs EvalWorkspace::loss_and_grad
--- ret r
--- opt fx
--- subst Float + AddAssign => Float
--- subst dynamic_expressions::expression:: => 
--- subst dynamic_expressions:: => 
--- spec
requires ws_ok(*old(self)), prog_ok::<Ops>(expr.nodes@, old(self).dataset.n_features as int, expr.consts@.len() as int, D as int), old(grad_out)@.len() == expr.consts@.len(),
    expr.consts@.len() * old(self).dataset.n_rows <= usize::MAX,
ensures
    ws_ok(*final(self)), ws_same(*final(self), *old(self)), final(grad_out)@.len() == old(grad_out)@.len(),
    r is Some ==> r == f64_of(loss_of::<Ops, T, D>(expr.nodes@, expr.consts@, *old(self).dataset, *old(self).options)), // [P20]

--- attrs
#[verifier::loop_isolation(false)]
--- loops 3
--- entry
proof { T::laws(); }
--- loop 0
invariant __k0 <= __n0, __n0 == yhat@.len(), __acc0 ==> exists|k: int| 0 <= k < yhat@.len() && !(#[trigger] yhat@[k]).fin(),
decreases __n0 - __k0, (if __acc0 { 0int } else { 1int }),
--- loop 1
invariant __k1 <= __n1, __n1 == grad_out@.len() == old(grad_out)@.len(), self.dloss_dyhat@.len() == n_rows, dy_dc.data@.len() == n_params * n_rows,
decreases __n1 - __k1,
--- head 1
proof { if __k1 >= 1 { idx_le(__k1 - 1, n_rows as int, n_params as int); } }
--- loop 2
invariant __k2 <= __n2, __n2 == n_rows, 0 <= base, base + n_rows <= dy_dc.data@.len(), self.dloss_dyhat@.len() == n_rows,
decreases __n2 - __k2,
=== raw
/// the constants the point stands for
pub open spec fn cs_of<T: Float>(x: Seq<Fx>) -> Seq<T> { x.map_values(|v: Fx| T::s_of_prim(v)->0) }
pub open spec fn rep_of<T: Float>(x: Seq<Fx>) -> bool { forall|i: int| 0 <= i < x.len() ==> T::s_of_prim(#[trigger] x[i]) is Some }
=== fn symbolic_regression/src/constant_optimization.rs ConstObjective@Objective::f_only
--- opt fx implopen
--- subst Float + FromPrimitive + AddAssign => Float
--- subst crate::optim:: => 
--- implhead
open spec fn ready(&self, n: int) -> bool {
    &&& self.expr.consts@.len() == n && ws_ok(*self.workspace)
    &&& prog_ok::<Ops>(self.expr.nodes@, self.workspace.dataset.n_features as int, n, D as int) && plan_is::<Ops, D>(*self.plan, self.expr.nodes@, self.workspace.dataset.n_features as int, n)
    &&& n * self.workspace.dataset.n_rows <= usize::MAX
}
open spec fn val(&self, x: Seq<Fx>) -> Option<Fx> {
    if rep_of::<T>(x) { f64_of(loss_of::<Ops, T, D>(self.expr.nodes@, cs_of::<T>(x), *self.workspace.dataset, *self.workspace.options)) } else { None }
}
#[verifier::prophetic]
open spec fn same(&self, o: &Self) -> bool {
    &&& self.plan == o.plan && self.expr.nodes == o.expr.nodes && self.expr.consts@.len() == o.expr.consts@.len() && *final(self.expr) == *final(o.expr)
    &&& ws_same(*self.workspace, *o.workspace) && *final(self.workspace) == *final(o.workspace)
}
proof fn same_laws(&self) { }
--- loops 1
--- loop 0
invariant __k0 <= __n0, __n0 == x@.len() == self.expr.consts@.len(), self.plan == old(self).plan, *final(self.expr) == *final(old(self).expr), self.expr.nodes == old(self).expr.nodes,
    *self.workspace == *old(self).workspace, *final(self.workspace) == *final(old(self).workspace),
    forall|i: int| 0 <= i < __k0 ==> T::s_of_prim(#[trigger] x@[i]) == Some(self.expr.consts@[i]),
decreases __n0 - __k0,
--- after 0
proof { assert(self.expr.consts@ =~= cs_of::<T>(x@)); }
--- attrs
#[verifier::loop_isolation(false)]
--- entry
proof { assume(budget.f_calls < usize::MAX); } // assumption: fewer than 2^64 evaluations (budget.f_calls is a usize)
=== fn symbolic_regression/src/constant_optimization.rs ConstObjective@Objective::fg
--- opt fx implcont
--- subst Float + FromPrimitive + AddAssign => Float
--- subst crate::optim:: => 
--- loops 1
--- loop 0
invariant __k0 <= __n0, __n0 == x@.len() == self.expr.consts@.len(), self.plan == old(self).plan, *final(self.expr) == *final(old(self).expr), self.expr.nodes == old(self).expr.nodes,
    *self.workspace == *old(self).workspace, *final(self.workspace) == *final(old(self).workspace),
    forall|i: int| 0 <= i < __k0 ==> T::s_of_prim(#[trigger] x@[i]) == Some(self.expr.consts@[i]),
decreases __n0 - __k0,
--- after 0
proof { assert(self.expr.consts@ =~= cs_of::<T>(x@)); }
--- attrs
#[verifier::loop_isolation(false)]
--- entry
proof { assume(budget.f_calls < usize::MAX); } // assumption: fewer than 2^64 evaluations (budget.f_calls is a usize)
=== raw
/// a minimisation result of an expression's loss over its constants
pub open spec fn min_post<T: Float, Ops: OperatorSet<T = T>, const D: usize>(nodes: Seq<PNode>, n: int, d: Dataset<T>, o: Options<T, D>, r: Option<OptimResult>) -> bool {
    r matches Some(res) ==> (res.minimizer@.len() == n && (pt_val::<T, Ops, D>(nodes, res.minimizer@, d, o) == Some(res.minimum) || res.minimum == fx_inf()))
}
pub open spec fn pt_val<T: Float, Ops: OperatorSet<T = T>, const D: usize>(nodes: Seq<PNode>, x: Seq<Fx>, d: Dataset<T>, o: Options<T, D>) -> Option<Fx> {
    if rep_of::<T>(x) { f64_of(loss_of::<Ops, T, D>(nodes, cs_of::<T>(x), d, o)) } else { None }
}
=== fn symbolic_regression/src/constant_optimization.rs EvalWorkspace::optimize_from_start
--- ret r
--- opt fx
--- subst T: FromPrimitive, => 
--- subst Float + AddAssign => Float
--- subst crate::optim:: => 
--- spec
requires ws_ok(*old(self)), mem_ok(*old(member), old(self).dataset.n_features as int), start@.len() == n_params == old(member).expr.consts@.len(), n_params >= 1,
    n_params * old(self).dataset.n_rows <= usize::MAX, n_params * n_params <= usize::MAX,
ensures
    ws_ok(*final(self)), ws_same(*final(self), *old(self)), shell(*final(member), *old(member)),
    final(member).birth == old(member).birth, final(member).loss == old(member).loss, final(member).cost == old(member).cost, final(member).complexity == old(member).complexity,
    min_post::<T, Ops, D>(old(member).expr.nodes@, n_params as int, *old(self).dataset, *old(self).options, r), // [P20]
=== raw
/// random.rs standard_normal (ziggurat table lookup): any value
#[verifier::external_body]
pub fn standard_normal(rng: &mut Rng) -> Fx { unimplemented!() }
/// the best point so far: the start itself, or a point whose loss is strictly below the baseline
pub open spec fn bst<T: Float, Ops: OperatorSet<T = T>, const D: usize>(nodes: Seq<PNode>, n: int, d: Dataset<T>, o: Options<T, D>, x: Seq<Fx>, f: Fx, base: Fx) -> bool {
    x.len() == n && (f == base || (!f.isnan() && !base.isnan() && f.k() < base.k() && pt_val::<T, Ops, D>(nodes, x, d, o) == Some(f)))
}
=== fn symbolic_regression/src/constant_optimization.rs optimize_constants
--- ret r
--- opt fx
--- attrs
#[verifier::loop_isolation(false)]
--- subst Float + FromPrimitive + ToPrimitive + AddAssign => Float
--- spec
requires
    mem_ok(*old(member), ctx.dataset.data.n_features as int), ctx.dataset.data.ok(), ctx.dataset.data.n_rows > 0, ev_ok(*ctx.evaluator, ctx.dataset.data.n_rows as int),
    gctx_ok(*ctx.grad_ctx), ctx.grad_ctx.n_rows == ctx.dataset.data.n_rows, old(member).expr.consts@.len() * ctx.dataset.data.n_rows <= usize::MAX,
    old(member).expr.consts@.len() * old(member).expr.consts@.len() <= usize::MAX, *ctx.next_birth < u64::MAX,
ensures
    ev_ok(*final(ctx.evaluator), ctx.dataset.data.n_rows as int), gctx_ok(*final(ctx.grad_ctx)), final(ctx.grad_ctx).n_rows == old(ctx.grad_ctx).n_rows,
    shell(*final(member), *old(member)), // [P20]
    *final(ctx.next_birth) == *old(ctx.next_birth) + if r.0 { 1int } else { 0int },
    !r.0 ==> final(member).expr.consts@ == old(member).expr.consts@ && final(member).loss == old(member).loss && final(member).cost == old(member).cost && final(member).birth == old(member).birth, // [P20]
    final(member).complexity == old(member).complexity || final(member).complexity == sat(wsum(*ctx.options, old(member).expr.nodes@)),
    r.0 ==> priced(*final(member), ctx.dataset.baseline_loss, *ctx.options), // [P33]
    r.0 ==> final(member).birth == *old(ctx.next_birth) && own(*final(member), ctx.dataset, *ctx.options), // [P20]
    r.0 ==> improved(loss_of::<Ops, T, D>(old(member).expr.nodes@, final(member).expr.consts@, *ctx.dataset.data, *ctx.options), loss_of::<Ops, T, D>(old(member).expr.nodes@, old(member).expr.consts@, *ctx.dataset.data, *ctx.options)), // [P20]
--- loops 4
--- entry
proof { fx_laws(); T::clones(); T::laws(); }
let ghost m0 = *member;
--- loop 0
invariant __k0 <= __n0, __n0 == member.expr.consts@.len(), __acc0@.len() == __k0,
decreases __n0 - __k0,
--- at after #0 let mut workspace
let ghost w0 = workspace;
--- loop 1
invariant __k1 <= __n1, ws_ok(workspace), ws_same(workspace, w0), shell(*member, m0), x0@.len() == n_params,
    member.birth == m0.birth && member.loss == m0.loss && member.cost == m0.cost && member.complexity == m0.complexity,
    bst::<T, Ops, D>(m0.expr.nodes@, n_params as int, *dataset.data, *options, best_x@, best_f, baseline),
decreases __n1 - __k1,
--- loop 2
invariant __k2 <= __n2, __n2 == xt@.len(), xt@.len() == n_params,
decreases __n2 - __k2,
--- loop 3
invariant __k3 <= __n3, __n3 == best_x@.len() == member.expr.consts@.len(), shell(*member, m0), member.complexity == m0.complexity,
    forall|i: int| 0 <= i < __k3 ==> member.expr.consts@[i] == T::s_of_prim(#[trigger] best_x@[i])->0,
decreases __n3 - __k3,
--- after 3
proof { assert(member.expr.consts@ =~= cs_of::<T>(best_x@)); }
