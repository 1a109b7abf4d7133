# symbolic_regression: one step of evolution - mutation and crossover with acceptance
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include constraints_spec.inc
=== include member.inc
=== include search.inc
=== include constpost.inc
=== include rng.inc
=== type symbolic_regression/src/hall_of_fame.rs HallOfFame
=== include hallspec.inc
=== uses constraints.vx check_constraints
=== uses hall.vx HallOfFame::new
=== uses hall.vx HallOfFame::update_from_members
=== uses population.vx Population::len
=== include popspec.inc
=== uses population.vx Population::replace_oldest
=== uses population.vx Population::replace_two_oldest
=== uses complexity.inc compute_complexity
=== uses constopt.vx PopMember::evaluate
=== uses constopt.vx optimize_constants
=== include evospec.inc
=== raw
global size_of usize == 8;
#[verifier::external_body]
pub fn simplify_in_place<T: Float, Ops, const D: usize>(expr: &mut PostfixExpr<T, Ops, D>, opts: &EvalOptions) -> (r: bool)
    ensures sim(*old(expr), *final(expr)), keeps_fit(*old(expr), *final(expr)), !r ==> *final(expr) == *old(expr),
{ unimplemented!() }
#[verifier::external_body]
pub fn compress_constants<T: Float, Ops, const D: usize>(expr: &mut PostfixExpr<T, Ops, D>)
    ensures sim(*old(expr), *final(expr)), keeps_fit(*old(expr), *final(expr)),
{ unimplemented!() }
/// compile_plan panics exactly on programs that are not compilable (unit compile)
#[verifier::external_body]
pub fn vx_compile_plan<T: Float, Ops, const D: usize>(expr: &PostfixExpr<T, Ops, D>, n_features: usize) -> (r: EvalPlan<D>)
    requires prog_ok::<Ops>(expr.nodes@, n_features as int, expr.consts@.len() as int, D as int),
    ensures plan_is::<Ops, D>(r, expr.nodes@, n_features as int, expr.consts@.len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub struct RunningSearchStatistics { x: u64 }
impl RunningSearchStatistics { #[verifier::external_body] pub fn freq(&self, size: usize) -> Fx { unimplemented!() } }
#[verifier::external_body]
pub fn vx_size(rng: &mut Rng, max_size: usize) -> usize { unimplemented!() }
pub mod mutation_functions {
    use super::*;
    // units mutate, randexpr, crossover: well-formed, indices valid, configured operators
    #[verifier::external_body]
    pub fn mutate_constant_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>, temperature: Fx, options: &Options<T, D>) -> bool ensures keeps_fit(*old(expr), *final(expr)) { unimplemented!() }
    #[verifier::external_body]
    pub fn mutate_operator_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>) -> bool ensures keeps_fit(*old(expr), *final(expr)) { unimplemented!() }
    #[verifier::external_body]
    pub fn mutate_feature_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>, n_features: usize) -> bool ensures fit(*old(expr), n_features as int) ==> fit(*final(expr), n_features as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_operands_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>) -> bool ensures keeps_fit(*old(expr), *final(expr)) { unimplemented!() }
    #[verifier::external_body]
    pub fn rotate_tree_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>) -> bool ensures keeps_fit(*old(expr), *final(expr)) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>, n_features: usize) -> bool ensures fit(*old(expr), n_features as int) ==> fit(*final(expr), n_features as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_random_op_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>, n_features: usize) -> bool ensures fit(*old(expr), n_features as int) ==> fit(*final(expr), n_features as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_random_op_in_place<T: Float, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>) -> bool ensures keeps_fit(*old(expr), *final(expr)) { unimplemented!() }
    #[verifier::external_body]
    pub fn random_expr<T: Float, Ops, const D: usize>(rng: &mut Rng, n_features: usize, target_size: usize) -> (r: PostfixExpr<T, Ops, D>) ensures fit(r, n_features as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn crossover_trees<T: Float, Ops, const D: usize>(rng: &mut Rng, a: &PostfixExpr<T, Ops, D>, b: &PostfixExpr<T, Ops, D>) -> (r: (PostfixExpr<T, Ops, D>, PostfixExpr<T, Ops, D>))
        ensures forall|nf: int| fit(*a, nf) && fit(*b, nf) ==> #[trigger] fit(r.0, nf) && fit(r.1, nf) { unimplemented!() }
}
=== type symbolic_regression/src/mutate.rs MutationChoice
derive Copy, Clone
=== include weightspec.inc
=== include weights.inc
=== uses mutchoice.vx condition_mutation_weights
=== uses mutchoice.vx sample_mutation
=== type symbolic_regression/src/mutate.rs MutationOutcome
subst Float + AddAssign => Float
subst f64 => Fx
=== type symbolic_regression/src/mutate.rs MutationApplyCtx
subst Float + AddAssign => Float
subst f64 => Fx
=== type symbolic_regression/src/mutate.rs NextGenerationCtx
subst Float + AddAssign => Float
subst f64 => Fx
=== type symbolic_regression/src/mutate.rs CrossoverCtx
=== raw
/// a member made from its parent: own identity, the parent's expression, complexity, loss and cost
pub open spec fn copy_of<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, p: PopMember<T, Ops, D>) -> bool {
    m.expr == p.expr && m.complexity == p.complexity && m.loss == p.loss && m.cost == p.cost
}
pub open spec fn born<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, p: PopMember<T, Ops, D>, id: u64, birth: u64) -> bool {
    m.id.0 == id && m.parent == Some(p.id) && m.birth == birth
}
/// a simplification of its parent: the loss (of the same function) is kept, complexity and cost are its own
pub open spec fn shorter<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, p: PopMember<T, Ops, D>, base: Option<T>, o: Options<T, D>) -> bool {
    sim(p.expr, m.expr) && m.loss == p.loss && m.complexity == sat(wsum(o, m.expr.nodes@)) && m.cost == cost_val(m.loss, m.complexity, o.parsimony, o.use_baseline, base)
}
=== fn symbolic_regression/src/pop_member.rs PopMember::from_expr
--- ret r
--- subst dynamic_expressions:: => 
--- pre dynamic_expressions::compile_plan(&expr.nodes, n_features, expr.consts.len()) => vx_compile_plan(&expr, n_features)
--- spec
requires fit(expr, n_features as int),
ensures r.id == id, r.parent == parent, r.birth == birth, r.expr == expr, member_fit(r, n_features as int), // [P21]
=== fn symbolic_regression/src/pop_member.rs PopMember::rebuild_plan
--- subst dynamic_expressions:: => 
--- pre dynamic_expressions::compile_plan(&self.expr.nodes, n_features, self.expr.consts.len()) => vx_compile_plan(&self.expr, n_features)
--- spec
requires fit(old(self).expr, n_features as int),
ensures member_fit(*final(self), n_features as int), final(self).expr == old(self).expr, final(self).id == old(self).id, final(self).parent == old(self).parent, final(self).birth == old(self).birth, // [P21]
    final(self).complexity == old(self).complexity, final(self).loss == old(self).loss, final(self).cost == old(self).cost, // [P21]
=== fn symbolic_regression/src/mutate.rs MutationChoice::apply
--- ret r
--- opt fx
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign => Float
--- subst dynamic_expressions:: => 
--- subst dataset.n_features => dataset.data.n_features
--- subst dataset.n_rows => dataset.data.n_rows
--- pre mutation_functions::mutate_operator_in_place(rng, &mut expr, &options.operators) => mutation_functions::mutate_operator_in_place(rng, &mut expr)
--- pre mutation_functions::add_node_in_place(rng, &mut expr, &options.operators, n_features) => mutation_functions::add_node_in_place(rng, &mut expr, n_features)
--- pre mutation_functions::insert_random_op_in_place(rng, &mut expr, &options.operators, n_features) => mutation_functions::insert_random_op_in_place(rng, &mut expr, n_features)
--- pre mutation_functions::random_expr(rng, &options.operators, n_features, target_size) => mutation_functions::random_expr(rng, n_features, target_size)
--- pre usize_range_inclusive(rng, 1..=max_size) => vx_size(rng, max_size)
--- spec
requires
    fit(ctx.expr, ctx.dataset.data.n_features as int), ctx.expr == ctx.member.expr, member_fit(*ctx.member, ctx.dataset.data.n_features as int),
    ctx.dataset.data.ok(), ctx.dataset.data.n_rows > 0, ctx.dataset.data.n_rows * 65536 <= usize::MAX, ev_ok(*ctx.evaluator, ctx.dataset.data.n_rows as int),
ensures
    ev_ok(*final(ctx.evaluator), ctx.dataset.data.n_rows as int), fit(r.expr, ctx.dataset.data.n_features as int), // [P21]
    r.return_immediately ==> sim(ctx.expr, r.expr), // [P21]
--- entry
proof { fx_laws(); T::laws(); sim_laws::<T, Ops, D>();  let c = ctx.expr.consts@.len() as int; let n = ctx.dataset.data.n_rows as int; assert(c * n <= n * 65536) by (nonlinear_arith) requires 0 <= c <= 65536, 0 <= n; assert(c * c <= 65536 * 65536) by (nonlinear_arith) requires 0 <= c <= 65536; }
=== fn symbolic_regression/src/mutate.rs next_generation
--- ret r
--- opt fx
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign => Float
--- subst dynamic_expressions:: => 
--- subst dataset.n_features => dataset.data.n_features
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    member_fit(*member, ctx.dataset.data.n_features as int), *ctx.next_id < u64::MAX, *ctx.next_birth < u64::MAX,
    ctx.dataset.data.ok(), ctx.dataset.data.n_rows > 0, ctx.dataset.data.n_rows * 65536 <= usize::MAX, ev_ok(*ctx.evaluator, ctx.dataset.data.n_rows as int),
ensures
    ev_ok(*final(ctx.evaluator), ctx.dataset.data.n_rows as int), *final(ctx.next_id) == *old(ctx.next_id) + 1, *final(ctx.next_birth) == *old(ctx.next_birth) + 1,
    born(r.0, *member, *old(ctx.next_id), *old(ctx.next_birth)), member_fit(r.0, ctx.dataset.data.n_features as int), // [P21]
    !r.1 ==> copy_of(r.0, *member), // [P21]
    r.1 ==> admissible(r.0.expr, *ctx.options, ctx.curmaxsize) && (own(r.0, ctx.dataset, *ctx.options) || shorter(r.0, *member, ctx.dataset.baseline_loss, *ctx.options)), // [P21]
    r.1 ==> priced(r.0, ctx.dataset.baseline_loss, *ctx.options), // [P33]
--- loops 1
--- entry
proof { fx_laws(); T::laws(); sim_laws::<T, Ops, D>(); }
--- at after #0 let choice
proof {
    let (nf, cur) = (n_features as int, curmaxsize as int);
    assert(weight_of(conditioned(options.mutation_weights, *member, *options, cur, nf), choice).k() > 0real);
    is_listed(conditioned(options.mutation_weights, *member, *options, cur, nf), choice);
    if weight_ok(weight_of(options.mutation_weights, choice)) { chosen(choice, options.mutation_weights, *member, *options, cur, nf); assert(may_try(choice, *member, *options, cur, nf)); }
}
--- loop 0
invariant __k0 <= __n0, ev_ok(*evaluator, dataset.data.n_rows as int), fit(tree, n_features as int), !successful, !return_immediately,
decreases __n0 - __k0,
--- at after #0 compress_constants
assert(fit(tree, n_features as int));
=== fn symbolic_regression/src/mutate.rs crossover_generation
--- ret r
--- opt fx
--- subst Float + AddAssign => Float
--- subst dynamic_expressions:: => 
--- subst dataset.n_features => dataset.data.n_features
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    member_fit(*member1, ctx.dataset.data.n_features as int), member_fit(*member2, ctx.dataset.data.n_features as int), *ctx.next_id < u64::MAX - 1, *ctx.next_birth < u64::MAX - 1,
    ctx.dataset.data.ok(), ctx.dataset.data.n_rows > 0, ev_ok(*ctx.evaluator, ctx.dataset.data.n_rows as int),
ensures
    ev_ok(*final(ctx.evaluator), ctx.dataset.data.n_rows as int),
    *final(ctx.next_id) == *old(ctx.next_id) + if r.2 { 2int } else { 0int }, *final(ctx.next_birth) == *old(ctx.next_birth) + if r.2 { 2int } else { 0int },
    member_fit(r.0, ctx.dataset.data.n_features as int), member_fit(r.1, ctx.dataset.data.n_features as int), // [P21]
    !r.2 ==> r.0 == *member1 && r.1 == *member2, // [P21]
    r.2 ==> born(r.0, *member1, *old(ctx.next_id), *old(ctx.next_birth)) && born(r.1, *member2, (*old(ctx.next_id) + 1) as u64, (*old(ctx.next_birth) + 1) as u64), // [P21]
    r.2 ==> admissible(r.0.expr, *ctx.options, ctx.curmaxsize) && own(r.0, ctx.dataset, *ctx.options), // [P21]
    r.2 ==> admissible(r.1.expr, *ctx.options, ctx.curmaxsize) && own(r.1, ctx.dataset, *ctx.options), // [P21]
    r.2 ==> priced(r.0, ctx.dataset.baseline_loss, *ctx.options) && priced(r.1, ctx.dataset.baseline_loss, *ctx.options), // [P33]
--- entry
proof { fx_laws(); T::laws(); }
--- loop 0
invariant tries < max_tries, *next_id == *old(ctx.next_id), *next_birth == *old(ctx.next_birth), ev_ok(*evaluator, dataset.data.n_rows as int),
decreases max_tries - tries,
--- at after #0 let (c1_expr, c2_expr)
assert(fit(c1_expr, dataset.data.n_features as int) && fit(c2_expr, dataset.data.n_features as int));
=== raw
// ---- populations over a cycle ----
pub proof fn own_fair<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, t: TaggedDataset<'_, T>, o: Options<T, D>)
    requires own(m, t, o),
    ensures forall|full: Dataset<T>| #[trigger] fair(m, *t.data, full, t.baseline_loss, o), forall|d: Dataset<T>| #[trigger] fair(m, d, *t.data, t.baseline_loss, o),
{ sim_laws::<T, Ops, D>(); assert(sim(m.expr, m.expr)); }
pub proof fn heir_fair<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, p: PopMember<T, Ops, D>, d: Dataset<T>, full: Dataset<T>, base: Option<T>, o: Options<T, D>)
    requires fair(p, d, full, base, o), copy_of(m, p) || shorter(m, p, base, o),
    ensures fair(m, d, full, base, o), // [P21]
{
    sim_laws::<T, Ops, D>();
    let e = choose|e: PostfixExpr<T, Ops, D>| #[trigger] sim(e, p.expr) && (p.loss == lossor(e, d, o) || p.loss == lossor(e, full, o));
    assert(sim(e, m.expr));
}
#[verifier::external_body]
pub fn vx_rounds(len: usize, tournament: usize) -> (r: usize) ensures r == rounds(len as nat, tournament) { unimplemented!() }
/// unit selection has the full contract (which member, the frequency penalty); here: some member
#[verifier::external_body]
pub fn best_of_sample<T: Float, Ops, const D: usize>(rng: &mut Rng, pop: &Population<T, Ops, D>, stats: &RunningSearchStatistics, options: &Options<T, D>) -> (r: PopMember<T, Ops, D>)
    requires pop.members@.len() > 0,
    ensures exists|i: int| 0 <= i < pop.members@.len() && r == #[trigger] pop.members@[i],
{ unimplemented!() }
=== type symbolic_regression/src/regularized_evolution.rs RegEvolCtx
subst Float + AddAssign => Float
subst f64 => Fx
=== fn symbolic_regression/src/regularized_evolution.rs reg_evol_cycle
--- opt fx
--- subst Float + FromPrimitive + ToPrimitive + AddAssign => Float
--- subst dynamic_expressions:: => 
--- pre ((pop.len() as f64) / (ctx.options.tournament_selection_n as f64)).ceil() as usize => vx_rounds(pop.len(), ctx.options.tournament_selection_n)
--- subst mutate:: => 
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    old(pop).members@.len() >= 2, all_fit(old(pop).members@, ctx.dataset.data.n_features as int),
    *ctx.next_id + 2 * rounds(old(pop).members@.len(), ctx.options.tournament_selection_n) < u64::MAX, *ctx.next_birth + 2 * rounds(old(pop).members@.len(), ctx.options.tournament_selection_n) < u64::MAX,
    ctx.dataset.data.ok(), ctx.dataset.data.n_rows > 0, ctx.dataset.data.n_rows * 65536 <= usize::MAX, ev_ok(*ctx.evaluator, ctx.dataset.data.n_rows as int),
ensures
    ev_ok(*final(ctx.evaluator), ctx.dataset.data.n_rows as int),
    *final(ctx.next_id) <= *old(ctx.next_id) + 2 * rounds(old(pop).members@.len(), ctx.options.tournament_selection_n), *final(ctx.next_birth) <= *old(ctx.next_birth) + 2 * rounds(old(pop).members@.len(), ctx.options.tournament_selection_n),
    final(pop).members@.len() == old(pop).members@.len(), all_fit(final(pop).members@, ctx.dataset.data.n_features as int), // [P21]
    all_kept(final(pop).members@, old(pop).members@, *ctx.options, ctx.curmaxsize), // [P21]
    *final(ctx.next_id) >= *old(ctx.next_id), *final(ctx.next_birth) >= *old(ctx.next_birth),
    lines(final(pop).members@, old(pop).members@, *old(ctx.next_id) as int, *final(ctx.next_id) as int, *old(ctx.next_birth) as int, *final(ctx.next_birth) as int), // [P17]
    forall|full: Dataset<T>| all_fair(old(pop).members@, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) ==> #[trigger] all_fair(final(pop).members@, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options), // [P21]
--- entry
proof { fx_laws(); T::laws(); lines_self(pop.members@, *ctx.next_id as int, *ctx.next_birth as int); }
let ghost p0 = pop.members@;
--- loop 0
invariant __k0 <= __n0, __n0 == rounds(p0.len(), ctx.options.tournament_selection_n), ev_ok(*ctx.evaluator, ctx.dataset.data.n_rows as int),
    *ctx.next_id <= *old(ctx.next_id) + 2 * __k0, *ctx.next_birth <= *old(ctx.next_birth) + 2 * __k0,
    pop.members@.len() == p0.len(), all_fit(pop.members@, ctx.dataset.data.n_features as int),
    all_kept(pop.members@, p0, *ctx.options, ctx.curmaxsize),
    *ctx.next_id >= *old(ctx.next_id), *ctx.next_birth >= *old(ctx.next_birth),
    lines(pop.members@, p0, *old(ctx.next_id) as int, *ctx.next_id as int, *old(ctx.next_birth) as int, *ctx.next_birth as int),
    forall|full: Dataset<T>| all_fair(p0, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) ==> #[trigger] all_fair(pop.members@, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options),
decreases __n0 - __k0,
--- head 0
let ghost p1 = pop.members@;
let ghost id1 = *ctx.next_id as int;
let ghost birth1 = *ctx.next_birth as int;
--- at after #0 let (baby, accepted, tmp)
let ghost gb = baby;
proof {
    lines_self(p1, id1, birth1);
    assert(line(gb, p1, id1, *ctx.next_id as int, birth1, *ctx.next_birth as int));
    lines_then(p0, p1, p1, *old(ctx.next_id) as int, id1, *ctx.next_id as int, *old(ctx.next_birth) as int, birth1, *ctx.next_birth as int);
    assert forall|full: Dataset<T>| all_fair(p1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) implies #[trigger] fair(gb, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) by {
        assert(fair(allstar, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
        if own(gb, ctx.dataset, *ctx.options) { own_fair(gb, ctx.dataset, *ctx.options); } else { heir_fair(gb, allstar, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options); }
    }
}
--- at after #0 let (baby1, baby2, accepted, tmp)
let ghost g1 = baby1;
let ghost g2 = baby2;
proof {
    lines_self(p1, id1, birth1);
    assert(line(g1, p1, id1, *ctx.next_id as int, birth1, *ctx.next_birth as int));
    assert(line(g2, p1, id1, *ctx.next_id as int, birth1, *ctx.next_birth as int));
    lines_then(p0, p1, p1, *old(ctx.next_id) as int, id1, *ctx.next_id as int, *old(ctx.next_birth) as int, birth1, *ctx.next_birth as int);
    assert forall|full: Dataset<T>| all_fair(p1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) implies #[trigger] fair(g1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) && fair(g2, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) by {
        assert(fair(allstar1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
        assert(fair(allstar2, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
        if accepted { own_fair(g1, ctx.dataset, *ctx.options); own_fair(g2, ctx.dataset, *ctx.options); }
    }
}
--- at after #0 pop.replace_oldest
proof {
    lines_self(p1, id1, birth1);
    assert(lines(pop.members@, p1, id1, *ctx.next_id as int, birth1, *ctx.next_birth as int));
    lines_then(p0, p1, pop.members@, *old(ctx.next_id) as int, id1, *ctx.next_id as int, *old(ctx.next_birth) as int, birth1, *ctx.next_birth as int);
    assert forall|full: Dataset<T>| all_fair(p0, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) implies #[trigger] all_fair(pop.members@, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) by {
        assert(all_fair(p1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
        assert(fair(gb, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
    }
}
--- at after #0 pop.replace_two_oldest
proof {
    lines_self(p1, id1, birth1);
    assert(lines(pop.members@, p1, id1, *ctx.next_id as int, birth1, *ctx.next_birth as int));
    lines_then(p0, p1, pop.members@, *old(ctx.next_id) as int, id1, *ctx.next_id as int, *old(ctx.next_birth) as int, birth1, *ctx.next_birth as int);
    assert forall|full: Dataset<T>| all_fair(p0, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) implies #[trigger] all_fair(pop.members@, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options) by {
        assert(all_fair(p1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
        assert(fair(g1, *ctx.dataset.data, full, ctx.dataset.baseline_loss, *ctx.options));
    }
}
=== type symbolic_regression/src/single_iteration.rs IterationCtx
subst Float + AddAssign => Float
subst dynamic_expressions::GradContext => GradContext
=== fn symbolic_regression/src/pop_member.rs Evaluator::ensure_n_rows
--- spec
requires ev_opts(*old(self)),
ensures ev_ok(*final(self), n_rows as int), // [P21]
=== raw
pub proof fn hall_takes<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, ms: Seq<PopMember<T, Ops, D>>, nf: int, o: Options<T, D>, cms: usize)
    requires hall_ok(s, nf, o, cms), all_fit(ms, nf),
    ensures hall_ok(hof_run(s, with_size(ms, cms), o), nf, o, cms), hof_run(s, with_size(ms, cms), o).len() == s.len(), // [P21]
        forall|d: Dataset<T>, full: Dataset<T>, base: Option<T>| hall_fair(s, d, full, base, o) && all_fair(ms, d, full, base, o) ==> #[trigger] hall_fair(hof_run(s, with_size(ms, cms), o), d, full, base, o), // [P21]
{
    let h = with_size(ms, cms);
    hof_run_from(s, h, o);
    let t = hof_run(s, h, o);
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) == (ms[i], cms) && member_fit(ms[i], nf) by { }
}
=== fn symbolic_regression/src/single_iteration.rs s_r_cycle
--- ret r
--- opt fx
--- subst Float + FromPrimitive + ToPrimitive + AddAssign => Float
--- subst dynamic_expressions:: => 
--- subst eval_dataset.n_rows => eval_dataset.data.n_rows
--- subst ctx.full_dataset.n_rows => ctx.full_dataset.data.n_rows
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    old(pop).members@.len() >= 2, all_fit(old(pop).members@, eval_dataset.data.n_features as int), eval_dataset.data.n_features == old(ctx).full_dataset.data.n_features,
    eval_dataset.baseline_loss == old(ctx).full_dataset.baseline_loss, old(ctx).options.maxsize < usize::MAX,
    *old(ctx).next_id + 2 * (cycles(*old(ctx).options) * rounds(old(pop).members@.len(), old(ctx).options.tournament_selection_n)) < u64::MAX,
    *old(ctx).next_birth + 2 * (cycles(*old(ctx).options) * rounds(old(pop).members@.len(), old(ctx).options.tournament_selection_n)) < u64::MAX,
    eval_dataset.data.ok(), eval_dataset.data.n_rows > 0, eval_dataset.data.n_rows * 65536 <= usize::MAX, ev_opts(*old(ctx).evaluator),
    old(ctx).full_dataset.data.ok(), old(ctx).full_dataset.data.n_rows > 0,
ensures
    *final(final(ctx).next_id) == *final(old(ctx).next_id), *final(final(ctx).next_birth) == *final(old(ctx).next_birth), *final(final(ctx).evaluator) == *final(old(ctx).evaluator), *final(final(ctx).grad_ctx) == *final(old(ctx).grad_ctx),
    *final(ctx).next_id <= *old(ctx).next_id + 2 * (cycles(*old(ctx).options) * rounds(old(pop).members@.len(), old(ctx).options.tournament_selection_n)),
    *final(ctx).next_birth <= *old(ctx).next_birth + 2 * (cycles(*old(ctx).options) * rounds(old(pop).members@.len(), old(ctx).options.tournament_selection_n)), gctx_ok(*old(ctx).grad_ctx) ==> gctx_ok(*final(ctx).grad_ctx),
    final(pop).members@.len() == old(pop).members@.len(), all_fit(final(pop).members@, eval_dataset.data.n_features as int), ev_opts(*final(ctx).evaluator), // [P21]
    all_kept(final(pop).members@, old(pop).members@, *old(ctx).options, old(ctx).curmaxsize), // [P21]
    lines(final(pop).members@, old(pop).members@, *old(ctx).next_id as int, *final(ctx).next_id as int, *old(ctx).next_birth as int, *final(ctx).next_birth as int), // [P17]
    all_fair(old(pop).members@, *eval_dataset.data, *old(ctx).full_dataset.data, eval_dataset.baseline_loss, *old(ctx).options)
        ==> all_fair(final(pop).members@, *eval_dataset.data, *old(ctx).full_dataset.data, eval_dataset.baseline_loss, *old(ctx).options), // [P21]
    hall_ok(r.1.best_by_complexity@, eval_dataset.data.n_features as int, *old(ctx).options, old(ctx).curmaxsize)
        || !all_fair(old(pop).members@, *eval_dataset.data, *old(ctx).full_dataset.data, eval_dataset.baseline_loss, *old(ctx).options), // [P21]
    all_fair(old(pop).members@, *eval_dataset.data, *old(ctx).full_dataset.data, eval_dataset.baseline_loss, *old(ctx).options)
        ==> hall_fair(r.1.best_by_complexity@, *eval_dataset.data, *old(ctx).full_dataset.data, eval_dataset.baseline_loss, *old(ctx).options), // [P21]
    old(ctx).options.batching ==> forall|c: int| 0 <= c < r.1.best_by_complexity@.len() && (#[trigger] r.1.best_by_complexity@[c]) is Some ==> own(r.1.best_by_complexity@[c]->0, old(ctx).full_dataset, *old(ctx).options), // [P21]
--- entry
proof { fx_laws(); T::laws(); }
let ghost p0 = pop.members@;
let ghost d = *eval_dataset.data;
let ghost full = *ctx.full_dataset.data;
let ghost base = eval_dataset.baseline_loss;
let ghost o = *ctx.options;
let ghost cms = ctx.curmaxsize;
let ghost nf = eval_dataset.data.n_features as int;
let ghost per = rounds(p0.len(), o.tournament_selection_n) as int;
let ghost fair0 = all_fair(p0, d, full, base, o);
let ghost gid = *ctx.next_id as int;
let ghost gbirth = *ctx.next_birth as int;
proof { lines_self(p0, gid, gbirth); }
--- at before #0 best_seen.update_from_members
let ghost hs0 = best_seen.best_by_complexity@;
proof { assert forall|i: int| 0 <= i < pop.members@.len() implies sound_expr((#[trigger] pop.members@[i]).expr) by { assert(member_fit(pop.members@[i], nf)); } }
--- at after #0 best_seen.update_from_members
proof { hall_takes(hs0, pop.members@, nf, o, cms); }
--- loop 0
invariant __k0 <= __n0, *final(ctx.next_id) == *final(old(ctx).next_id), *final(ctx.next_birth) == *final(old(ctx).next_birth), *final(ctx.evaluator) == *final(old(ctx).evaluator), *final(ctx.grad_ctx) == *final(old(ctx).grad_ctx), __n0 == cycles(o), *ctx.options == o, ctx.curmaxsize == cms, *ctx.full_dataset.data == full, ctx.full_dataset == old(ctx).full_dataset, ev_ok(*ctx.evaluator, eval_dataset.data.n_rows as int),
    *ctx.next_id <= gid + 2 * (__k0 * per), *ctx.next_birth <= gbirth + 2 * (__k0 * per),
    gid <= *ctx.next_id, gbirth <= *ctx.next_birth, lines(pop.members@, p0, gid, *ctx.next_id as int, gbirth, *ctx.next_birth as int),
    pop.members@.len() == p0.len(), all_fit(pop.members@, nf), all_kept(pop.members@, p0, o, cms), fair0 ==> all_fair(pop.members@, d, full, base, o),
    hall_ok(best_seen.best_by_complexity@, nf, o, cms), fair0 ==> hall_fair(best_seen.best_by_complexity@, d, full, base, o),
decreases __n0 - __k0,
--- head 0
let ghost p1 = pop.members@;
let ghost id1 = *ctx.next_id as int;
let ghost birth1 = *ctx.next_birth as int;
proof {
    assert(__k0 * per <= cycles(o) * per) by (nonlinear_arith) requires __k0 <= cycles(o), per >= 0;
    assert((__k0 - 1) * per + per == __k0 * per) by (nonlinear_arith);
}
--- at before #1 best_seen.update_from_members
let ghost hs1 = best_seen.best_by_complexity@;
proof {
    lines_then(p0, p1, pop.members@, gid, id1, *ctx.next_id as int, gbirth, birth1, *ctx.next_birth as int);
    assert forall|i: int| 0 <= i < pop.members@.len() implies sound_expr((#[trigger] pop.members@[i]).expr) by { assert(member_fit(pop.members@[i], nf)); }
    assert forall|i: int| 0 <= i < pop.members@.len() implies kept(#[trigger] pop.members@[i], p0, o, cms) by {
        let m = pop.members@[i];
        assert(kept(m, p1, o, cms));
        if !admissible(m.expr, o, cms) {
            let j = choose|j: int| 0 <= j < p1.len() && (#[trigger] p1[j]).expr == m.expr;
            assert(kept(p1[j], p0, o, cms));
        }
    }
}
--- at after #1 best_seen.update_from_members
proof { hall_takes(hs1, pop.members@, nf, o, cms); }
--- before 1
let ghost hs = best_seen.best_by_complexity@;
--- loop 1
invariant __k1 <= __n1, *final(ctx.next_id) == *final(old(ctx).next_id), *final(ctx.next_birth) == *final(old(ctx).next_birth), *final(ctx.evaluator) == *final(old(ctx).evaluator), *final(ctx.grad_ctx) == *final(old(ctx).grad_ctx), __n1 == best_seen.best_by_complexity@.len(), __n1 == hs.len(), *ctx.options == o, ctx.full_dataset == old(ctx).full_dataset, ev_ok(*ctx.evaluator, ctx.full_dataset.data.n_rows as int),
    forall|c: int| __k1 <= c < __n1 ==> #[trigger] best_seen.best_by_complexity@[c] == hs[c],
    forall|c: int| 0 <= c < __k1 && (#[trigger] best_seen.best_by_complexity@[c]) is Some ==> hs[c] is Some && own(best_seen.best_by_complexity@[c]->0, ctx.full_dataset, o)
        && best_seen.best_by_complexity@[c]->0.expr == hs[c]->0.expr && best_seen.best_by_complexity@[c]->0.plan == hs[c]->0.plan,
decreases __n1 - __k1,
--- after 1
proof {
    let fs = best_seen.best_by_complexity@;
    assert forall|c: int| 0 <= c < fs.len() && (#[trigger] fs[c]) is Some implies member_fit(fs[c]->0, nf) && admissible(fs[c]->0.expr, o, cms) && (fair0 ==> fs[c]->0.complexity == c && fair(fs[c]->0, d, full, base, o)) by {
        assert(member_fit(hs[c]->0, nf));
        own_fair(fs[c]->0, ctx.full_dataset, o);
        if fair0 { assert(fair(hs[c]->0, d, full, base, o)); }
    }
}
=== fn symbolic_regression/src/single_iteration.rs optimize_and_simplify_population
--- ret r
--- opt fx
--- subst Float + FromPrimitive + ToPrimitive + AddAssign => Float
--- subst dynamic_expressions:: => 
--- subst opt_dataset.n_rows => opt_dataset.data.n_rows
--- subst ctx.full_dataset.n_rows => ctx.full_dataset.data.n_rows
--- subst ctx.full_dataset.n_features => ctx.full_dataset.data.n_features
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    all_fit(old(pop).members@, opt_dataset.data.n_features as int), opt_dataset.data.n_features == old(ctx).full_dataset.data.n_features,
    *old(ctx).next_birth + old(pop).members@.len() < u64::MAX,
    opt_dataset.data.ok(), opt_dataset.data.n_rows > 0, opt_dataset.data.n_rows * 65536 <= usize::MAX, ev_opts(*old(ctx).evaluator), gctx_ok(*old(ctx).grad_ctx),
    old(ctx).full_dataset.data.ok(), old(ctx).full_dataset.data.n_rows > 0,
ensures
    final(pop).members@.len() == old(pop).members@.len(), all_fit(final(pop).members@, opt_dataset.data.n_features as int), // [P21]
    forall|i: int| 0 <= i < old(pop).members@.len() ==> own(#[trigger] final(pop).members@[i], old(ctx).full_dataset, *old(ctx).options) && final(pop).members@[i].id == old(pop).members@[i].id, // [P21]
    *final(final(ctx).next_id) == *final(old(ctx).next_id), *final(final(ctx).next_birth) == *final(old(ctx).next_birth), *final(final(ctx).evaluator) == *final(old(ctx).evaluator), *final(final(ctx).grad_ctx) == *final(old(ctx).grad_ctx),
    ev_ok(*final(ctx).evaluator, old(ctx).full_dataset.data.n_rows as int), gctx_ok(*final(ctx).grad_ctx), *final(ctx).next_id == *old(ctx).next_id, *final(ctx).next_birth <= *old(ctx).next_birth + old(pop).members@.len(),
--- entry
proof { fx_laws(); T::laws(); }
let ghost p0 = pop.members@;
let ghost o = *ctx.options;
let ghost nf = opt_dataset.data.n_features as int;
let ghost gb = *ctx.next_birth as int;
--- loop 0
invariant __k0 <= __n0, *final(ctx.next_id) == *final(old(ctx).next_id), *final(ctx.next_birth) == *final(old(ctx).next_birth), *final(ctx.evaluator) == *final(old(ctx).evaluator), *final(ctx.grad_ctx) == *final(old(ctx).grad_ctx), __n0 == p0.len(), pop.members@.len() == p0.len(), all_fit(pop.members@, nf), *ctx.options == o, ctx.full_dataset == old(ctx).full_dataset,
    ev_opts(*ctx.evaluator), gctx_ok(*ctx.grad_ctx), *ctx.next_birth == gb,
    forall|i: int| 0 <= i < p0.len() ==> (#[trigger] pop.members@[i]).id == p0[i].id,
decreases __n0 - __k0,
--- loop 1
invariant __k1 <= __n1, *final(ctx.next_id) == *final(old(ctx).next_id), *final(ctx.next_birth) == *final(old(ctx).next_birth), *final(ctx.evaluator) == *final(old(ctx).evaluator), *final(ctx.grad_ctx) == *final(old(ctx).grad_ctx), __n1 == p0.len(), pop.members@.len() == p0.len(), all_fit(pop.members@, nf), *ctx.options == o, ctx.full_dataset == old(ctx).full_dataset,
    ev_ok(*ctx.evaluator, opt_dataset.data.n_rows as int), gctx_ok(*ctx.grad_ctx), ctx.grad_ctx.n_rows == opt_dataset.data.n_rows, *ctx.next_birth <= gb + __k1,
    forall|i: int| 0 <= i < p0.len() ==> (#[trigger] pop.members@[i]).id == p0[i].id,
decreases __n1 - __k1,
--- loop 2
invariant __k2 <= __n2, *final(ctx.next_id) == *final(old(ctx).next_id), *final(ctx.next_birth) == *final(old(ctx).next_birth), *final(ctx.evaluator) == *final(old(ctx).evaluator), *final(ctx.grad_ctx) == *final(old(ctx).grad_ctx), __n2 == p0.len(), pop.members@.len() == p0.len(), all_fit(pop.members@, nf), *ctx.options == o, ctx.full_dataset == old(ctx).full_dataset,
    ev_ok(*ctx.evaluator, ctx.full_dataset.data.n_rows as int), gctx_ok(*ctx.grad_ctx),
    forall|i: int| 0 <= i < p0.len() ==> (#[trigger] pop.members@[i]).id == p0[i].id,
    forall|i: int| 0 <= i < __k2 ==> own(#[trigger] pop.members@[i], ctx.full_dataset, o),
decreases __n2 - __k2,
--- head 1
proof { let c = m.expr.consts@.len() as int; let n = opt_dataset.data.n_rows as int; assert(c * n <= n * 65536) by (nonlinear_arith) requires 0 <= c <= 65536, 0 <= n; assert(c * c <= 65536 * 65536) by (nonlinear_arith) requires 0 <= c <= 65536; }
