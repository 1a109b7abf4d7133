# symbolic_regression: the stepping engine
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include search.inc
=== include rng.inc
=== include permspec.inc
=== raw
#[verifier::external_body]
pub struct RunningSearchStatistics { x: u64 }
impl RunningSearchStatistics {
    #[verifier::external_body]
    pub fn new(maxsize: usize, window_size: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_window(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_update<T: Float, Ops, const D: usize>(&mut self, members: &Vec<PopMember<T, Ops, D>>) { unimplemented!() }
}
impl Clone for RunningSearchStatistics { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// progress output
#[verifier::external_body]
pub struct SearchProgress { x: u64 }
impl SearchProgress {
    #[verifier::external_body]
    pub fn finish(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_cycle_complete<T: Float, Ops, const D: usize>(&mut self, hall: &HallOfFame<T, Ops, D>, total_evals: u64, cycles_remaining: usize) { unimplemented!() }
}
=== type symbolic_regression/src/hall_of_fame.rs HallOfFame
=== type symbolic_regression/src/search_utils.rs SearchCounters
=== type symbolic_regression/src/search_utils.rs PopState
subst Float + AddAssign => Float
subst pub(crate) => pub
subst dynamic_expressions::GradContext => GradContext
=== type symbolic_regression/src/search_utils.rs SearchTaskResult
subst Float + AddAssign => Float
=== type symbolic_regression/src/search_utils.rs SearchResult
subst Float + AddAssign => Float
=== type symbolic_regression/src/search_utils.rs PopPools
subst Float + AddAssign => Float
=== type symbolic_regression/src/search_utils.rs SearchEngine
subst Float + AddAssign => Float
=== include enginespec.inc
=== raw
/// nothing found is lost: a held complexity stays held, by the same member or one of lower cost (unit hall: lemma step_keeps)
pub open spec fn keeps<T: Float, Ops, const D: usize>(a: HallOfFame<T, Ops, D>, b: HallOfFame<T, Ops, D>) -> bool {
    a.best_by_complexity@.len() == b.best_by_complexity@.len() && forall|c: int| 0 <= c < a.best_by_complexity@.len() && (#[trigger] a.best_by_complexity@[c]) is Some ==>
        b.best_by_complexity@[c] is Some && (b.best_by_complexity@[c] == a.best_by_complexity@[c] || below(b.best_by_complexity@[c]->0.cost, a.best_by_complexity@[c]->0.cost))
}
/// check_constraints is a function of expression, options and size limit, and a larger limit admits more (unit constraints)
pub uninterp spec fn sat_c<T: Float, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>, o: Options<T, D>, size: usize) -> bool;
#[verifier::external_body]
pub proof fn sat_c_grows<T: Float, Ops, const D: usize>(o: Options<T, D>)
    ensures forall|e: PostfixExpr<T, Ops, D>, a: usize, b: usize| #![trigger sat_c(e, o, a), sat_c(e, o, b)] a <= b && sat_c(e, o, a) ==> sat_c(e, o, b),
{ }
#[verifier::external_body]
pub fn check_constraints<T: Float, Ops, const D: usize>(expr: &PostfixExpr<T, Ops, D>, options: &Options<T, D>, curmaxsize: usize) -> (r: bool)
    ensures r == sat_c(*expr, *options, curmaxsize),
{ unimplemented!() }
impl<T: Float, Ops, const D: usize> HallOfFame<T, Ops, D> {
    #[verifier::external_body]
    pub fn consider(&mut self, member: &PopMember<T, Ops, D>, options: &Options<T, D>, curmaxsize: usize)
        ensures keeps(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pareto_front(&self) -> Vec<PopMember<T, Ops, D>> { unimplemented!() }
    /// the members() iterator
    #[verifier::external_body]
    pub fn vx_members(&self) -> Vec<PopMember<T, Ops, D>> { unimplemented!() }
}
pub mod migration {
    use super::*;
    #[verifier::external_body]
    pub fn best_sub_pop<T: Float, Ops, const D: usize>(pop: &Population<T, Ops, D>, topn: usize) -> Vec<PopMember<T, Ops, D>> { unimplemented!() }
    #[verifier::external_body]
    pub fn migrate_into<T: Float, Ops, const D: usize>(dst: &mut Population<T, Ops, D>, migrants: &Vec<PopMember<T, Ops, D>>, frac: Fx, rng: &mut Rng, next_id: &mut u64, next_birth: &mut u64) { unimplemented!() }
}
pub mod warmup {
    use super::*;
    /// unit warmup: the limit never exceeds the maximum
    #[verifier::external_body]
    pub fn get_cur_maxsize<T: Float, const D: usize>(options: &Options<T, D>, total_cycles: usize, cycles_remaining: usize) -> (r: usize)
        requires conf(*options),
        ensures r <= options.maxsize,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_extend_clones<T: Float, Ops, const D: usize>(v: &mut Vec<PopMember<T, Ops, D>>, w: &Vec<PopMember<T, Ops, D>>) { unimplemented!() }
/// random.rs shuffle: a permutation (proved in unit split)
#[verifier::external_body]
pub fn shuffle<X>(rng: &mut Rng, values: &mut Vec<X>)
    ensures shuffled(old(values)@, final(values)@),
{ unimplemented!() }
impl<T: Float, Ops: OperatorSet<T = T>, const D: usize> PopState<T, Ops, D> {
    /// run_iteration_phase with s_r_cycle / with optimize_and_simplify_population (closures; the inner search is outside this unit)
    #[verifier::external_body]
    pub fn vx_evolve(&mut self, full_dataset: TaggedDataset<'_, T>, options: &Options<T, D>, curmaxsize: usize, stats: &RunningSearchStatistics) -> (Fx, HallOfFame<T, Ops, D>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_optimize(&mut self, full_dataset: TaggedDataset<'_, T>, options: &Options<T, D>, curmaxsize: usize, stats: &RunningSearchStatistics) -> Fx { unimplemented!() }
}
/// (evals1.max(0.0) + evals2.max(0.0)) as u64: any number of evaluations
#[verifier::external_body]
pub fn vx_evals(a: Fx, b: Fx) -> u64 { unimplemented!() }
/// what a stretch of work leaves alone or only improves
pub open spec fn carries<T: Float, Ops, const D: usize>(a: SearchEngine<T, Ops, D>, b: SearchEngine<T, Ops, D>) -> bool {
    &&& b.options == a.options && b.dataset == a.dataset && b.baseline_loss == a.baseline_loss && b.counters.total_cycles == a.counters.total_cycles
    &&& b.pools.pops@.len() == a.pools.pops@.len() && keeps(a.hall, b.hall) && a.pools.total_evals <= b.pools.total_evals
    &&& sat_c(a.pools.best.expr, a.options, a.options.maxsize) ==> best_kept(a.pools.best, b.pools.best, a.options)
}
/// a best member that satisfies the constraints gives way only to one that does and has a lower loss
pub open spec fn best_kept<T: Float, Ops, const D: usize>(a: PopMember<T, Ops, D>, b: PopMember<T, Ops, D>, o: Options<T, D>) -> bool {
    sat_c(b.expr, o, o.maxsize) && (b == a || below(b.loss, a.loss))
}
pub proof fn keeps_trans<T: Float, Ops, const D: usize>(a: HallOfFame<T, Ops, D>, b: HallOfFame<T, Ops, D>, c: HallOfFame<T, Ops, D>)
    requires keeps(a, b), keeps(b, c),
    ensures keeps(a, c),
{ }
=== fn symbolic_regression/src/search_utils.rs SearchCounters::cycles_remaining
--- ret r
--- spec
ensures r == (if self.cycles_completed <= self.total_cycles { self.total_cycles - self.cycles_completed } else { 0 }), // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchCounters::cycles_remaining_start_for_next_dispatch
--- ret r
--- spec
requires old(self).cycles_started < usize::MAX,
ensures final(self).total_cycles == old(self).total_cycles, final(self).cycles_completed == old(self).cycles_completed, final(self).cycles_started == old(self).cycles_started + 1, // [P22]
    r == (if old(self).cycles_started <= old(self).total_cycles { old(self).total_cycles - old(self).cycles_started } else { 0 }),
=== fn symbolic_regression/src/search_utils.rs SearchCounters::mark_completed
--- ret r
--- spec
requires old(self).cycles_completed < usize::MAX,
ensures final(self).total_cycles == old(self).total_cycles, final(self).cycles_started == old(self).cycles_started, final(self).cycles_completed == old(self).cycles_completed + 1, // [P22]
    r == (if final(self).cycles_completed <= final(self).total_cycles { final(self).total_cycles - final(self).cycles_completed } else { 0 }), // [P22]
=== fn symbolic_regression/src/search_utils.rs apply_task_result
--- opt fx
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre stats.update_from_population(st.pop.members.iter().map(|m| m.complexity)) => stats.vx_update(&st.pop.members)
--- pre res.best_seen.members() => &res.best_seen.vx_members()
--- pre candidates.extend(v.iter().cloned()) => vx_extend_clones(&mut candidates, v)
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    res.pop_idx < old(pools).pops@.len(), old(pools).best_sub_pops@.len() == old(pools).pops@.len(), res.curmaxsize <= options.maxsize, old(counters).cycles_completed < usize::MAX,
ensures
    final(counters).total_cycles == old(counters).total_cycles, final(counters).cycles_started == old(counters).cycles_started, final(counters).cycles_completed == old(counters).cycles_completed + 1, // [P22]
    final(pools).pops@.len() == old(pools).pops@.len(), final(pools).best_sub_pops@.len() == old(pools).best_sub_pops@.len(), final(pools).pops@[res.pop_idx as int] is Some,
    forall|i: int| 0 <= i < old(pools).pops@.len() && i != res.pop_idx ==> #[trigger] final(pools).pops@[i] == old(pools).pops@[i], // [P22]
    old(pools).total_evals <= final(pools).total_evals,
    keeps(*old(hall), *final(hall)), // [P22]
    sat_c(old(pools).best.expr, *options, options.maxsize) ==> best_kept(old(pools).best, final(pools).best, *options), // [P22]
    forall|i: int| 0 <= i < res.pop_state.pop.members@.len() && sat_c((#[trigger] res.pop_state.pop.members@[i]).expr, *options, res.curmaxsize) ==>
        sat_c(final(pools).best.expr, *options, options.maxsize) && !below(res.pop_state.pop.members@[i].loss, final(pools).best.loss), // [P22]
--- loops 3
--- entry
proof { T::laws(); sat_c_grows::<T, Ops, D>(*options); }
let ghost ms = res.pop_state.pop.members@;
let ghost b0 = pools.best;
--- loop 0
invariant __k0 <= __n0, __n0 == __h0@.len(), keeps(*old(hall), *hall),
decreases __n0 - __k0,
--- loop 1
invariant __k1 <= __n1, __n1 == st.pop.members@.len(), st.pop.members@ == ms, keeps(*old(hall), *hall),
    sat_c(b0.expr, *options, options.maxsize) ==> best_kept(b0, pools.best, *options),
    forall|i: int| 0 <= i < __k1 && sat_c((#[trigger] ms[i]).expr, *options, curmaxsize) ==> sat_c(pools.best.expr, *options, options.maxsize) && !below(ms[i].loss, pools.best.loss),
decreases __n1 - __k1,
--- loop 2
invariant __k2 <= __n2, __n2 == pools.best_sub_pops@.len(),
decreases __n2 - __k2,
=== fn symbolic_regression/src/dataset.rs TaggedDataset::new
--- ret r
--- spec
ensures r.data == data, r.baseline_loss == baseline_loss,
=== fn symbolic_regression/src/search_utils.rs execute_task
--- opt fx
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| { single_iteration::s_r_cycle(pop, ctx, eval_dataset) }) => pop_state.vx_evolve(full_dataset, options, curmaxsize, &stats)
--- pre pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| { single_iteration::optimize_and_simplify_population(pop, ctx, opt_dataset) }) => pop_state.vx_optimize(full_dataset, options, curmaxsize, &stats)
--- pre (evals1.max(0.0) + evals2.max(0.0)) as u64 => vx_evals(evals1, evals2)
--- ret r
--- spec
ensures r.pop_idx == pop_idx, r.curmaxsize == curmaxsize, // [P22]
=== raw
/// exactly one cycle was spent, on the population whose turn it was
pub open spec fn one_cycle<T: Float, Ops, const D: usize>(a: SearchEngine<T, Ops, D>, b: SearchEngine<T, Ops, D>) -> bool {
    &&& b.counters.cycles_completed == a.counters.cycles_completed + 1
    &&& 1 <= b.next_task <= b.task_order@.len()
    &&& forall|i: int| 0 <= i < a.pools.pops@.len() && i != b.task_order@[b.next_task - 1] ==> #[trigger] b.pools.pops@[i] == a.pools.pops@[i]
    &&& if a.next_task < a.task_order@.len() { b.task_order@ == a.task_order@ && b.next_task == a.next_task + 1 && b.cur_iter == a.cur_iter } else { b.next_task == 1 && b.cur_iter == a.cur_iter + 1 }
}
pub proof fn carries_trans<T: Float, Ops, const D: usize>(a: SearchEngine<T, Ops, D>, b: SearchEngine<T, Ops, D>, c: SearchEngine<T, Ops, D>)
    requires carries(a, b), carries(b, c),
    ensures carries(a, c), // [P22]
{ T::laws(); keeps_trans(a.hall, b.hall, c.hall); }
=== fn symbolic_regression/src/search_utils.rs SearchEngine::full_dataset_tagged
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures *r.data == self.dataset, r.baseline_loss == self.baseline_loss,
=== fn symbolic_regression/src/search_utils.rs SearchEngine::total_cycles
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures r == self.counters.total_cycles, // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchEngine::cycles_completed
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures r == self.counters.cycles_completed, // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchEngine::total_evals
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures r == self.pools.total_evals, // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchEngine::is_finished
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures r == (self.counters.cycles_completed >= self.counters.total_cycles), // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchEngine::hall_of_fame
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures *r == self.hall, // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchEngine::best
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
ensures *r == self.pools.best, // [P22]
=== fn symbolic_regression/src/search_utils.rs SearchEngine::prepare_iteration
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- spec
requires ready(*old(self)), old(self).counters.cycles_completed < old(self).counters.total_cycles,
ensures primed(*old(self), *final(self)), // [P22]
--- loops 1
--- attrs
#[verifier::loop_isolation(false)]
--- loop 0
invariant __k0 <= __n0, __n0 == self.pools.pops@.len(), __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __acc0@[i] == i,
decreases __n0 - __k0,
--- entry
let ghost e0 = *self;
proof {
    let (n, ci, k) = (self.pools.pops@.len() as int, self.cur_iter as int, self.options.niterations as int);
    if ci >= k { assert((ci - 1) * n + n == k * n) by(nonlinear_arith) requires ci == k; }
    if ci > 0 { assert((ci - 1) * n + n == ci * n) by(nonlinear_arith); }
    if ci == 0 { assert(ci * n == 0) by(nonlinear_arith) requires ci == 0; if k == 0 { assert(k * n == 0) by(nonlinear_arith) requires k == 0; } }
}
--- at before #0 shuffle(
let ghost o0 = self.task_order@;
--- at after #0 shuffle(
proof { shuffled_order(o0, self.task_order@, e0.pools.pops@.len() as int); }
=== fn symbolic_regression/src/search_utils.rs SearchEngine::step_one_cycle
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
requires ready(*old(self)),
ensures
    ready(*final(self)), // [P22]
    carries(*old(self), *final(self)), // [P22]
    r == (old(self).counters.cycles_completed < old(self).counters.total_cycles), // [P22]
    r ==> one_cycle(*old(self), *final(self)), // [P22]
    !r ==> final(self).counters == old(self).counters && final(self).pools == old(self).pools && final(self).hall == old(self).hall, // [P22]
--- entry
proof { T::laws(); }
=== fn symbolic_regression/src/search_utils.rs SearchEngine::step
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
requires ready(*old(self)),
ensures
    ready(*final(self)), // [P22]
    carries(*old(self), *final(self)), // [P22]
    r == (if n_cycles <= old(self).counters.total_cycles - old(self).counters.cycles_completed { n_cycles as int } else { old(self).counters.total_cycles - old(self).counters.cycles_completed }), // [P22]
    final(self).counters.cycles_completed == old(self).counters.cycles_completed + r, // [P22]
--- loops 1
--- attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
--- entry
let ghost e0 = *self;
proof {
    T::laws();
    assert forall|b: Self, c: Self| #[trigger] carries(e0, b) && #[trigger] carries(b, c) implies carries(e0, c) by { carries_trans(e0, b, c); }
}
--- loop 0
invariant_except_break completed == __k0,
invariant __k0 <= __n0, __n0 == n_cycles, ready(*self), carries(e0, *self), self.counters.cycles_completed == e0.counters.cycles_completed + completed,
ensures completed == (if n_cycles <= e0.counters.total_cycles - e0.counters.cycles_completed { n_cycles as int } else { e0.counters.total_cycles - e0.counters.cycles_completed }),
decreases __n0 - __k0,
=== fn symbolic_regression/src/search_utils.rs SearchEngine::run_to_completion
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
requires ready(self),
ensures
    keeps(self.hall, r.hall_of_fame), // [P22]
    sat_c(self.pools.best.expr, self.options, self.options.maxsize) ==> best_kept(self.pools.best, r.best, self.options), // [P22]
--- loops 1
--- attrs
#[verifier::loop_isolation(false)]
--- entry
proof {
    T::laws();
    assert forall|b: Self, c: Self| #[trigger] carries(self, b) && #[trigger] carries(b, c) implies carries(self, c) by { carries_trans(self, b, c); }
}
--- at after #0 while __self
proof { assert(__self.counters.cycles_completed == __self.counters.total_cycles); } // [P22]
--- loop 0
invariant ready(__self), carries(self, __self),
decreases __self.counters.total_cycles - __self.counters.cycles_completed,
=== raw
/// RNG, evaluator, gradient context, random tree and evaluation of a fresh population: outside this unit (units randexpr, constopt)
impl Rng { #[verifier::external_body] pub fn with_seed(seed: u64) -> Self { unimplemented!() } }
impl<T: Float, const D: usize> GradContext<T, D> { #[verifier::external_body] pub fn new(n_rows: usize) -> Self { unimplemented!() } }
impl<T: Float, const D: usize> Evaluator<T, D> { #[verifier::external_body] pub fn new(n_rows: usize) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_random_expr<T: Float, Ops, const D: usize>(rng: &mut Rng, options: &Options<T, D>, n_features: usize, nlength: usize, max_size: usize) -> PostfixExpr<T, Ops, D> { unimplemented!() }
impl<T: Float, Ops: OperatorSet<T = T>, const D: usize> PopMember<T, Ops, D> {
    #[verifier::external_body]
    pub fn from_expr(id: MemberId, parent: Option<MemberId>, birth: u64, expr: PostfixExpr<T, Ops, D>, n_features: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate(&mut self, dataset: &TaggedDataset<'_, T>, options: &Options<T, D>, evaluator: &mut Evaluator<T, D>) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_first_member<T: Float, Ops, const D: usize>(pops: &Vec<Option<PopState<T, Ops, D>>>) -> PopMember<T, Ops, D> { unimplemented!() }
#[verifier::external_body]
pub fn vx_empty_lists<T: Float, Ops, const D: usize>(n: usize) -> (r: Vec<Vec<PopMember<T, Ops, D>>>)
    ensures r@.len() == n,
{ unimplemented!() }
/// if the member satisfies the constraints, so does the best, at no higher a loss
pub open spec fn served<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, b: Option<PopMember<T, Ops, D>>, o: Options<T, D>) -> bool {
    sat_c(m.expr, o, o.maxsize) ==> b is Some && sat_c(b->0.expr, o, o.maxsize) && !below(m.loss, b->0.loss)
}
pub broadcast proof fn shl32(i: u64)
    requires i < 0x1_0000_0000u64,
    ensures #[trigger] (i << 32u32) <= 0xffff_ffff_0000_0000u64,
{ assert(i < 0x1_0000_0000u64 ==> (i << 32u32) <= 0xffff_ffff_0000_0000u64) by(bit_vector); }
=== fn symbolic_regression/src/population.rs Population::new
=== fn symbolic_regression/src/search_utils.rs init_populations
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- subst dynamic_expressions:: => 
--- pre random_expr_append_ops(&mut rng, &options.operators, dataset.n_features, nlength, options.maxsize) => vx_random_expr(&mut rng, options, dataset.n_features, nlength, options.maxsize)
--- pre vec![Vec::new(); pops.len()] => vx_empty_lists(pops.len())
--- pre pops.iter().flatten().next().expect("at least one population member exists").pop.members[0].clone() => vx_first_member(&pops)
--- attrs
#[verifier::loop_isolation(false)]
--- ret r
--- spec
requires options.populations < 0x1_0000_0000, options.population_size < 0x1_0000_0000,
ensures r.pops@.len() == options.populations, full(r), // [P22]
    keeps(*old(hall), *final(hall)), // [P22]
    forall|p: int, i: int| 0 <= p < r.pops@.len() && 0 <= i < r.pops@[p]->0.pop.members@.len() ==> served(#[trigger] r.pops@[p]->0.pop.members@[i], Some(r.best), *options), // [P22]
--- loops 5
--- entry
proof { T::laws(); broadcast use shl32; }
--- loop 0
invariant __k0 <= __n0, __n0 == options.populations, pops@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] pops@[i]) is Some,
    total_evals == __k0 * options.population_size, keeps(*old(hall), *hall),
decreases __n0 - __k0,
--- head 0
proof {
    assert((__k0 - 1) * options.population_size + options.population_size == __k0 * options.population_size) by(nonlinear_arith);
    assert(__k0 * options.population_size <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires 0 <= __k0 <= 0xffff_ffff, options.population_size <= 0xffff_ffff;
}
let ghost t0 = total_evals;
--- loop 1
invariant __k1 <= __n1, __n1 == options.population_size, total_evals == t0 + __k1, next_birth == __k1, next_id <= 0xffff_ffff_0000_0000u64 + __k1, keeps(*old(hall), *hall), members@.len() == __k1,
decreases __n1 - __k1,
--- loop 2
invariant __k2 <= __n2, __n2 == pops@.len(), best is Some ==> sat_c(best->0.expr, *options, options.maxsize),
    forall|p: int, i: int| 0 <= p < __k2 && 0 <= i < pops@[p]->0.pop.members@.len() ==> served(#[trigger] pops@[p]->0.pop.members@[i], best, *options),
decreases __n2 - __k2,
--- loop 3
invariant __k3 <= __n3, __n3 == st.pop.members@.len(), best is Some ==> sat_c(best->0.expr, *options, options.maxsize),
    forall|i: int| 0 <= i < __k3 ==> served(#[trigger] st.pop.members@[i], best, *options),
    forall|p: int, i: int| 0 <= p < __k2 - 1 && 0 <= i < pops@[p]->0.pop.members@.len() ==> served(#[trigger] pops@[p]->0.pop.members@[i], best, *options),
decreases __n3 - __k3,
--- loop 4
invariant __k4 <= __n4, __n4 == pops@.len(), best_sub_pops@.len() == pops@.len(),
decreases __n4 - __k4,
=== raw
#[verifier::external_body]
pub fn vx_baseline<T: Float, Ops, const D: usize>(dataset: &Dataset<T>, options: &Options<T, D>) -> Option<T> { unimplemented!() }
impl<T: Float, Ops, const D: usize> HallOfFame<T, Ops, D> {
    #[verifier::external_body]
    pub fn new(maxsize: usize) -> Self { unimplemented!() }
}
impl SearchProgress {
    #[verifier::external_body]
    pub fn new<T: Float, const D: usize>(options: &Options<T, D>, total_cycles: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn set_initial_evals(&mut self, n: u64) { unimplemented!() }
}
=== fn symbolic_regression/src/search_utils.rs SearchEngine::new
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre baseline_loss_from_zero_expression::<T, Ops, D>(&dataset, options.loss.as_ref()) => vx_baseline::<T, Ops, D>(&dataset, &options)
--- ret r
--- spec
requires conf(options), 1 <= options.populations < 0x1_0000_0000, options.population_size < 0x1_0000_0000, options.niterations * options.populations <= usize::MAX,
ensures ready(r), r.counters.cycles_completed == 0, r.counters.total_cycles == options.niterations * options.populations, r.options == options, r.dataset == dataset, // [P22]
    r.pools.pops@.len() == options.populations, // [P22]
    forall|p: int, i: int| 0 <= p < r.pools.pops@.len() && 0 <= i < r.pools.pops@[p]->0.pop.members@.len() ==> served(#[trigger] r.pools.pops@[p]->0.pop.members@[i], Some(r.pools.best), options), // [P22]
=== raw
// ---- the parallel driver: rayon's scope and the result channel, as the multiset of tasks handed out and not yet received ----
pub struct VxScope { x: u64 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(Ops)]
pub struct VxTx<T: Float, Ops, const D: usize> { x: Vec<SearchTaskResult<T, Ops, D>> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(Ops)]
pub struct VxRx<T: Float, Ops, const D: usize> { x: Vec<SearchTaskResult<T, Ops, D>> }
impl<T: Float, Ops, const D: usize> Clone for VxTx<T, Ops, D> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: Float, Ops, const D: usize> VxRx<T, Ops, D> {
    /// the populations being worked on, with the size limit of each task
    pub uninterp spec fn flying(&self) -> Map<usize, usize>;
}
#[verifier::external_body]
pub fn vx_channel<T: Float, Ops, const D: usize>() -> (r: (VxTx<T, Ops, D>, VxRx<T, Ops, D>))
    ensures r.1.flying() == Map::<usize, usize>::empty(),
{ unimplemented!() }
/// scope.spawn of a task that runs execute_task on this population and sends its result
#[verifier::external_body]
pub fn vx_spawn<T: Float, Ops: OperatorSet<T = T>, const D: usize>(rx: &mut VxRx<T, Ops, D>, scope: &VxScope, tx: VxTx<T, Ops, D>, full_dataset: TaggedDataset<'_, T>, options: &Options<T, D>, pop_idx: usize, curmaxsize: usize, stats: RunningSearchStatistics, st: PopState<T, Ops, D>)
    requires !old(rx).flying().contains_key(pop_idx),
    ensures final(rx).flying() == old(rx).flying().insert(pop_idx, curmaxsize),
{ unimplemented!() }
/// recv: the result of some task handed out and not received yet, in any order (execute_task: with its own index and limit)
#[verifier::external_body]
pub fn vx_recv<T: Float, Ops, const D: usize>(rx: &mut VxRx<T, Ops, D>) -> (r: SearchTaskResult<T, Ops, D>)
    requires old(rx).flying().dom().len() > 0,
    ensures old(rx).flying().contains_key(r.pop_idx), old(rx).flying()[r.pop_idx] == r.curmaxsize, final(rx).flying() == old(rx).flying().remove(r.pop_idx),
{ unimplemented!() }
=== type symbolic_regression/src/search_utils.rs EquationSearchState
subst Float + AddAssign => Float
=== fn symbolic_regression/src/search_utils.rs run_scoped_search
--- subst <'scope, 'env, T, => <'env, T,
--- subst 'env: 'scope, => 
--- subst T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync + 'scope => T: Float
--- subst Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync + 'scope => Ops: OperatorSet<T = T>
--- subst &rayon::Scope<'scope> => &VxScope
--- subst let (result_tx, result_rx) = => let (result_tx, mut result_rx) =
--- pre std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>() => vx_channel::<T, Ops, D>()
--- pre scope.spawn(move |_| { let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st); let _ = result_tx.send(res); }) => vx_spawn(&mut result_rx, scope, result_tx, full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
--- pre result_rx.recv().expect("worker result channel closed early") => vx_recv(&mut result_rx)
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires full(old(state).pools), conf(*old(state).options), old(state).n_workers >= 1, old(state).counters.cycles_started == old(state).counters.cycles_completed == 0,
    old(state).counters.total_cycles == old(state).options.niterations * old(state).pools.pops@.len(),
ensures
    final(state).counters.total_cycles == old(state).counters.total_cycles, final(state).counters.cycles_completed == final(state).counters.total_cycles, // [P22]
    full(final(state).pools), final(state).pools.pops@.len() == old(state).pools.pops@.len(), // [P22]
    keeps(old(state).hall, final(state).hall), // [P22]
    sat_c(old(state).pools.best.expr, *old(state).options, old(state).options.maxsize) ==> best_kept(old(state).pools.best, final(state).pools.best, *old(state).options), // [P22]
--- loops 4
--- entry
let ghost s0 = *state;
let ghost n = state.pools.pops@.len() as int;
proof {
    T::laws();
    assert forall|b: HallOfFame<T, Ops, D>, c: HallOfFame<T, Ops, D>| #[trigger] keeps(s0.hall, b) && #[trigger] keeps(b, c) implies keeps(s0.hall, c) by { keeps_trans(s0.hall, b, c); }
}
--- loop 0
invariant __k0 <= __n0, __n0 == options.niterations, options == s0.options, state.options == s0.options, state.n_workers == s0.n_workers, state.counters.total_cycles == s0.counters.total_cycles,
    full(state.pools), state.pools.pops@.len() == n, result_rx.flying() == Map::<usize, usize>::empty(),
    state.counters.cycles_started == state.counters.cycles_completed == __k0 * n,
    keeps(s0.hall, state.hall), sat_c(s0.pools.best.expr, *options, options.maxsize) ==> best_kept(s0.pools.best, state.pools.best, *options),
decreases __n0 - __k0,
--- head 0
let ghost base = state.counters.cycles_completed as int;
proof {
    assert((__k0 - 1) * n + n == __k0 * n) by(nonlinear_arith);
    assert(__k0 * n <= options.niterations * n) by(nonlinear_arith) requires __k0 <= options.niterations, n >= 0;
}
--- loop 1
invariant __k1 <= __n1, __n1 == n, __acc1@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> #[trigger] __acc1@[i] == i,
decreases __n1 - __k1,
--- at before #0 shuffle(
let ghost o0 = task_order@;
--- at after #0 shuffle(
proof { shuffled_order(o0, task_order@, n); }
--- loop 2
invariant options == s0.options, state.options == s0.options, state.n_workers == s0.n_workers, state.counters.total_cycles == s0.counters.total_cycles,
    state.pools.pops@.len() == n, mid_round(state.pools, result_rx.flying(), task_order@, next_task as int, options.maxsize), in_flight == result_rx.flying().dom().len(), in_flight <= next_task,
    state.counters.cycles_started == base + next_task, state.counters.cycles_completed == base + next_task - in_flight,
    keeps(s0.hall, state.hall), sat_c(s0.pools.best.expr, *options, options.maxsize) ==> best_kept(s0.pools.best, state.pools.best, *options),
decreases 2 * (n - next_task) + in_flight,
--- loop 3
invariant options == s0.options, state.options == s0.options, state.n_workers == s0.n_workers, state.counters.total_cycles == s0.counters.total_cycles,
    state.pools.pops@.len() == n, mid_round(state.pools, result_rx.flying(), task_order@, next_task as int, options.maxsize), in_flight == result_rx.flying().dom().len(), in_flight <= next_task,
    state.counters.cycles_started == base + next_task, state.counters.cycles_completed == base + next_task - in_flight,
    keeps(s0.hall, state.hall), sat_c(s0.pools.best.expr, *options, options.maxsize) ==> best_kept(s0.pools.best, state.pools.best, *options),
    next_task < n || in_flight > 0,
    2 * (n - next_task) + in_flight <= m0,
decreases n - next_task,
--- head 2
let ghost m0 = 2 * (n - next_task) + in_flight;
=== raw
/// rayon: any number of threads, inside or outside the pool
#[verifier::external_body]
pub fn vx_num_threads() -> usize { unimplemented!() }
#[verifier::external_body]
pub fn vx_in_pool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_scope() -> VxScope { unimplemented!() }
=== fn symbolic_regression/src/search_utils.rs equation_search_parallel
--- subst T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync => T: Float
--- subst Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync => Ops: OperatorSet<T = T>
--- pre baseline_loss_from_zero_expression::<T, Ops, D>(dataset, options.loss.as_ref()) => vx_baseline::<T, Ops, D>(dataset, options)
--- pre rayon::current_num_threads() => vx_num_threads()
--- pre rayon::current_thread_index().is_some() => vx_in_pool()
--- pre rayon::in_place_scope(|scope| { run_scoped_search(scope, &mut state); }) => run_scoped_search(&vx_scope(), &mut state)
--- panics true
--- spec
requires conf(*options), options.populations < 0x1_0000_0000, options.population_size < 0x1_0000_0000, options.niterations * options.populations <= usize::MAX,
--- at before #0 state.progress.finish()
proof { assert(state.counters.cycles_completed == options.niterations * options.populations); } // [P22]
--- ret r
=== fn symbolic_regression/src/search_utils.rs equation_search
--- subst T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync => T: Float
--- subst Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync => Ops: OperatorSet<T = T>
--- spec
requires conf(*options), options.populations < 0x1_0000_0000, options.population_size < 0x1_0000_0000, options.niterations * options.populations <= usize::MAX,
