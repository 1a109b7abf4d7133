# symbolic_regression: several populations - one task of the search, and what is done with its result
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include constraints_spec.inc
=== include member.inc
=== include search.inc
=== include rng.inc
=== include sort.inc
=== type symbolic_regression/src/hall_of_fame.rs HallOfFame
=== include hallspec.inc
=== include frontspec.inc
=== include migrspec.inc
=== include evospec.inc
=== include basespec.inc
=== uses baseline.vx baseline_loss_from_zero_expression
=== uses constraints.vx check_constraints
=== uses hall.vx HallOfFame::new
=== uses hall.vx HallOfFame::consider
=== uses hall.vx HallOfFame::pareto_front
=== uses population.vx Population::len
=== uses migration.vx best_sub_pop
=== uses migration.vx migrate_into
=== raw
#[verifier::external_body]
pub struct RunningSearchStatistics { x: u64 }
impl RunningSearchStatistics {
    #[verifier::external_body]
    pub fn new(maxsize: usize, window_size: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_window(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_update<T: Float, Ops, const D: usize>(&mut self, members: &Vec<PopMember<T, Ops, D>>) { unimplemented!() }
}
impl Clone for RunningSearchStatistics { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// progress output
#[verifier::external_body]
pub struct SearchProgress { x: u64 }
impl SearchProgress {
    #[verifier::external_body]
    pub fn finish(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_cycle_complete<T: Float, Ops, const D: usize>(&mut self, hall: &HallOfFame<T, Ops, D>, total_evals: u64, cycles_remaining: usize) { unimplemented!() }
}
=== type symbolic_regression/src/single_iteration.rs IterationCtx
subst Float + AddAssign => Float
subst dynamic_expressions::GradContext => GradContext
=== uses nextgen.vx s_r_cycle
=== uses nextgen.vx optimize_and_simplify_population
=== type symbolic_regression/src/search_utils.rs SearchCounters
=== type symbolic_regression/src/search_utils.rs PopState
subst Float + AddAssign => Float
subst pub(crate) => pub
subst dynamic_expressions::GradContext => GradContext
=== type symbolic_regression/src/search_utils.rs SearchTaskResult
subst Float + AddAssign => Float
=== type symbolic_regression/src/search_utils.rs PopPools
subst Float + AddAssign => Float
=== type symbolic_regression/src/search_utils.rs SearchResult
subst Float + AddAssign => Float
=== type symbolic_regression/src/search_utils.rs SearchEngine
subst Float + AddAssign => Float
=== include permspec.inc
=== include enginespec.inc
=== uses nextgen.vx PopMember::from_expr
=== uses constopt.vx PopMember::evaluate
=== uses engine.vx TaggedDataset::new
=== uses engine.vx SearchEngine::full_dataset_tagged
=== uses engine.vx SearchEngine::prepare_iteration
=== uses engine.vx SearchEngine::is_finished
=== uses engine.vx SearchCounters::cycles_remaining
=== uses engine.vx SearchCounters::cycles_remaining_start_for_next_dispatch
=== uses engine.vx SearchCounters::mark_completed
=== raw
/// mini-batches (unit dataset): a batch has the shape of its data set and the rows asked for
impl<T: Float> Dataset<T> {
    #[verifier::external_body]
    pub fn make_batch_buffer(full: &Dataset<T>, batch_size: usize) -> (r: Dataset<T>)
        requires full.ok(), full.n_rows > 0,
        ensures batch_of(r, *full), r.n_rows == (if batch_size == 0 { 1 } else { batch_size as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn resample_from(&mut self, full: &Dataset<T>, rng: &mut Rng)
        requires batch_of(*old(self), *full), full.ok(), full.n_rows > 0,
        ensures batch_of(*final(self), *full), final(self).n_rows == old(self).n_rows,
    { unimplemented!() }
}
pub open spec fn batch_of<T: Float>(b: Dataset<T>, d: Dataset<T>) -> bool { b.ok() && b.n_features == d.n_features && (b.weights is Some) == (d.weights is Some) }
// ---- what the search maintains ----
/// the member carries its own complexity, the loss on the full data of its own function, and the cost of these
pub open spec fn good<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool {
    member_fit(m, d.data.n_features as int) && fair(m, *d.data, *d.data, d.baseline_loss, o)
}
pub open spec fn all_good<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> good(#[trigger] ms[i], d, o)
}
/// the hall holds members like that, each satisfying the constraints and in the cell of its complexity
pub open spec fn hall_good<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>, cms: usize) -> bool {
    hall_ok(s, d.data.n_features as int, o, cms) && forall|c: int| 0 <= c < s.len() && (#[trigger] s[c]) is Some ==> good(s[c]->0, d, o)
}
/// data and configuration in range
pub open spec fn conf_base<T: Float, const D: usize>(d: Dataset<T>, o: Options<T, D>) -> bool {
    &&& d.ok() && 0 < d.n_rows && d.n_rows * 65536 <= usize::MAX && o.batch_size * 65536 <= usize::MAX && o.maxsize <= 65535 && 1 <= d.n_features <= 65535
    &&& o.population_size >= 2 && conf(o)
}
/// the cost of a loss that is a number is a number (loss_to_cost: finite parsimony)
pub open spec fn costs_num<T: Float, const D: usize>(b: Option<T>, o: Options<T, D>) -> bool { forall|l: T, c: usize| !l.nan() ==> !(#[trigger] cost_val(l, c, o.parsimony, o.use_baseline, b)).nan() }
pub open spec fn conf21<T: Float, const D: usize>(d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool { conf_base(*d.data, o) && costs_num(d.baseline_loss, o) }
/// identifiers one round of evolution uses at most
pub open spec fn per<T: Float, const D: usize>(o: Options<T, D>, n: nat) -> int { 2 * (cycles(o) * rounds(n, o.tournament_selection_n)) }
pub open spec fn st_ok<T: Float, Ops, const D: usize>(st: PopState<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool {
    &&& st.pop.members@.len() >= 2 && all_good(st.pop.members@, d, o) && ev_opts(st.evaluator) && gctx_ok(st.grad_ctx)
    &&& st.batch_dataset is Some ==> batch_of(st.batch_dataset->0, *d.data)
}
/// so many identifiers and births are still free
pub open spec fn room<T: Float, Ops, const D: usize>(st: PopState<T, Ops, D>, k: int) -> bool { st.next_id + k < u64::MAX && st.next_birth + k < u64::MAX }
pub open spec fn used<T: Float, Ops, const D: usize>(a: PopState<T, Ops, D>, b: PopState<T, Ops, D>, k: int) -> bool { b.next_id <= a.next_id + k && b.next_birth <= a.next_birth + k }
pub proof fn own_good<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>)
    requires member_fit(m, d.data.n_features as int), own(m, d, o),
    ensures good(m, d, o), // [P21]
{ sim_laws::<T, Ops, D>(); assert(sim(m.expr, m.expr)); }
/// a loss on the full data is one of the two a mini-batch leaves
pub proof fn any_batch<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, d: TaggedDataset<'_, T>, o: Options<T, D>)
    requires all_good(ms, d, o),
    ensures all_fit(ms, d.data.n_features as int), forall|b: Dataset<T>| #[trigger] all_fair(ms, b, *d.data, d.baseline_loss, o), // [P21]
{
    assert forall|i: int| 0 <= i < ms.len() implies member_fit(#[trigger] ms[i], d.data.n_features as int) by { assert(good(ms[i], d, o)); }
    assert forall|b: Dataset<T>| #[trigger] all_fair(ms, b, *d.data, d.baseline_loss, o) by {
        assert forall|i: int| 0 <= i < ms.len() implies fair(#[trigger] ms[i], b, *d.data, d.baseline_loss, o) by { assert(good(ms[i], d, o)); }
    }
}
/// costs are numbers
pub proof fn good_cost<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>)
    requires good(m, d, o), conf21(d, o),
    ensures !m.cost.nan(), // [P21]
{ T::laws(); }
/// what evolution needs and leaves: compilable members, evaluators in order
pub open spec fn st_fit<T: Float, Ops, const D: usize>(st: PopState<T, Ops, D>, d: TaggedDataset<'_, T>) -> bool {
    &&& st.pop.members@.len() >= 2 && all_fit(st.pop.members@, d.data.n_features as int) && ev_opts(st.evaluator) && gctx_ok(st.grad_ctx)
    &&& st.batch_dataset is Some ==> batch_of(st.batch_dataset->0, *d.data)
}
pub open spec fn same_len<T: Float, Ops, const D: usize>(a: PopState<T, Ops, D>, b: PopState<T, Ops, D>) -> bool { a.pop.members@.len() == b.pop.members@.len() }
=== fn symbolic_regression/src/search_utils.rs PopState::run_iteration_phase
--- rename vx_evolve
--- ret r
--- subst Float + AddAssign => Float
--- subst , Ops, const D: usize> PopState => , Ops: OperatorSet<T = T>, const D: usize> PopState
--- opt mono:F
--- opt mono:Ret
--- subst single_iteration:: => 
--- subst (r: Ret) => (r: (Fx, HallOfFame<T, Ops, D>))
--- pre f(&mut self.pop, &mut ctx, phase_dataset) => s_r_cycle(&mut self.pop, &mut ctx, phase_dataset)
--- spec
requires st_ok(*old(self), full_dataset, *options), conf21(full_dataset, *options), room(*old(self), per(*options, old(self).pop.members@.len())),
ensures
    st_fit(*final(self), full_dataset), same_len(*old(self), *final(self)), used(*old(self), *final(self), per(*options, old(self).pop.members@.len())), // [P21]
    hall_good(r.1.best_by_complexity@, full_dataset, *options, curmaxsize), // [P21]
--- entry
proof { any_batch(self.pop.members@, full_dataset, *options); }
let ghost d = full_dataset;
let ghost o = *options;
--- exit
proof {
    let s = __ret.1.best_by_complexity@;
    assert forall|c: int| 0 <= c < s.len() && (#[trigger] s[c]) is Some implies good(s[c]->0, d, o) by {
        assert(member_fit(s[c]->0, d.data.n_features as int));
        if o.batching { own_good(s[c]->0, d, o); }
    }
}
=== fn symbolic_regression/src/search_utils.rs PopState::run_iteration_phase
--- rename vx_optimize
--- ret r
--- subst Float + AddAssign => Float
--- subst , Ops, const D: usize> PopState => , Ops: OperatorSet<T = T>, const D: usize> PopState
--- opt mono:F
--- opt mono:Ret
--- subst single_iteration:: => 
--- subst (r: Ret) => (r: Fx)
--- pre f(&mut self.pop, &mut ctx, phase_dataset) => optimize_and_simplify_population(&mut self.pop, &mut ctx, phase_dataset)
--- spec
requires st_fit(*old(self), full_dataset), conf21(full_dataset, *options), room(*old(self), old(self).pop.members@.len() as int),
ensures
    st_ok(*final(self), full_dataset, *options), same_len(*old(self), *final(self)), used(*old(self), *final(self), old(self).pop.members@.len() as int), // [P21]
--- entry
let ghost d = full_dataset;
let ghost o = *options;
--- exit
proof {
    let ms = self.pop.members@;
    assert forall|i: int| 0 <= i < ms.len() implies good(#[trigger] ms[i], d, o) by { assert(member_fit(ms[i], d.data.n_features as int)); own_good(ms[i], d, o); }
}
=== raw
/// (evals1.max(0.0) + evals2.max(0.0)) as u64: any number of evaluations
#[verifier::external_body]
pub fn vx_evals(a: Fx, b: Fx) -> u64 { unimplemented!() }
impl<T: Float, Ops, const D: usize> HallOfFame<T, Ops, D> {
    /// the members() iterator: what the cells hold
    #[verifier::external_body]
    pub fn vx_members(&self) -> (r: Vec<PopMember<T, Ops, D>>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.best_by_complexity@.contains(Some(#[trigger] r@[i])),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_extend_clones<T: Float, Ops, const D: usize>(v: &mut Vec<PopMember<T, Ops, D>>, w: &Vec<PopMember<T, Ops, D>>)
    ensures final(v)@ == old(v)@ + w@,
{ unimplemented!() }
pub mod migration { pub use super::best_sub_pop; pub use super::migrate_into; }
/// the result of one task: a population in order, with the members found on the way
pub open spec fn result_ok<T: Float, Ops, const D: usize>(r: SearchTaskResult<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool {
    &&& st_ok(r.pop_state, d, o) && all_good(r.best_sub_pop@, d, o) && hall_good(r.best_seen.best_by_complexity@, d, o, r.curmaxsize)
    &&& r.curmaxsize <= o.maxsize && room(r.pop_state, 2 * r.pop_state.pop.members@.len() as int)
}
=== fn symbolic_regression/src/search_utils.rs execute_task
--- opt fx
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| { single_iteration::s_r_cycle(pop, ctx, eval_dataset) }) => pop_state.vx_evolve(full_dataset, options, curmaxsize, &stats)
--- pre pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| { single_iteration::optimize_and_simplify_population(pop, ctx, opt_dataset) }) => pop_state.vx_optimize(full_dataset, options, curmaxsize, &stats)
--- pre (evals1.max(0.0) + evals2.max(0.0)) as u64 => vx_evals(evals1, evals2)
--- ret r
--- spec
requires st_ok(pop_state, full_dataset, *options), conf21(full_dataset, *options), curmaxsize <= options.maxsize,
    room(pop_state, per(*options, pop_state.pop.members@.len()) + 3 * pop_state.pop.members@.len()),
ensures r.pop_idx == pop_idx, r.curmaxsize == curmaxsize,
    result_ok(r, full_dataset, *options), same_len(pop_state, r.pop_state), used(pop_state, r.pop_state, per(*options, pop_state.pop.members@.len()) + pop_state.pop.members@.len()), // [P21]
--- at after #0 let evals2
proof {
    let ms = pop_state.pop.members@;
    assert forall|i: int| 0 <= i < ms.len() implies !(#[trigger] ms[i]).cost.nan() by { good_cost(ms[i], full_dataset, *options); }
}
=== raw
/// the pools and the hall between two results
pub open spec fn pools_good<T: Float, Ops, const D: usize>(p: PopPools<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool {
    &&& p.best_sub_pops@.len() == p.pops@.len() && forall|i: int| 0 <= i < p.pops@.len() ==> all_good((#[trigger] p.best_sub_pops@[i])@, d, o)
    &&& forall|i: int| 0 <= i < p.pops@.len() && (#[trigger] p.pops@[i]) is Some ==> st_ok(p.pops@[i]->0, d, o)
    &&& good(p.best, d, o)
}
/// a copy of a good member is one
pub proof fn copy_good<T: Float, Ops, const D: usize>(a: Seq<PopMember<T, Ops, D>>, b: Seq<PopMember<T, Ops, D>>, mig: Seq<PopMember<T, Ops, D>>, id0: u64, b0: u64, k: int, d: TaggedDataset<'_, T>, o: Options<T, D>)
    requires all_good(a, d, o), all_good(mig, d, o), migrated(a, b, mig, id0, b0, k),
    ensures all_good(b, d, o), // [P21]
{
    assert forall|i: int| 0 <= i < b.len() implies good(#[trigger] b[i], d, o) by {
        if b[i] != a[i] {
            let j = choose|j: int| 0 <= j < mig.len() && copy_of(b[i], #[trigger] mig[j], id0, b0, k);
            assert(good(mig[j], d, o));
        }
    }
}
/// one submission of a good member
pub proof fn hall_takes_one<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, m: PopMember<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>, cms: usize)
    requires hall_good(s, d, o, o.maxsize), good(m, d, o), cms <= o.maxsize,
    ensures hall_good(hof_step(s, m, o, cms), d, o, o.maxsize), hof_step(s, m, o, cms).len() == s.len(), // [P21]
{ }
=== fn symbolic_regression/src/search_utils.rs apply_task_result
--- opt fx
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre stats.update_from_population(st.pop.members.iter().map(|m| m.complexity)) => stats.vx_update(&st.pop.members)
--- pre res.best_seen.members() => &res.best_seen.vx_members()
--- pre candidates.extend(v.iter().cloned()) => vx_extend_clones(&mut candidates, v)
--- subst res: SearchTaskResult<T, Ops, D>, => res: SearchTaskResult<T, Ops, D>, Ghost(d): Ghost<TaggedDataset<'_, T>>,
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires
    res.pop_idx < old(pools).pops@.len(), old(counters).cycles_completed < usize::MAX, old(pools).best_sub_pops@.len() == old(pools).pops@.len(),
    conf21(d, *options), pools_good(*old(pools), d, *options), hall_good(old(hall).best_by_complexity@, d, *options, options.maxsize), result_ok(res, d, *options),
ensures
    final(counters).total_cycles == old(counters).total_cycles, final(counters).cycles_started == old(counters).cycles_started, final(counters).cycles_completed == old(counters).cycles_completed + 1,
    final(pools).pops@.len() == old(pools).pops@.len(), final(pools).pops@[res.pop_idx as int] is Some,
    forall|i: int| 0 <= i < old(pools).pops@.len() && i != res.pop_idx ==> #[trigger] final(pools).pops@[i] == old(pools).pops@[i],
    same_len(res.pop_state, final(pools).pops@[res.pop_idx as int]->0), used(res.pop_state, final(pools).pops@[res.pop_idx as int]->0, 2 * res.pop_state.pop.members@.len() as int), // [P21]
    pools_good(*final(pools), d, *options), hall_good(final(hall).best_by_complexity@, d, *options, options.maxsize), // [P21]
--- loops 3
--- entry
proof { T::laws(); }
let ghost o = *options;
let ghost rs = res.pop_state;
let ghost hs = res.best_seen.best_by_complexity@;
let ghost nf = d.data.n_features as int;
--- loop 0
invariant __k0 <= __n0, __n0 == __h0@.len(), all_good(__h0@, d, o), hall_good(hall.best_by_complexity@, d, o, o.maxsize),
decreases __n0 - __k0,
--- before 0
proof { assert forall|i: int| 0 <= i < __h0@.len() implies good(#[trigger] __h0@[i], d, o) by { let c = choose|c: int| 0 <= c < hs.len() && hs[c] == Some(__h0@[i]); assert(good(hs[c]->0, d, o)); } }
--- head 0
proof { assert(good(__h0@[__k0 - 1], d, o)); hall_takes_one(hall.best_by_complexity@, __h0@[__k0 - 1], d, o, curmaxsize); }
--- loop 1
invariant __k1 <= __n1, __n1 == st.pop.members@.len(), *st == rs, hall_good(hall.best_by_complexity@, d, o, o.maxsize), good(pools.best, d, o),
decreases __n1 - __k1,
--- head 1
proof { assert(good(st.pop.members@[__k1 - 1], d, o)); hall_takes_one(hall.best_by_complexity@, st.pop.members@[__k1 - 1], d, o, curmaxsize); }
--- loop 2
invariant __k2 <= __n2, __n2 == pools.best_sub_pops@.len(), all_good(candidates@, d, o),
decreases __n2 - __k2,
--- head 2
let ghost c0 = candidates@;
--- at before #0 migration::migrate_into
let ghost (m0, i0, b0) = (st.pop.members@, st.next_id, st.next_birth);
--- at after #0 migration::migrate_into
proof { copy_good(m0, st.pop.members@, candidates@, i0, b0, st.next_id - i0, d, o); }
--- at before #1 migration::migrate_into
let ghost (m1, i1, b1) = (st.pop.members@, st.next_id, st.next_birth);
proof {
    front_is(hall.best_by_complexity@, hall.best_by_complexity@.len() as int);
    let s = hall.best_by_complexity@;
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < dominating@.len() implies good(#[trigger] dominating@[i], d, o) by { assert(s.contains(Some(dominating@[i]))); let c = choose|c: int| 0 <= c < s.len() && s[c] == Some(dominating@[i]); assert(good(s[c]->0, d, o)); }
}
--- at after #1 migration::migrate_into
proof { copy_good(m1, st.pop.members@, dominating@, i1, b1, st.next_id - i1, d, o); }
=== raw
/// identifiers one cycle uses at most
pub open spec fn turn<T: Float, const D: usize>(o: Options<T, D>) -> int { per(o, o.population_size as nat) + 3 * o.population_size }
/// every population present has its size and identifiers for the cycles left
pub open spec fn pools_ready<T: Float, Ops, const D: usize>(p: PopPools<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>, left: int) -> bool {
    &&& pools_good(p, d, o)
    &&& forall|i: int| 0 <= i < p.pops@.len() && (#[trigger] p.pops@[i]) is Some ==> p.pops@[i]->0.pop.members@.len() == o.population_size && room(p.pops@[i]->0, left * turn(o))
}
pub open spec fn tagged<T: Float, Ops, const D: usize>(e: &SearchEngine<T, Ops, D>) -> TaggedDataset<'_, T> { TaggedDataset { data: &e.dataset, baseline_loss: e.baseline_loss } }
/// what the engine holds between two cycles
pub open spec fn honest<T: Float, Ops, const D: usize>(e: SearchEngine<T, Ops, D>) -> bool {
    &&& conf21(tagged(&e), e.options) && hall_good(e.hall.best_by_complexity@, tagged(&e), e.options, e.options.maxsize)
    &&& pools_ready(e.pools, tagged(&e), e.options, e.counters.total_cycles - e.counters.cycles_completed)
}
pub proof fn turns<T: Float, const D: usize>(o: Options<T, D>, left: int)
    ensures turn(o) >= 0, left * turn(o) == (left - 1) * turn(o) + turn(o), left >= 0 ==> left * turn(o) >= 0, per(o, o.population_size as nat) >= 0,
{
    let r = rounds(o.population_size as nat, o.tournament_selection_n) as int;
    assert(cycles(o) * r >= 0) by(nonlinear_arith) requires cycles(o) >= 1, r >= 0;
    let t = turn(o);
    assert(left * t == (left - 1) * t + t) by(nonlinear_arith);
    assert(left >= 0 ==> left * t >= 0) by(nonlinear_arith) requires t >= 0;
}
pub mod warmup {
    use super::*;
    /// unit warmup: the limit never exceeds the maximum
    #[verifier::external_body]
    pub fn get_cur_maxsize<T: Float, const D: usize>(options: &Options<T, D>, total_cycles: usize, cycles_remaining: usize) -> (r: usize)
        requires conf(*options),
        ensures r <= options.maxsize,
    { unimplemented!() }
}
=== fn symbolic_regression/src/search_utils.rs SearchEngine::step_one_cycle
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre apply_task_result(&self.options, &mut self.counters, &mut self.stats, &mut self.hall, &mut self.progress, &mut self.pools, res) => apply_task_result(&self.options, &mut self.counters, &mut self.stats, &mut self.hall, &mut self.progress, &mut self.pools, res, Ghost(full_dataset))
--- ret r
--- spec
requires ready(*old(self)), honest(*old(self)),
ensures
    ready(*final(self)), r == (old(self).counters.cycles_completed < old(self).counters.total_cycles), final(self).counters.total_cycles == old(self).counters.total_cycles,
    r ==> final(self).counters.cycles_completed == old(self).counters.cycles_completed + 1,
    final(self).options == old(self).options, final(self).dataset == old(self).dataset, final(self).baseline_loss == old(self).baseline_loss,
    honest(*final(self)), // [P21]
--- entry
let ghost left = self.counters.total_cycles - self.counters.cycles_completed;
let ghost o = self.options;
proof { T::laws(); turns(o, left); turns(o, left - 1); }
=== fn symbolic_regression/src/search_utils.rs SearchEngine::step
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
requires ready(*old(self)), honest(*old(self)),
ensures
    ready(*final(self)), honest(*final(self)), // [P21]
    final(self).options == old(self).options, final(self).dataset == old(self).dataset, final(self).baseline_loss == old(self).baseline_loss,
--- loops 1
--- attrs
#[verifier::loop_isolation(false)]
--- loop 0
invariant __k0 <= __n0, __n0 == n_cycles, completed <= __k0, ready(*self), honest(*self), self.options == old(self).options, self.dataset == old(self).dataset, self.baseline_loss == old(self).baseline_loss,
decreases __n0 - __k0,
=== fn symbolic_regression/src/search_utils.rs SearchEngine::run_to_completion
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- ret r
--- spec
requires ready(self), honest(self),
ensures
    good(r.best, tagged(&self), self.options), hall_good(r.hall_of_fame.best_by_complexity@, tagged(&self), self.options, self.options.maxsize), // [P21]
--- loops 1
--- attrs
#[verifier::loop_isolation(false)]
--- loop 0
invariant ready(__self), honest(__self), __self.options == self.options, __self.dataset == self.dataset, __self.baseline_loss == self.baseline_loss,
decreases __self.counters.total_cycles - __self.counters.cycles_completed,
=== raw
impl Rng { #[verifier::external_body] pub fn with_seed(seed: u64) -> Self { unimplemented!() } }
pub fn vx_zeros<T: Float>(n: usize) -> (r: Vec<T>)
    ensures r@.len() == n,
{ let mut v: Vec<T> = Vec::new(); let mut i: usize = 0; while i < n invariant i <= n, v@.len() == i, decreases n - i, { v.push(T::zero()); i = i + 1; } v }
/// a random expression over the configured operators (unit randexpr)
#[verifier::external_body]
pub fn vx_random_expr<T: Float, Ops, const D: usize>(rng: &mut Rng, options: &Options<T, D>, n_features: usize, nlength: usize, max_size: usize) -> (r: PostfixExpr<T, Ops, D>)
    requires 1 <= n_features <= 65536, max_size <= 65535,
    ensures fit(r, n_features as int),
{ unimplemented!() }
pub open spec fn member_of<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, pops: Seq<Option<PopState<T, Ops, D>>>) -> bool {
    exists|p: int, i: int| 0 <= p < pops.len() && (#[trigger] pops[p]) is Some && 0 <= i < pops[p]->0.pop.members@.len() && m == #[trigger] pops[p]->0.pop.members@[i]
}
/// pops.iter().flatten().next().expect(..).pop.members[0].clone(): some member
#[verifier::external_body]
pub fn vx_first_member<T: Float, Ops, const D: usize>(pops: &Vec<Option<PopState<T, Ops, D>>>) -> (r: PopMember<T, Ops, D>)
    requires pops@.len() > 0, pops@[0] is Some, pops@[0]->0.pop.members@.len() > 0,
    ensures member_of(r, pops@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_empty_lists<T: Float, Ops, const D: usize>(n: usize) -> (r: Vec<Vec<PopMember<T, Ops, D>>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0,
{ unimplemented!() }
pub broadcast proof fn shl32(i: u64)
    requires i < 0x8000_0000u64,
    ensures #[trigger] (i << 32u32) <= 0x7fff_ffff_0000_0000u64,
{ assert(i < 0x8000_0000u64 ==> (i << 32u32) <= 0x7fff_ffff_0000_0000u64) by(bit_vector); }
=== fn symbolic_regression/src/pop_member.rs Evaluator::new
--- ret r
--- subst vec![T::zero(); n_rows] => vx_zeros(n_rows)
--- subst ndarray::Array2 => Array2
--- spec
ensures ev_ok(r, n_rows as int), // [P21]
=== fn symbolic_regression/src/population.rs Population::new
--- ret r
--- spec
ensures r.members == members,
=== fn symbolic_regression/src/search_utils.rs init_populations
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- subst dynamic_expressions:: => 
--- pre random_expr_append_ops(&mut rng, &options.operators, dataset.n_features, nlength, options.maxsize) => vx_random_expr(&mut rng, options, dataset.n_features, nlength, options.maxsize)
--- pre vec![Vec::new(); pops.len()] => vx_empty_lists(pops.len())
--- pre pops.iter().flatten().next().expect("at least one population member exists").pop.members[0].clone() => vx_first_member(&pops)
--- attrs
#[verifier::loop_isolation(false)]
--- ret r
--- spec
requires 1 <= options.populations < 0x8000_0000, options.population_size < 0x1_0000_0000, conf21(full_dataset, *options), hall_good(old(hall).best_by_complexity@, full_dataset, *options, options.maxsize),
ensures r.pops@.len() == options.populations, full(r),
    hall_good(final(hall).best_by_complexity@, full_dataset, *options, options.maxsize), // [P21]
    forall|left: int| left * turn(*options) < 0x4000_0000_0000_0000 ==> #[trigger] pools_ready(r, full_dataset, *options, left), // [P21]
--- loops 5
--- entry
proof { T::laws(); broadcast use shl32; }
let ghost d = full_dataset;
let ghost o = *options;
--- loop 0
invariant __k0 <= __n0, __n0 == options.populations, pops@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] pops@[i]) is Some && st_ok(pops@[i]->0, d, o) && pops@[i]->0.pop.members@.len() == o.population_size
        && pops@[i]->0.next_id <= 0x8000_0000_0000_0000u64 && pops@[i]->0.next_birth <= 0x8000_0000_0000_0000u64,
    total_evals == __k0 * options.population_size, hall_good(hall.best_by_complexity@, d, o, o.maxsize),
decreases __n0 - __k0,
--- head 0
proof {
    assert((__k0 - 1) * options.population_size + options.population_size == __k0 * options.population_size) by(nonlinear_arith);
    assert(__k0 * options.population_size <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires 0 <= __k0 <= 0xffff_ffff, options.population_size <= 0xffff_ffff;
}
let ghost t0 = total_evals;
--- loop 1
invariant __k1 <= __n1, __n1 == options.population_size, total_evals == t0 + __k1, next_birth == __k1, next_id <= 0x7fff_ffff_0000_0000u64 + __k1, members@.len() == __k1,
    ev_ok(evaluator, d.data.n_rows as int), all_good(members@, d, o), hall_good(hall.best_by_complexity@, d, o, o.maxsize),
decreases __n1 - __k1,
--- at before #0 hall.consider(
proof { own_good(m, d, o); hall_takes_one(hall.best_by_complexity@, m, d, o, o.maxsize); }
--- loop 2
invariant __k2 <= __n2, __n2 == pops@.len(), best is Some ==> good(best->0, d, o),
decreases __n2 - __k2,
--- loop 3
invariant __k3 <= __n3, __n3 == st.pop.members@.len(), best is Some ==> good(best->0, d, o), all_good(st.pop.members@, d, o),
decreases __n3 - __k3,
--- loop 4
invariant __k4 <= __n4, __n4 == pops@.len(), best_sub_pops@.len() == pops@.len(), forall|i: int| 0 <= i < pops@.len() ==> all_good((#[trigger] best_sub_pops@[i])@, d, o),
decreases __n4 - __k4,
--- at before #0 best_sub_pops
proof {
    let ms = st.pop.members@;
    assert forall|i: int| 0 <= i < ms.len() implies !(#[trigger] ms[i]).cost.nan() by { good_cost(ms[i], d, o); }
}
=== raw
/// the baseline of a search: the loss of predicting zero everywhere, when it is used
pub open spec fn used_base<T: Float, const D: usize>(d: Dataset<T>, o: Options<T, D>) -> Option<T> { if o.use_baseline { base_of(d, o.loss) } else { None } }
impl SearchProgress {
    #[verifier::external_body]
    pub fn new<T: Float, const D: usize>(options: &Options<T, D>, total_cycles: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn set_initial_evals(&mut self, n: u64) { unimplemented!() }
}
/// data and configuration in range, whatever the baseline
pub open spec fn start_ok<T: Float, const D: usize>(d: Dataset<T>, o: Options<T, D>) -> bool {
    &&& conf_base(d, o) && forall|b: Option<T>| #[trigger] costs_num(b, o)
    &&& 1 <= o.populations < 0x8000_0000 && o.population_size < 0x1_0000_0000 && o.niterations * o.populations <= usize::MAX
    &&& (o.niterations * o.populations) * turn(o) < 0x4000_0000_0000_0000
}
=== fn symbolic_regression/src/search_utils.rs SearchEngine::new
--- subst Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign => Float
--- subst dynamic_expressions::OperatorSet => OperatorSet
--- pre options.loss.as_ref() => &options.loss
--- ret r
--- spec
requires start_ok(dataset, options),
ensures ready(r), honest(r), r.dataset == dataset, r.options == options, // [P21]
    r.baseline_loss == used_base(dataset, options), // [P33]
=== raw
// ---- the parallel driver: rayon's scope and the result channel, as the tasks handed out and not yet received ----
pub struct VxScope { x: u64 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(Ops)]
pub struct VxTx<T: Float, Ops, const D: usize> { x: Vec<SearchTaskResult<T, Ops, D>> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(Ops)]
pub struct VxRx<T: Float, Ops, const D: usize> { x: Vec<SearchTaskResult<T, Ops, D>> }
impl<T: Float, Ops, const D: usize> Clone for VxTx<T, Ops, D> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: Float, Ops, const D: usize> VxRx<T, Ops, D> {
    /// the populations being worked on, with the size limit of each task
    pub uninterp spec fn flying(&self) -> Map<usize, usize>;
    /// ... and the population as it was handed out
    pub uninterp spec fn work(&self) -> Map<usize, PopState<T, Ops, D>>;
}
#[verifier::external_body]
pub fn vx_channel<T: Float, Ops, const D: usize>() -> (r: (VxTx<T, Ops, D>, VxRx<T, Ops, D>))
    ensures r.1.flying() == Map::<usize, usize>::empty(),
{ unimplemented!() }
/// scope.spawn of a task that runs execute_task on this population (its precondition here) and sends its result
#[verifier::external_body]
pub fn vx_spawn<T: Float, Ops: OperatorSet<T = T>, const D: usize>(rx: &mut VxRx<T, Ops, D>, scope: &VxScope, tx: VxTx<T, Ops, D>, full_dataset: TaggedDataset<'_, T>, options: &Options<T, D>, pop_idx: usize, curmaxsize: usize, stats: RunningSearchStatistics, st: PopState<T, Ops, D>)
    requires !old(rx).flying().contains_key(pop_idx),
        st_ok(st, full_dataset, *options), conf21(full_dataset, *options), curmaxsize <= options.maxsize, room(st, per(*options, st.pop.members@.len()) + 3 * st.pop.members@.len()),
    ensures final(rx).flying() == old(rx).flying().insert(pop_idx, curmaxsize), final(rx).work() == old(rx).work().insert(pop_idx, st),
{ unimplemented!() }
/// recv: the result of some task handed out and not received yet, in any order: what execute_task's contract says of it
#[verifier::external_body]
pub fn vx_recv<T: Float, Ops, const D: usize>(rx: &mut VxRx<T, Ops, D>, full_dataset: TaggedDataset<'_, T>, options: &Options<T, D>) -> (r: SearchTaskResult<T, Ops, D>)
    requires old(rx).flying().dom().len() > 0,
    ensures old(rx).flying().contains_key(r.pop_idx), old(rx).flying()[r.pop_idx] == r.curmaxsize, final(rx).flying() == old(rx).flying().remove(r.pop_idx), final(rx).work() == old(rx).work(),
        ({
            let st = old(rx).work()[r.pop_idx];
            let n = st.pop.members@.len();
            result_ok(r, full_dataset, *options) && same_len(st, r.pop_state) && used(st, r.pop_state, per(*options, n) + n)
        }),
{ unimplemented!() }
=== type symbolic_regression/src/search_utils.rs EquationSearchState
subst Float + AddAssign => Float
=== raw
/// the populations at work kept identifiers for this cycle and those to come
pub open spec fn work_ok<T: Float, Ops, const D: usize>(w: Map<usize, PopState<T, Ops, D>>, fl: Map<usize, usize>, o: Options<T, D>, left: int) -> bool {
    forall|q: usize| #[trigger] fl.contains_key(q) ==> w[q].pop.members@.len() == o.population_size && room(w[q], left * turn(o) + turn(o))
}
=== fn symbolic_regression/src/search_utils.rs run_scoped_search
--- subst <'scope, 'env, T, => <'env, T,
--- subst 'env: 'scope, => 
--- subst T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync + 'scope => T: Float
--- subst Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync + 'scope => Ops: OperatorSet<T = T>
--- subst &rayon::Scope<'scope> => &VxScope
--- subst let (result_tx, result_rx) = => let (result_tx, mut result_rx) =
--- pre std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>() => vx_channel::<T, Ops, D>()
--- pre scope.spawn(move |_| { let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st); let _ = result_tx.send(res); }) => vx_spawn(&mut result_rx, scope, result_tx, full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
--- pre result_rx.recv().expect("worker result channel closed early") => vx_recv(&mut result_rx, full_dataset, options)
--- pre apply_task_result(options, &mut state.counters, &mut state.stats, &mut state.hall, &mut state.progress, &mut state.pools, res) => apply_task_result(options, &mut state.counters, &mut state.stats, &mut state.hall, &mut state.progress, &mut state.pools, res, Ghost(full_dataset))
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires full(old(state).pools), old(state).n_workers >= 1, old(state).counters.cycles_started == old(state).counters.cycles_completed == 0,
    old(state).counters.total_cycles == old(state).options.niterations * old(state).pools.pops@.len(),
    conf21(old(state).full_dataset, *old(state).options), hall_good(old(state).hall.best_by_complexity@, old(state).full_dataset, *old(state).options, old(state).options.maxsize),
    pools_ready(old(state).pools, old(state).full_dataset, *old(state).options, old(state).counters.total_cycles as int),
ensures
    good(final(state).pools.best, old(state).full_dataset, *old(state).options), // [P21]
    hall_good(final(state).hall.best_by_complexity@, old(state).full_dataset, *old(state).options, old(state).options.maxsize), // [P21]
--- loops 4
--- entry
let ghost s0 = *state;
let ghost n = state.pools.pops@.len() as int;
let ghost total = state.counters.total_cycles as int;
let ghost d = state.full_dataset;
let ghost o = *state.options;
proof { T::laws(); }
--- loop 0
invariant __k0 <= __n0, __n0 == options.niterations, options == s0.options, full_dataset == d, state.options == s0.options, state.n_workers == s0.n_workers, state.counters.total_cycles == total,
    full(state.pools), state.pools.pops@.len() == n, result_rx.flying() == Map::<usize, usize>::empty(),
    state.counters.cycles_started == state.counters.cycles_completed == __k0 * n,
    pools_ready(state.pools, d, o, total - state.counters.cycles_started), hall_good(state.hall.best_by_complexity@, d, o, o.maxsize),
decreases __n0 - __k0,
--- head 0
let ghost base = state.counters.cycles_completed as int;
proof {
    assert((__k0 - 1) * n + n == __k0 * n) by(nonlinear_arith);
    assert(__k0 * n <= options.niterations * n) by(nonlinear_arith) requires __k0 <= options.niterations, n >= 0;
}
--- loop 1
invariant __k1 <= __n1, __n1 == n, __acc1@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> #[trigger] __acc1@[i] == i,
decreases __n1 - __k1,
--- at before #0 shuffle(
let ghost o0 = task_order@;
--- at after #0 shuffle(
proof { shuffled_order(o0, task_order@, n); }
--- loop 2
invariant options == s0.options, full_dataset == d, state.options == s0.options, state.n_workers == s0.n_workers, state.counters.total_cycles == total,
    state.pools.pops@.len() == n, mid_round(state.pools, result_rx.flying(), task_order@, next_task as int, options.maxsize), in_flight == result_rx.flying().dom().len(), in_flight <= next_task,
    state.counters.cycles_started == base + next_task, state.counters.cycles_completed == base + next_task - in_flight,
    pools_ready(state.pools, d, o, total - state.counters.cycles_started), hall_good(state.hall.best_by_complexity@, d, o, o.maxsize),
    work_ok(result_rx.work(), result_rx.flying(), o, total - state.counters.cycles_started),
decreases 2 * (n - next_task) + in_flight,
--- loop 3
invariant options == s0.options, full_dataset == d, state.options == s0.options, state.n_workers == s0.n_workers, state.counters.total_cycles == total,
    state.pools.pops@.len() == n, mid_round(state.pools, result_rx.flying(), task_order@, next_task as int, options.maxsize), in_flight == result_rx.flying().dom().len(), in_flight <= next_task,
    state.counters.cycles_started == base + next_task, state.counters.cycles_completed == base + next_task - in_flight,
    pools_ready(state.pools, d, o, total - state.counters.cycles_started), hall_good(state.hall.best_by_complexity@, d, o, o.maxsize),
    work_ok(result_rx.work(), result_rx.flying(), o, total - state.counters.cycles_started),
    next_task < n || in_flight > 0,
    2 * (n - next_task) + in_flight <= m0,
decreases n - next_task,
--- head 2
let ghost m0 = 2 * (n - next_task) + in_flight;
--- head 3
proof { turns(o, total - state.counters.cycles_started); turns(o, total - state.counters.cycles_started - 1); }
--- at before #0 in_flight -= 1
proof { turns(o, total - state.counters.cycles_started); }
=== raw
/// random.rs shuffle: a permutation (unit split)
#[verifier::external_body]
pub fn shuffle<X>(rng: &mut Rng, values: &mut Vec<X>)
    ensures shuffled(old(values)@, final(values)@),
{ unimplemented!() }
/// rayon: any number of threads, inside or outside the pool
#[verifier::external_body]
pub fn vx_num_threads() -> usize { unimplemented!() }
#[verifier::external_body]
pub fn vx_in_pool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_scope() -> VxScope { unimplemented!() }
/// the result of a search: the best member and the hall of fame carry their own losses
pub open spec fn result_good<T: Float, Ops, const D: usize>(r: SearchResult<T, Ops, D>, d: Dataset<T>, o: Options<T, D>) -> bool {
    let t = TaggedDataset { data: &d, baseline_loss: used_base(d, o) };
    good(r.best, t, o) && hall_good(r.hall_of_fame.best_by_complexity@, t, o, o.maxsize)
}
=== fn symbolic_regression/src/search_utils.rs equation_search_parallel
--- subst T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync => T: Float
--- subst Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync => Ops: OperatorSet<T = T>
--- pre options.loss.as_ref() => &options.loss
--- pre rayon::current_num_threads() => vx_num_threads()
--- pre rayon::current_thread_index().is_some() => vx_in_pool()
--- pre rayon::in_place_scope(|scope| { run_scoped_search(scope, &mut state); }) => run_scoped_search(&vx_scope(), &mut state)
--- panics true
--- ret r
--- spec
requires start_ok(*dataset, *options),
ensures result_good(r, *dataset, *options), // [P21]
=== fn symbolic_regression/src/search_utils.rs equation_search
--- subst T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync => T: Float
--- subst Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync => Ops: OperatorSet<T = T>
--- ret r
--- spec
requires start_ok(*dataset, *options),
ensures result_good(r, *dataset, *options), // [P21]
