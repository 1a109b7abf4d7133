# the state of a search over several populations
=== raw
/// maximum size and warm-up fraction in range
pub open spec fn conf<T: Float, const D: usize>(o: Options<T, D>) -> bool { o.maxsize < usize::MAX && (o.warmup_maxsize_by.isnan() || o.warmup_maxsize_by.isfin()) }
/// every population once
pub open spec fn is_order(s: Seq<usize>, n: int) -> bool {
    s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] s[i] != #[trigger] s[j])
}
pub open spec fn full<T: Float, Ops, const D: usize>(p: PopPools<T, Ops, D>) -> bool {
    p.best_sub_pops@.len() == p.pops@.len() && forall|i: int| 0 <= i < p.pops@.len() ==> (#[trigger] p.pops@[i]) is Some
}
/// between two cycles: the work done is the completed rounds plus the populations of the current round already worked on
pub open spec fn ready<T: Float, Ops, const D: usize>(e: SearchEngine<T, Ops, D>) -> bool {
    let n = e.pools.pops@.len() as int;
    &&& n >= 1 && full(e.pools) && conf(e.options)
    &&& e.counters.total_cycles == e.options.niterations * n && e.counters.cycles_started == e.counters.cycles_completed <= e.counters.total_cycles
    &&& e.cur_iter <= e.options.niterations
    &&& if e.cur_iter == 0 { e.task_order@.len() == 0 && e.next_task == 0 && e.counters.cycles_completed == 0 }
        else { is_order(e.task_order@, n) && e.next_task <= n && e.counters.cycles_completed == (e.cur_iter - 1) * n + e.next_task }
}
/// a new round is open: what prepare_iteration leaves for step_one_cycle
pub open spec fn primed<T: Float, Ops, const D: usize>(a: SearchEngine<T, Ops, D>, b: SearchEngine<T, Ops, D>) -> bool {
    let n = a.pools.pops@.len() as int;
    &&& b.dataset == a.dataset && b.options == a.options && b.counters == a.counters && b.hall == a.hall && b.pools == a.pools && b.baseline_loss == a.baseline_loss
    &&& is_order(b.task_order@, n) && b.next_task < n && 1 <= b.cur_iter <= a.options.niterations
    &&& b.counters.cycles_completed == (b.cur_iter - 1) * n + b.next_task
    &&& if a.next_task < a.task_order@.len() { b.task_order@ == a.task_order@ && b.next_task == a.next_task && b.cur_iter == a.cur_iter } else { b.next_task == 0 && b.cur_iter == a.cur_iter + 1 }
}
/// before each round the order is a permutation of the populations
pub proof fn shuffled_order(s: Seq<usize>, t: Seq<usize>, n: int)
    requires is_order(s, n), shuffled(s, t),
    ensures is_order(t, n), // [P22]
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] perm(p, q, n) && permuted(s, t, p);
    assert forall|i: int| 0 <= i < n implies (#[trigger] t[i]) < n by { assert(t[i] == s[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] t[i] != #[trigger] t[j] by {
        assert(t[i] == s[p[i]] && t[j] == s[p[j]]); assert(q[p[i]] == i && q[p[j]] == j);
        if p[i] < p[j] { assert(s[p[i]] != s[p[j]]); } else { assert(p[j] < p[i]); assert(s[p[j]] != s[p[i]]); }
    }
}
/// in the middle of a round: a population is away exactly while its task is out; what has not been handed out is not out
pub open spec fn mid_round<T: Float, Ops, const D: usize>(p: PopPools<T, Ops, D>, fl: Map<usize, usize>, order: Seq<usize>, next: int, limit: usize) -> bool {
    &&& is_order(order, p.pops@.len() as int) && p.best_sub_pops@.len() == p.pops@.len() && 0 <= next <= order.len() && fl.dom().finite()
    &&& forall|i: int| 0 <= i < p.pops@.len() ==> ((#[trigger] p.pops@[i]) is None <==> fl.contains_key(i as usize))
    &&& forall|i: int| next <= i < order.len() ==> !fl.contains_key(#[trigger] order[i])
    &&& forall|q: usize| #[trigger] fl.contains_key(q) ==> q < p.pops@.len() && fl[q] <= limit
}
