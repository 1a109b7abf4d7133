# symbolic_regression: tournament selection, weighted choice, index sampling
=== include prelude.inc
=== include node.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include rng.inc
=== include sort.inc
=== uses population.vx Population::len
=== type symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics
subst f64 => Fx
=== include weightspec.inc
=== raw
pub proof fn wsum_step(s: Seq<Fx>, i: int)
    requires 0 <= i < s.len(),
    ensures wsum_f(s.take(i + 1)) == wsum_f(s.take(i)).s_add(s[i]),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// a positive total needs a positive weight
pub proof fn some_positive(s: Seq<Fx>)
    requires forall|i: int| 0 <= i < s.len() ==> weight_ok(#[trigger] s[i]) && s[i].k() == 0real,
    ensures wsum_f(s).isfin(), wsum_f(s).k() == 0real,
    decreases s.len(),
{
    fx_laws();
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies weight_ok(#[trigger] p[i]) && p[i].k() == 0real by { assert(p[i] == s[i]); }
        some_positive(p);
        assert(weight_ok(s[s.len() - 1]));
        assert(wsum_f(s) == wsum_f(p).s_add(s.last()));
    }
}
/// the total of a geometric list of weights is positive and finite
pub proof fn geometric_total(s: Seq<Fx>)
    requires s.len() <= 16777216, forall|i: int| 0 <= i < s.len() ==> weight_ok(#[trigger] s[i]) && s[i].k() <= 1real,
    ensures wsum_f(s).isfin(), 0real <= wsum_f(s).k() <= s.len() as real, s.len() > 0 ==> wsum_f(s).k() >= s[0].k(),
    decreases s.len(),
{
    fx_laws();
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies weight_ok(#[trigger] p[i]) && p[i].k() <= 1real by { assert(p[i] == s[i]); }
        geometric_total(p);
        let l = s[s.len() - 1];
        assert(weight_ok(l));
        let n = s.len() as int;
        rnd_int(n);
        let x = wsum_f(p).k() + l.k();
        assert(x <= n as real);
        assert(rnd(x) <= rnd(n as real) && rnd(wsum_f(p).k()) <= rnd(x) && rnd(l.k()) <= rnd(x) && rnd(0real) <= rnd(x));
        assert(wsum_f(s) == wsum_f(p).s_add(l));
    }
}
pub open spec fn distinct(s: Seq<usize>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < n
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub open spec fn penalty<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, st: RunningSearchStatistics, o: Options<T, D>) -> Fx {
    o.adaptive_parsimony_scaling.s_mul(if 0 < m.complexity <= o.maxsize { st.normalized_frequencies@[m.complexity - 1] } else { fx_lit(0, 1) }).s_exp()
}
/// the cost a tournament compares: frequency-adjusted when configured
pub open spec fn adj<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, st: RunningSearchStatistics, o: Options<T, D>) -> Fx {
    let c = match m.cost.s_to_f64() { Some(x) => x, None => fx_inf() };
    if o.use_frequency_in_tournament { c.s_mul(penalty(m, st, o).s_min(fx_top())) } else { c }
}
/// ds lists the drawn members from the lowest adjusted cost upwards
pub open spec fn ranking<T: Float, Ops, const D: usize>(ds: Seq<usize>, ms: Seq<PopMember<T, Ops, D>>, st: RunningSearchStatistics, o: Options<T, D>) -> bool {
    &&& distinct(ds, ms.len() as int)
    &&& forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() ==> adj(ms[ds[i] as int], st, o).k() <= adj(ms[ds[j] as int], st, o).k()
}
=== fn symbolic_regression/src/selection.rs weighted_index
--- opt fx
--- ret r
--- panics !weights_ok(weights@)
--- spec
ensures weights_ok(weights@), r < weights@.len(), weights@[r as int].k() > 0real,
--- entry
proof { fx_laws(); }
--- loop 0
invariant __n0 == weights@.len(), __k0 <= __n0, total == wsum_f(weights@.take(__k0 as int)), forall|i: int| 0 <= i < __k0 ==> weight_ok(#[trigger] weights@[i]),
decreases __n0 - __k0,
--- top 0
proof { wsum_step(weights@, __k0 as int); }
--- after 0
proof { assert(weights@.take(weights@.len() as int) =~= weights@); }
--- loop 1
invariant __n1 == weights@.len(), __k1 <= __n1, forall|i: int| 0 <= i < __n1 ==> weight_ok(#[trigger] weights@[i]), weights_ok(weights@),
decreases __n1 - __k1,
--- loop 2
invariant_except_break __acc2 is None, forall|i: int| __n2 - __k2 <= i < __n2 ==> !((#[trigger] weights@[i]).k() > 0real),
invariant __n2 == weights@.len(), __k2 <= __n2, __ix2 == __n2 - __k2, weights_ok(weights@), __acc2 is Some ==> (__acc2->0) < weights@.len() && weights@[__acc2->0 as int].k() > 0real,
ensures __acc2 is None ==> forall|i: int| 0 <= i < __n2 ==> !((#[trigger] weights@[i]).k() > 0real),
decreases __n2 - __k2,
--- top 2
proof { fx_laws(); assert(weight_ok(weights@[__n2 - 1 - __k2])); }
--- after 2
proof {
    if __acc2 is None {
        assert forall|i: int| 0 <= i < weights@.len() implies weight_ok(#[trigger] weights@[i]) && weights@[i].k() == 0real by { }
        some_positive(weights@);
        assert(false);
    }
}
=== fn symbolic_regression/src/selection.rs sample_indices
--- ret r
--- attrs
#[verifier::exec_allows_no_decreases_clause]
--- spec
requires len <= 0xffff,
ensures distinct(r@, len as int), r@.len() == (if n < len { n as int } else { len as int }),
--- loop 0
invariant __n0 == len, __k0 <= __n0, __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __acc0@[i] == i,
decreases __n0 - __k0,
--- at after lettake=
proof { assert(take * take <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= take <= 0xffff; }
--- loop 1
invariant distinct(out@, len as int), out@.len() <= take, len > 0, take <= len,
--- loop 2
invariant __n2 == len, __k2 <= __n2, __acc2@.len() == __k2, forall|i: int| 0 <= i < __k2 ==> #[trigger] __acc2@[i] == i,
decreases __n2 - __k2,
--- loop 3
invariant __n3 == take, __k3 <= __n3, take <= len, distinct(v@, len as int), v@.len() == len,
decreases __n3 - __k3,
=== fn symbolic_regression/src/selection.rs sample_tournament_place
--- opt fx
--- ret r
--- panics n > 1 && !p.isnan() && p.k() <= 0real
--- spec
requires !p.isnan(), n <= 16777216,
ensures 1 <= r, n >= 1 ==> r <= n, p.k() >= 1real ==> r == 1,
--- entry
proof { fx_laws(); }
--- loop 0
invariant __n0 == n, __k0 <= __n0, n <= 16777216, weights@.len() == __k0, cur.isfin(), 0real <= cur.k() <= 1real, q.isfin(), 0real < q.k() <= 1real, p.k() > 0real, p.isfin(),
    forall|i: int| 0 <= i < __k0 ==> weight_ok(#[trigger] weights@[i]) && weights@[i].k() <= 1real, __k0 > 0 ==> weights@[0] == p, __k0 == 0 ==> cur == p,
decreases __n0 - __k0,
--- top 0
proof {
    fx_laws();
    let (a, b) = (cur.k(), q.k());
    assert(0real <= a * b <= 1real) by (nonlinear_arith) requires 0real <= a <= 1real, 0real < b <= 1real;
    assert(rnd(0real) <= rnd(a * b) && rnd(a * b) <= rnd(1real));
}
--- after 0
proof { geometric_total(weights@); }
=== raw
pub open spec fn usual<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, st: RunningSearchStatistics, o: Options<T, D>) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() ==> !(match (#[trigger] ms[i]).cost.s_to_f64() { Some(x) => x, None => fx_inf() }).isnan()
    &&& o.adaptive_parsimony_scaling.isfin() && o.adaptive_parsimony_scaling.k() >= 0real
    &&& st.normalized_frequencies@.len() >= o.maxsize
    &&& forall|i: int| 0 <= i < o.maxsize ==> (#[trigger] st.normalized_frequencies@[i]).isfin() && st.normalized_frequencies@[i].k() >= 0real
}
/// a penalty is at least one and finite, so an adjusted cost is never NaN
pub proof fn adj_is_a_number<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, i: int, st: RunningSearchStatistics, o: Options<T, D>)
    requires usual(ms, st, o), 0 <= i < ms.len(),
    ensures !adj(ms[i], st, o).isnan(), o.use_frequency_in_tournament ==> penalty(ms[i], st, o).s_min(fx_top()).k() > 0real,
{
    fx_laws();
    let m = ms[i];
    let c = match m.cost.s_to_f64() { Some(x) => x, None => fx_inf() };
    assert(!c.isnan());
    if o.use_frequency_in_tournament {
        let freq = if 0 < m.complexity <= o.maxsize { st.normalized_frequencies@[m.complexity - 1] } else { fx_lit(0, 1) };
        assert(freq.isfin() && freq.k() >= 0real);
        let (a, b) = (o.adaptive_parsimony_scaling.k(), freq.k());
        assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
        let s = o.adaptive_parsimony_scaling.s_mul(freq);
        assert(rnd(0real) <= rnd(a * b));
        assert(!s.isnan() && s.k() >= 0real);
        let e = s.s_exp();
        assert(!e.isnan() && e.k() >= 1real);
        let w = e.s_min(fx_top());
        assert(w.isfin() && w.k() > 0real);
        assert(!c.s_mul(w).isnan());
    }
}
=== fn symbolic_regression/src/selection.rs best_of_sample
--- opt fx
--- opt owned:indices
--- ret r
--- spec
requires 1 <= pop.members@.len() <= 0xffff, options.tournament_selection_n >= 1, options.tournament_selection_p.k() > 0real, !options.tournament_selection_p.isnan(),
    usual(pop.members@, *stats, *options),
ensures exists|ds: Seq<usize>, k: int| #[trigger] ranking(ds, pop.members@, *stats, *options) && 0 <= k < ds.len() && r == pop.members@[#[trigger] ds[k] as int]
    && ds.len() == (if options.tournament_selection_n < pop.members@.len() { options.tournament_selection_n as int } else { pop.members@.len() as int })
    && (options.tournament_selection_p.k() >= 1real ==> k == 0),
--- entry
proof { fx_laws(); T::laws(); }
let ghost mut gp: Seq<int> = Seq::empty();
--- loop 0
invariant __n0 == indices@.len(), __k0 <= __n0, scored@.len() == __k0, distinct(indices@, pop.members@.len() as int), usual(pop.members@, *stats, *options),
    forall|i: int| 0 <= i < __k0 ==> (#[trigger] scored@[i]).1 == indices@[i] && scored@[i].0.k() == adj(pop.members@[indices@[i] as int], *stats, *options).k() && !scored@[i].0.isnan(),
decreases __n0 - __k0,
--- tail 0
proof { adj_is_a_number(pop.members@, idx as int, *stats, *options); }
--- closure 0
types &(Fx, usize) ; &(Fx, usize) -> Ordering
requires !(__c0.0).isnan(), !(__c1.0).isnan(),
ensures ({ let a = __c0.0.k(); let b = __c1.0.k(); r == (if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }) }),
--- closures
let ghost before = scored@;
--- closed
proof {
    gp = choose|p: Seq<int>| sorted_by(__cl0, before, scored@, p);
    let ds = Seq::new(scored@.len(), |i: int| scored@[i].1);
    assert forall|i: int| 0 <= i < ds.len() implies (#[trigger] ds[i]) == indices@[gp[i]] && scored@[i] == before[gp[i]] by { }
    assert(ranking(ds, pop.members@, *stats, *options)) by {
        assert forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() implies adj(pop.members@[ds[i] as int], *stats, *options).k() <= adj(pop.members@[ds[j] as int], *stats, *options).k() by {
            assert(scored@[i] == before[gp[i]] && scored@[j] == before[gp[j]]);
        }
        assert forall|i: int, j: int| 0 <= i < j < ds.len() implies #[trigger] ds[i] != #[trigger] ds[j] by {
            assert(gp[i] != gp[j]);
            if gp[i] < gp[j] { assert(indices@[gp[i]] != indices@[gp[j]]); } else { assert(indices@[gp[j]] != indices@[gp[i]]); }
        }
    }
    assert(ds[place_index as int] == scored@[place_index as int].1);
}
