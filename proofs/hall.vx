# symbolic_regression: hall of fame
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include constraints_spec.inc
=== include member.inc
=== type symbolic_regression/src/hall_of_fame.rs HallOfFame
=== uses constraints.vx check_constraints
=== include hallspec.inc
=== raw
pub open spec fn counts<T: Float, Ops, const D: usize>(h: Seq<(PopMember<T, Ops, D>, usize)>, i: int, o: Options<T, D>, len: int, c: int) -> bool {
    eligible(h[i].0, o, h[i].1, len) && h[i].0.complexity == c
}
/// after any history of submissions every cell holds the cheapest eligible submission of its complexity, the earliest
/// of equally cheap ones; a cell is empty exactly when there was none
pub proof fn hof_best<T: Float, Ops, const D: usize>(h: Seq<(PopMember<T, Ops, D>, usize)>, o: Options<T, D>, len: int, c: int)
    requires 0 <= c < len, forall|i: int| 0 <= i < h.len() ==> !(#[trigger] h[i]).0.cost.nan(),
    ensures ({
        let s = hof_run(Seq::new(len as nat, |k: int| None::<PopMember<T, Ops, D>>), h, o);
        &&& s.len() == len
        &&& s[c] is None ==> forall|i: int| 0 <= i < h.len() ==> !#[trigger] counts(h, i, o, len, c)
        &&& s[c] is Some ==> exists|j: int| 0 <= j < h.len() && #[trigger] counts(h, j, o, len, c) && s[c] == Some(h[j].0)
            && (forall|i: int| 0 <= i < h.len() && #[trigger] counts(h, i, o, len, c) ==> h[j].0.cost.key() <= h[i].0.cost.key() && (i < j ==> h[j].0.cost.key() < h[i].0.cost.key()))
    }),
    decreases h.len(),
{
    T::laws();
    let s0 = Seq::new(len as nat, |k: int| None::<PopMember<T, Ops, D>>);
    if h.len() > 0 {
        let g = h.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies !(#[trigger] g[i]).0.cost.nan() by { assert(g[i] == h[i]); }
        hof_best(g, o, len, c);
        let p = hof_run(s0, g, o);
        let s = hof_run(s0, h, o);
        let n = h.len() - 1;
        assert forall|i: int| 0 <= i < g.len() implies #[trigger] counts(h, i, o, len, c) == counts(g, i, o, len, c) by { assert(g[i] == h[i]); }
        assert(h.last() == h[n]);
        if counts(h, n, o, len, c) && takes(p[c], h[n].0) {
            assert(s[c] == Some(h[n].0));
        } else {
            assert(s[c] == p[c]);
            if s[c] is Some {
                let j = choose|j: int| 0 <= j < g.len() && #[trigger] counts(g, j, o, len, c) && p[c] == Some(g[j].0)
                    && (forall|i: int| 0 <= i < g.len() && #[trigger] counts(g, i, o, len, c) ==> g[j].0.cost.key() <= g[i].0.cost.key() && (i < j ==> g[j].0.cost.key() < g[i].0.cost.key()));
                assert(counts(h, j, o, len, c));
                assert(g[j] == h[j]);
            }
        }
    }
}
/// a submission keeps what is held (unit engine: `keeps`), whatever the member and the size limit
pub proof fn step_keeps<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, m: PopMember<T, Ops, D>, o: Options<T, D>, cms: usize, c: int)
    requires 0 <= c < s.len(), s[c] is Some,
    ensures ({ let t = hof_step(s, m, o, cms); t.len() == s.len() && t[c] is Some && (t[c] == s[c] || below(t[c]->0.cost, s[c]->0.cost)) }), // [P22]
{ }
/// a larger size limit admits more (unit engine: sat_c_grows)
pub proof fn admissible_grows<T: Float, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>, o: Options<T, D>, a: usize, b: usize)
    requires a <= b, admissible(e, o, a),
    ensures admissible(e, o, b), // [P22]
{ }
=== include frontspec.inc
=== raw
pub fn vx_vec_none<X>(n: usize) -> (r: Vec<Option<X>>)
    ensures r@ == Seq::new(n as nat, |k: int| None::<X>),
{
    let mut v: Vec<Option<X>> = Vec::new();
    let mut i: usize = 0;
    while i < n invariant i <= n, v@ == Seq::new(i as nat, |k: int| None::<X>), decreases n - i,
    { v.push(None); i = i + 1; assert(v@ =~= Seq::new(i as nat, |k: int| None::<X>)); }
    v
}
=== fn symbolic_regression/src/hall_of_fame.rs HallOfFame::new
--- ret r
--- opt keepvec
--- subst vec![None; max_complexity + 1] => vx_vec_none(max_complexity + 1)
--- spec
requires max_complexity < usize::MAX,
ensures r.best_by_complexity@ == Seq::new((max_complexity + 1) as nat, |k: int| None::<PopMember<T, Ops, D>>),
=== fn symbolic_regression/src/hall_of_fame.rs HallOfFame::consider
--- subst std::cmp::Ordering => Ordering
--- spec
requires sound_expr(member.expr),
ensures final(self).best_by_complexity@ == hof_step(old(self).best_by_complexity@, *member, *options, curmaxsize),
--- entry
proof { T::laws(); }
=== fn symbolic_regression/src/hall_of_fame.rs HallOfFame::update_from_members
--- spec
requires forall|i: int| 0 <= i < members@.len() ==> sound_expr((#[trigger] members@[i]).expr),
ensures final(self).best_by_complexity@ == hof_run(old(self).best_by_complexity@, with_size(members@, curmaxsize), *options),
--- loop 0
invariant __n0 == members.len(), __k0 <= __n0, forall|i: int| 0 <= i < members@.len() ==> sound_expr((#[trigger] members@[i]).expr),
    self.best_by_complexity@ == hof_run(old(self).best_by_complexity@, with_size(members@.take(__k0 as int), curmaxsize), *options),
decreases __n0 - __k0,
--- before 0
proof { assert(with_size(members@.take(0), curmaxsize) =~= Seq::empty()); }
--- tail 0
proof {
    let a = with_size(members@.take(__k0 as int), curmaxsize);
    assert(a.drop_last() =~= with_size(members@.take(__k0 - 1), curmaxsize));
    assert(a.last() == (*m, curmaxsize));
}
--- after 0
proof { assert(members@.take(members@.len() as int) =~= members@); }
=== fn symbolic_regression/src/hall_of_fame.rs HallOfFame::pareto_front
--- ret r
--- spec
ensures r@ == front(self.best_by_complexity@, self.best_by_complexity@.len() as int),
--- entry
proof { T::laws(); }
--- loop 0
invariant __n0 == self.best_by_complexity.len(), __k0 <= __n0, T::obeys_partial_cmp_spec(),
    best_loss == least(self.best_by_complexity@, __k0 as int),
    out@ == front(self.best_by_complexity@, __k0 as int),
decreases __n0 - __k0,
--- head 0
proof { T::laws(); }
