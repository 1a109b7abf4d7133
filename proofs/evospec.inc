# specifications shared by the evolution of one population (nextgen) and the search over several (phase)
=== raw
/// small enough: a constant's index is 16 bits wide; compilable for so many features
pub open spec fn fit<T, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>, nf: int) -> bool { prog_ok::<Ops>(e.nodes@, nf, e.consts@.len() as int, D as int) && reduces(e.nodes@) && arity_le(e.nodes@, D as int) && e.consts@.len() <= 65536 && e.nodes.len() <= isize::MAX }
pub open spec fn keeps_fit<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>) -> bool { forall|nf: int| fit(a, nf) ==> #[trigger] fit(b, nf) }
pub open spec fn member_fit<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, nf: int) -> bool { fit(m.expr, nf) && plan_is::<Ops, D>(m.plan, m.expr.nodes@, nf, m.expr.consts@.len() as int) }
/// b came from a by simplification steps, so it computes the same function (units simplify, combine, constants); reflexive and transitive
pub uninterp spec fn sim<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>) -> bool;
#[verifier::external_body]
pub proof fn sim_laws<T, Ops, const D: usize>()
    ensures forall|a: PostfixExpr<T, Ops, D>| #[trigger] sim(a, a), forall|a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>, c: PostfixExpr<T, Ops, D>| #[trigger] sim(a, b) && #[trigger] sim(b, c) ==> sim(a, c),
{ }
impl<T: Float, const D: usize> GradContext<T, D> {
    #[verifier::external_body]
    pub fn new(n_rows: usize) -> (r: Self) ensures gctx_ok(r), r.n_rows == n_rows { unimplemented!() }
}
pub open spec fn lossor<Ops, T: Float, const D: usize>(e: PostfixExpr<T, Ops, D>, d: Dataset<T>, o: Options<T, D>) -> T {
    match loss_of::<Ops, T, D>(e.nodes@, e.consts@, d, o) { Some(l) => l, None => T::s_inf() }
}
/// the member carries its own complexity, a loss of its own function (its expression before simplification) on the
/// rows evaluated or on the full data, and the cost of these
pub open spec fn fair<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, d: Dataset<T>, full: Dataset<T>, base: Option<T>, o: Options<T, D>) -> bool {
    &&& m.complexity == sat(wsum(o, m.expr.nodes@))
    &&& exists|e: PostfixExpr<T, Ops, D>| #[trigger] sim(e, m.expr) && (m.loss == lossor(e, d, o) || m.loss == lossor(e, full, o))
    &&& m.cost == cost_val(m.loss, m.complexity, o.parsimony, o.use_baseline, base) || m.loss == T::s_inf() && m.cost == T::s_inf()
}
pub open spec fn all_fair<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, d: Dataset<T>, full: Dataset<T>, base: Option<T>, o: Options<T, D>) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> fair(#[trigger] ms[i], d, full, base, o)
}
pub open spec fn all_fit<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, nf: int) -> bool { forall|i: int| 0 <= i < ms.len() ==> member_fit(#[trigger] ms[i], nf) }
/// an expression of the old population, or one that satisfies the constraints
pub open spec fn kept<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, olds: Seq<PopMember<T, Ops, D>>, o: Options<T, D>, cms: usize) -> bool {
    admissible(m.expr, o, cms) || exists|j: int| 0 <= j < olds.len() && (#[trigger] olds[j]).expr == m.expr
}
pub open spec fn all_kept<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, olds: Seq<PopMember<T, Ops, D>>, o: Options<T, D>, cms: usize) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> kept(#[trigger] ms[i], olds, o, cms)
}
/// rounds of one regularized-evolution cycle: ceil(population / tournament size)
pub uninterp spec fn rounds(len: nat, tournament: usize) -> usize;
/// cycles per iteration
pub open spec fn cycles<T: Float, const D: usize>(o: Options<T, D>) -> int { if o.ncycles_per_iteration >= 1 { o.ncycles_per_iteration as int } else { 1 } }
/// an evaluator sized for some data set or other
pub open spec fn ev_opts<T: Float, const D: usize>(e: Evaluator<T, D>) -> bool { e.scratch.std() && e.eval_opts.check_finite && e.eval_opts.early_exit }
/// what the hall of one cycle holds
pub open spec fn hall_ok<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, nf: int, o: Options<T, D>, cms: usize) -> bool {
    forall|c: int| 0 <= c < s.len() && (#[trigger] s[c]) is Some ==> member_fit(s[c]->0, nf) && admissible(s[c]->0.expr, o, cms) && s[c]->0.complexity == c
}
pub open spec fn hall_fair<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, d: Dataset<T>, full: Dataset<T>, base: Option<T>, o: Options<T, D>) -> bool {
    forall|c: int| 0 <= c < s.len() && (#[trigger] s[c]) is Some ==> fair(s[c]->0, d, full, base, o)
}

/// every member is one of the earlier ones, or was created in between (identifiers from i0 up to i1, births from b0 up to b1)
pub open spec fn line<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, olds: Seq<PopMember<T, Ops, D>>, i0: int, i1: int, b0: int, b1: int) -> bool {
    (exists|j: int| 0 <= j < olds.len() && m == #[trigger] olds[j]) || (i0 <= m.id.0 < i1 && b0 <= m.birth < b1)
}
pub open spec fn lines<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, olds: Seq<PopMember<T, Ops, D>>, i0: int, i1: int, b0: int, b1: int) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> line(#[trigger] ms[i], olds, i0, i1, b0, b1)
}
pub proof fn lines_self<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, i0: int, b0: int)
    ensures lines(ms, ms, i0, i0, b0, b0),
{ assert forall|i: int| 0 <= i < ms.len() implies line(#[trigger] ms[i], ms, i0, i0, b0, b0) by { assert(ms[i] == ms[i]); } }
pub proof fn lines_then<T: Float, Ops, const D: usize>(a: Seq<PopMember<T, Ops, D>>, b: Seq<PopMember<T, Ops, D>>, c: Seq<PopMember<T, Ops, D>>, i0: int, i1: int, i2: int, b0: int, b1: int, b2: int)
    requires lines(b, a, i0, i1, b0, b1), lines(c, b, i1, i2, b1, b2), i0 <= i1 <= i2, b0 <= b1 <= b2,
    ensures lines(c, a, i0, i2, b0, b2),
{
    assert forall|i: int| 0 <= i < c.len() implies line(#[trigger] c[i], a, i0, i2, b0, b2) by {
        assert(line(c[i], b, i1, i2, b1, b2));
        if exists|j: int| 0 <= j < b.len() && c[i] == #[trigger] b[j] { let j = choose|j: int| 0 <= j < b.len() && c[i] == #[trigger] b[j]; assert(line(b[j], a, i0, i1, b0, b1)); }
    }
}
