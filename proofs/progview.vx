# what the search units assume of the evaluators (search.inc), derived from the contracts proved in units evalplan and gradplan
=== include plan_common.inc
=== include deriv.inc
=== type dynamic_expressions/src/evaluate_derivative.rs GradContext
=== type dynamic_expressions/src/evaluate_derivative.rs GradMatrix
=== include epost.inc
=== include gpost.inc
=== include tree.inc
=== uses evalplan.vx eval_plan_array_into
=== uses gradplan.vx eval_grad_tree_array
=== raw
// search.inc's uninterpreted prog_vals, prog_fin, prog_ok, plan_is are these
pub open spec fn prog_vals<O: OpSem>(nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>) -> Seq<O::T> {
    Seq::new(n as nat, |row: int| den::<O>(tree_of(nodes), x, n, c, row))
}
pub open spec fn prog_fin<O: OpSem>(nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>) -> bool { tree_fin::<O>(tree_of(nodes), x, n, c) }
pub open spec fn prog_ok<O: OpSem>(nodes: Seq<PNode>, nf: int, nc: int, d: int) -> bool { expr_ok::<O>(nodes, nf, nc, d) }
pub open spec fn plan_is<O: OpSem, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int) -> bool { plan_run_ok::<O, D>(p, nodes, nf, nc) }
pub open spec fn arity_le(nodes: Seq<PNode>, d: int) -> bool { forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Op ==> nodes[i]->arity <= d }
pub proof fn parses(nodes: Seq<PNode>)
    requires parse(nodes) is Some,
    ensures parse0(nodes) == parse(nodes),
    decreases nodes.len(),
{ if nodes.len() > 0 { parses(nodes.drop_last()); } }
/// a compilable program is a well-formed one
pub proof fn prog_sound<O: OpSem>(nodes: Seq<PNode>, nf: int, nc: int, d: int)
    requires prog_ok::<O>(nodes, nf, nc, d),
    ensures arity_le(nodes, d), reduces(nodes),
{ parses(nodes); }
pub fn view_eval<T: Float, Ops: OperatorSet<T = T>, const D: usize>(out: &mut [T], plan: &EvalPlan<D>, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>, scratch: &mut Array2<T>, opts: &EvalOptions) -> (r: bool)
    requires plan_is::<Ops, D>(*plan, expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int), x_columns.std(), old(out)@.len() == x_columns.cols(), old(scratch).std(), opts.check_finite, opts.early_exit,
    ensures final(scratch).std(), final(out)@.len() == old(out)@.len(),
        r ==> final(out)@ == prog_vals::<Ops>(expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@), // [P20]
        x_columns.cols() > 0 ==> (r <==> prog_fin::<Ops>(expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@)), // [P20]
{
    let r = eval_plan_array_into(out, plan, expr, x_columns, scratch, opts);
    proof { if r { assert(out@ =~= prog_vals::<Ops>(expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@)); } }
    r
}
pub fn view_grad<T: Float, Ops: OperatorSet<T = T>, const D: usize>(expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>, variable: bool, ctx: &mut GradContext<T, D>, opts: &EvalOptions) -> (r: (Vec<T>, GradMatrix<T>, bool))
    requires prog_ok::<Ops>(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int), x_columns.std(), old(ctx).n_rows == x_columns.cols(), gctx_ok(*old(ctx)), opts.check_finite, opts.early_exit,
        (if variable { x_columns.rows() as int } else { expr.consts@.len() as int }) * x_columns.cols() <= usize::MAX,
    ensures gctx_ok(*final(ctx)), final(ctx).n_rows == old(ctx).n_rows,
        r.0@.len() == x_columns.cols(), r.1.n_rows == x_columns.cols(), r.1.data@.len() == r.1.n_dir * r.1.n_rows,
        r.1.n_dir == if variable { x_columns.rows() as int } else { expr.consts@.len() as int },
        r.2 ==> r.0@ == prog_vals::<Ops>(expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@), // [P20]
        x_columns.cols() > 0 ==> (r.2 <==> prog_fin::<Ops>(expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@)), // [P20]
{
    let r = eval_grad_tree_array(expr, x_columns, variable, ctx, opts);
    proof { if r.2 { assert(r.0@ =~= prog_vals::<Ops>(expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@)); } }
    r
}
=== raw
/// a constant on its own is compilable and predicts that constant in every row (assumed in baseline.vx)
pub proof fn lone_constant<O: OpSem>(x: Seq<O::T>, n: nat, c: O::T, nf: int, d: int)
    requires 0 <= nf <= 65535,
    ensures
        prog_ok::<O>(seq![PNode::Const { idx: 0 }], nf, 1, d), // [P33]
        prog_vals::<O>(seq![PNode::Const { idx: 0 }], x, n as int, seq![c]) == Seq::new(n, |i: int| c), // [P33]
        prog_fin::<O>(seq![PNode::Const { idx: 0 }], x, n as int, seq![c]) == c.fin(), // [P33]
{
    let nodes = seq![PNode::Const { idx: 0 }];
    reveal_with_fuel(parse, 3);
    assert(nodes.drop_last() =~= Seq::<PNode>::empty());
    assert(parse(nodes) =~= Some(seq![Term::Const(0)]));
    assert(tree_of(nodes) == Term::Const(0));
    assert(prog_vals::<O>(nodes, x, n as int, seq![c]) =~= Seq::new(n, |i: int| c));
}
