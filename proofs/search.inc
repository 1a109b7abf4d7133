# what the search needs of the evaluators: the contracts of units evalplan and gradplan, with the program's values named
=== raw
pub trait OperatorSet: Sized { type T: Float; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArrayView2<'a, T> { x: &'a Array2<T> }
impl<'a, T> ArrayView2<'a, T> {
    pub uninterp spec fn arr(&self) -> Array2<T>;
}
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn std(&self) -> bool;
    #[verifier::external_body]
    pub fn view(&self) -> (r: ArrayView2<'_, T>) ensures r.arr() == *self { unimplemented!() }
}
impl<T: Float> Array2<T> {
    #[verifier::external_body]
    pub fn zeros(shape: (usize, usize)) -> (r: Self) ensures r.rows() == shape.0, r.cols() == shape.1, r.std() { unimplemented!() }
}
pub struct Array1<T> { pub v: Vec<T>, pub std: Ghost<bool> }
impl<T> Array1<T> {
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[T]>) ensures r is Some <==> self.std@, r is Some ==> r->0@ == self.v@ { unimplemented!() }
}
/// `Vec<String>` of variable names: carried along only
#[verifier::external_body]
pub struct Names { x: Vec<u8> }
=== type symbolic_regression/src/dataset.rs Dataset
subst Vec<String> => Names
=== type symbolic_regression/src/dataset.rs TaggedDataset
derive Copy, Clone
=== type dynamic_expressions/src/evaluate.rs EvalOptions
derive Copy, Clone
=== type symbolic_regression/src/pop_member.rs Evaluator
subst ndarray::Array2<T> => Array2<T>
=== raw
impl<T: Float> Dataset<T> {
    pub open spec fn ok(&self) -> bool {
        &&& self.x.rows() == self.n_features && self.x.cols() == self.n_rows && self.x.std()
        &&& self.y.v@.len() == self.n_rows && self.y.std@
        &&& self.weights is Some ==> self.weights->0.v@.len() == self.n_rows && self.weights->0.std@
    }
    pub open spec fn w(&self) -> Option<Seq<T>> { match self.weights { Some(x) => Some(x.v@), None => None } }
}
/// gradient matrix and context of the gradient evaluator
pub struct GradMatrix<T> { pub data: Vec<T>, pub n_dir: usize, pub n_rows: usize }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct GradPlans<T, const D: usize> { x: Vec<T> }
pub struct GradContext<T, const D: usize> { pub n_rows: usize, pub rest: GradPlans<T, D> }
// ---- the meaning of a program on a data matrix: unit evalplan / gradplan define these by the operator tree
// (prog_vals = den over the rows, prog_fin = every operator result is finite: lemmas `search_view` there) ----
pub uninterp spec fn prog_vals<Ops, T>(nodes: Seq<PNode>, x: Array2<T>, c: Seq<T>) -> Seq<T>;
pub uninterp spec fn prog_fin<Ops, T>(nodes: Seq<PNode>, x: Array2<T>, c: Seq<T>) -> bool;
/// the program is compilable for so many features and constants, its operators are the set's
pub uninterp spec fn prog_ok<Ops>(nodes: Seq<PNode>, nf: int, nc: int, d: int) -> bool;
/// plan is the plan of that program
pub uninterp spec fn plan_is<Ops, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int) -> bool;
pub uninterp spec fn gplans_ok<T, const D: usize>(g: GradPlans<T, D>) -> bool;
/// (unit gradplan: whether a context is sound does not depend on its row count)
pub open spec fn gctx_ok<T, const D: usize>(g: GradContext<T, D>) -> bool { gplans_ok(g.rest) }
#[verifier::external_body]
pub fn eval_plan_array_into<T: Float, Ops: OperatorSet<T = T>, const D: usize>(out: &mut Vec<T>, plan: &EvalPlan<D>, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>, scratch: &mut Array2<T>, opts: &EvalOptions) -> (r: bool)
    requires plan_is::<Ops, D>(*plan, expr.nodes@, x_columns.arr().rows() as int, expr.consts@.len() as int), x_columns.arr().std(), old(out)@.len() == x_columns.arr().cols(), old(scratch).std(), opts.check_finite, opts.early_exit,
    ensures final(scratch).std(), final(out)@.len() == old(out)@.len(),
        r ==> final(out)@ == prog_vals::<Ops, T>(expr.nodes@, x_columns.arr(), expr.consts@),
        x_columns.arr().cols() > 0 ==> (r <==> prog_fin::<Ops, T>(expr.nodes@, x_columns.arr(), expr.consts@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn eval_grad_tree_array<T: Float, Ops: OperatorSet<T = T>, const D: usize>(expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>, variable: bool, ctx: &mut GradContext<T, D>, opts: &EvalOptions) -> (r: (Vec<T>, GradMatrix<T>, bool))
    requires prog_ok::<Ops>(expr.nodes@, x_columns.arr().rows() as int, expr.consts@.len() as int, D as int), x_columns.arr().std(), old(ctx).n_rows == x_columns.arr().cols(), gctx_ok(*old(ctx)), opts.check_finite, opts.early_exit,
        (if variable { x_columns.arr().rows() as int } else { expr.consts@.len() as int }) * x_columns.arr().cols() <= usize::MAX,
    ensures gctx_ok(*final(ctx)), final(ctx).n_rows == old(ctx).n_rows,
        r.0@.len() == x_columns.arr().cols(), r.1.n_rows == x_columns.arr().cols(), r.1.data@.len() == r.1.n_dir * r.1.n_rows,
        r.1.n_dir == if variable { x_columns.arr().rows() as int } else { expr.consts@.len() as int },
        r.2 ==> r.0@ == prog_vals::<Ops, T>(expr.nodes@, x_columns.arr(), expr.consts@),
        x_columns.arr().cols() > 0 ==> (r.2 <==> prog_fin::<Ops, T>(expr.nodes@, x_columns.arr(), expr.consts@)),
{ unimplemented!() }
pub uninterp spec fn loss_val<T>(l: VxLoss<T>, yhat: Seq<T>, y: Seq<T>, w: Option<Seq<T>>) -> T;
pub open spec fn osl<T>(w: Option<&[T]>) -> Option<Seq<T>> { match w { Some(x) => Some(x@), None => None } }
impl<T: Float> VxLoss<T> {
    #[verifier::external_body]
    pub fn loss(&self, yhat: &[T], y: &[T], w: Option<&[T]>) -> (r: T)
        requires yhat@.len() == y@.len(), w is Some ==> w->0@.len() == y@.len(),
        ensures r == loss_val(*self, yhat@, y@, osl(w)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dloss_dyhat(&self, yhat: &[T], y: &[T], w: Option<&[T]>, out: &mut [T])
        requires yhat@.len() == y@.len() == old(out)@.len(), w is Some ==> w->0@.len() == y@.len(),
        ensures final(out)@.len() == old(out)@.len(),
    { unimplemented!() }
}
/// cost is a function of loss, complexity, parsimony and baseline
pub uninterp spec fn cost_val<T>(loss: T, complexity: usize, parsimony: Fx, use_baseline: bool, baseline: Option<T>) -> T;
#[verifier::external_body]
pub fn loss_to_cost<T: Float>(loss: T, complexity: usize, parsimony: Fx, use_baseline: bool, baseline_loss: Option<T>) -> (r: T)
    ensures r == cost_val(loss, complexity, parsimony, use_baseline, baseline_loss),
{ unimplemented!() }
// ---- the loss of an expression on a data set ----
pub open spec fn loss_of<Ops, T: Float, const D: usize>(nodes: Seq<PNode>, c: Seq<T>, d: Dataset<T>, o: Options<T, D>) -> Option<T> {
    let l = loss_val(o.loss, prog_vals::<Ops, T>(nodes, d.x, c), d.y.v@, d.w());
    if prog_fin::<Ops, T>(nodes, d.x, c) && l.fin() { Some(l) } else { None }
}
/// the member carries exactly the complexity, loss and cost of its own expression on that data
pub open spec fn own<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, d: TaggedDataset<'_, T>, o: Options<T, D>) -> bool {
    &&& m.complexity == sat(wsum(o, m.expr.nodes@))
    &&& match loss_of::<Ops, T, D>(m.expr.nodes@, m.expr.consts@, *d.data, o) {
        Some(l) => m.loss == l && m.cost == cost_val(l, m.complexity, o.parsimony, o.use_baseline, d.baseline_loss),
        None => m.loss == T::s_inf() && m.cost == T::s_inf(),
    }
}
/// the cost recorded is that of the loss and complexity recorded
pub open spec fn priced<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, base: Option<T>, o: Options<T, D>) -> bool {
    m.cost == cost_val(m.loss, m.complexity, o.parsimony, o.use_baseline, base) || m.loss == T::s_inf() && m.cost == T::s_inf()
}
/// an evaluator sized for a data set
pub open spec fn ev_ok<T: Float, const D: usize>(e: Evaluator<T, D>, n: int) -> bool { e.yhat@.len() == n && e.scratch.std() && e.eval_opts.check_finite && e.eval_opts.early_exit }
/// the member's plan is its expression's
pub open spec fn mem_ok<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, nf: int) -> bool {
    prog_ok::<Ops>(m.expr.nodes@, nf, m.expr.consts@.len() as int, D as int) && plan_is::<Ops, D>(m.plan, m.expr.nodes@, nf, m.expr.consts@.len() as int)
}
/// a compilable program is a well-formed one
#[verifier::external_body]
pub proof fn prog_sound<Ops>(nodes: Seq<PNode>, nf: int, nc: int, d: int)
    requires prog_ok::<Ops>(nodes, nf, nc, d),
    ensures arity_le(nodes, d), reduces(nodes),
{ }
