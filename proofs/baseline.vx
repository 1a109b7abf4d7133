# symbolic_regression: the baseline of a search - the loss of predicting zero everywhere
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include search.inc
=== include basespec.inc
=== uses randexpr.vx PostfixExpr::zero
=== raw
/// compile_plan panics exactly on programs that are not compilable (unit compile)
#[verifier::external_body]
pub fn vx_compile_plan<T: Float, Ops, const D: usize>(expr: &PostfixExpr<T, Ops, D>, n_features: usize) -> (r: EvalPlan<D>)
    requires prog_ok::<Ops>(expr.nodes@, n_features as int, expr.consts@.len() as int, D as int),
    ensures plan_is::<Ops, D>(r, expr.nodes@, n_features as int, expr.consts@.len() as int),
{ unimplemented!() }
/// a constant on its own is compilable and predicts that constant in every row (unit progview: lone_constant)
#[verifier::external_body]
pub proof fn lone_constant<Ops, T: Float>(x: Array2<T>, c: T, nf: int, d: int)
    requires 0 <= nf <= 65535,
    ensures
        prog_ok::<Ops>(seq![PNode::Const { idx: 0 }], nf, 1, d),
        prog_vals::<Ops, T>(seq![PNode::Const { idx: 0 }], x, seq![c]) == Seq::new(x.cols(), |i: int| c),
        prog_fin::<Ops, T>(seq![PNode::Const { idx: 0 }], x, seq![c]) == c.fin(),
{ }
#[verifier::external_body]
pub proof fn zero_finite<T: Float>() ensures T::s_zero().fin() { }
#[verifier::external_body]
pub fn vx_zeros<T: Float>(n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == T::s_zero() { unimplemented!() }
=== fn symbolic_regression/src/dataset.rs Dataset::y_slice
--- ret r
--- spec
requires self.ok(),
ensures r@ == self.y.v@,
=== fn symbolic_regression/src/dataset.rs Dataset::weights_slice
--- ret r
--- spec
requires self.ok(),
ensures osl(r) == self.w(),
=== fn symbolic_regression/src/loss_functions.rs baseline_loss_from_zero_expression
--- ret r
--- subst dynamic_expressions::expression:: => 
--- subst dynamic_expressions:: => 
--- subst &dyn LossFn<T> => &VxLoss<T>
--- subst vec![T::zero(); dataset.n_rows] => vx_zeros(dataset.n_rows)
--- pre dynamic_expressions::compile_plan(&expr.nodes, dataset.n_features, expr.consts.len()) => vx_compile_plan(&expr, dataset.n_features)
--- spec
requires dataset.ok(), dataset.n_rows > 0, dataset.n_features <= 65535,
ensures r == base_of::<T>(*dataset, *loss), // [P33]
--- entry
proof { lone_constant::<Ops, T>(dataset.x, T::s_zero(), dataset.n_features as int, D as int); zero_finite::<T>(); }
