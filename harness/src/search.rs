//! Data sets, options and members for the search-level checks (built-in operators, f64).
use crate::*;
use ndarray::{Array1, Array2};
pub use sr::verif_hooks::*;
pub const D: usize = 3;
pub type M = PopMember<f64, BOps, D>;
pub type E = PostfixExpr<f64, BOps, D>;

pub fn op(name: &str, arity: u8) -> u16 {
    use de::OperatorSet;
    BOps::ops_with_arity(arity).iter().copied().find(|&id| BOps::name(de::OpId { arity, id }) == name).unwrap_or_else(|| panic!("no operator {name}/{arity}"))
}
pub fn dataset(g: &mut Rng, nf: usize, nr: usize, weighted: bool) -> Dataset<f64> {
    let x = Array2::from_shape_fn((nf, nr), |_| (g.f64() - 0.5) * [1.0, 4.0, 20.0][g.usize(0..3)]);
    let s = [0.1, 1.0, 10.0, 1e3][g.usize(0..4)];
    let y = Array1::from_shape_fn(nr, |r| s * (x[(0, r)] + 0.3 * x[(nf - 1, r)] * x[(0, r)]) + g.f64());
    let w = weighted.then(|| Array1::from_shape_fn(nr, |_| 0.1 + g.f64()));
    Dataset::with_weights_and_names(x, y, w, vec![])
}
pub fn loss_kind(g: &mut Rng) -> sr::LossKind {
    use sr::LossKind::*;
    [Mse, Mse, Mae, Rmse, Huber { delta: 1.0 }, LogCosh, Lp { p: 3.0 }, Quantile { tau: 0.3 }, EpsilonInsensitive { eps: 0.1 }][g.usize(0..9)]
}
/// loss of an expression on a data set: per-row reference evaluation, then the loss function
pub fn ref_loss(nodes: &[PNode], consts: &[f64], d: &Dataset<f64>, o: &Options<f64, D>) -> Option<f64> {
    let t = parse(nodes).expect("one tree");
    let mut fin = true;
    let yh: Vec<f64> = (0..d.n_rows).map(|r| ref_eval(&t, &d.x, consts, r, &builtin_eval, &mut fin)).collect();
    if let Tree::Const(c) = t { fin &= consts[c as usize].is_finite(); }
    let l = o.loss.loss(&yh, d.y.as_slice().unwrap(), d.weights.as_ref().and_then(|w| w.as_slice()));
    (fin && l.is_finite()).then_some(l)
}
pub fn complexity(nodes: &[PNode], o: &Options<f64, D>) -> usize { sr::compute_complexity(nodes, o) }
pub fn near(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-6 * (a.abs() + b.abs()) + 1e-9 }
/// cost by the formula: loss over the normaliser, plus parsimony times complexity
pub fn ref_cost(loss: f64, cx: usize, o: &Options<f64, D>, base: Option<f64>) -> f64 {
    let n = match base { Some(b) if o.use_baseline && b.is_finite() && b >= 0.01 => b, _ => 0.01 };
    loss / n + o.parsimony * cx as f64
}
/// the loss a freshly built member gets from the real evaluator
pub fn fresh(nodes: &[PNode], consts: &[f64], d: &TaggedDataset<'_, f64>, o: &Options<f64, D>) -> M {
    let mut m = M::from_expr(MemberId(0), None, 0, expr_of(nodes.to_vec(), consts.to_vec()), d.data.n_features);
    let mut ev = Evaluator::new(d.data.n_rows);
    m.evaluate(d, o, &mut ev);
    m
}
/// the member carries the complexity, loss and cost of its own expression on that data
pub fn own(m: &M, d: &TaggedDataset<'_, f64>, o: &Options<f64, D>) -> Result<(), String> {
    let (n, c) = (&m.expr.nodes, &m.expr.consts);
    let f = fresh(n, c, d, o);
    if m.complexity != complexity(n, o) { return Err(format!("stored complexity {} but the expression's is {}: {n:?}", m.complexity, complexity(n, o))); }
    if !same_bits(m.loss, f.loss) { return Err(format!("stored loss {} but its expression evaluates to {}: {n:?} {c:?}", m.loss, f.loss)); }
    if !same_bits(m.cost, f.cost) { return Err(format!("stored cost {} but its expression's is {}: {n:?} {c:?}", m.cost, f.cost)); }
    match ref_loss(n, c, d.data, o) {
        Some(l) if m.loss.is_finite() && !near(m.loss, l) && l < 1e100 => Err(format!("stored loss {} but the reference value is {l}: {n:?} {c:?}", m.loss)),
        None if m.loss.is_finite() => Err(format!("stored loss {} but the expression is not finite on the data: {n:?} {c:?}", m.loss)),
        _ => if m.loss.is_finite() && !near(m.cost, ref_cost(m.loss, m.complexity, o, d.baseline_loss)) { Err(format!("stored cost {} of loss {} complexity {}", m.cost, m.loss, m.complexity)) } else { Ok(()) },
    }
}
/// the plan is the compiled plan of the expression
pub fn plan_ok(m: &M, nf: usize) -> Result<(), String> {
    let p = de::compile_plan::<D>(&m.expr.nodes, nf, m.expr.consts.len());
    if format!("{:?}", p) != format!("{:?}", m.plan) { return Err(format!("stored plan {:?} is not the plan of {:?}", m.plan, m.expr.nodes)); }
    Ok(())
}
