//! P20: constant optimisation against independently recomputed losses.
use de::node::PNode;
use harness::search::*;
use harness::*;

struct C { nodes: Vec<PNode>, consts: Vec<f64>, nf: usize, nr: usize, weighted: bool, restarts: usize, iters: usize, calls: usize, enabled: bool, parsimony: f64, use_base: bool, stale: bool, seed: u64 }
impl C {
    fn desc(&self) -> String {
        format!("{:?} {:?} nf={} rows={} weighted={} restarts={} iterations={} f_calls={} enabled={} parsimony={} baseline={} stale={} seed={}", self.nodes, self.consts, self.nf, self.nr, self.weighted, self.restarts, self.iters, self.calls, self.enabled, self.parsimony, self.use_base, self.stale, self.seed)
    }
    fn run(&self) -> Result<(), String> {
        let mut g = Rng::with_seed(self.seed);
        let d = dataset(&mut g, self.nf, self.nr, self.weighted);
        let mut o: Options<f64, D> = Options::default();
        o.loss = sr::make_loss(loss_kind(&mut g));
        (o.optimizer_nrestarts, o.optimizer_iterations, o.optimizer_f_calls_limit) = (self.restarts, self.iters, self.calls);
        (o.should_optimize_constants, o.parsimony, o.use_baseline) = (self.enabled, self.parsimony, self.use_base);
        let base = [None, Some(0.001), Some(2.5), Some(f64::INFINITY)][g.usize(0..4)];
        let td = TaggedDataset::new(&d, base);
        let mut m = M::from_expr(MemberId(7), Some(MemberId(3)), 41, expr_of(self.nodes.clone(), self.consts.clone()), self.nf);
        let mut ev = Evaluator::new(self.nr);
        let mut gc = de::GradContext::new(self.nr);
        if !self.stale { m.evaluate(&td, &o, &mut ev); } else { (m.loss, m.cost, m.complexity) = (1e-9, 2e-9, 1); }
        let old = fresh(&self.nodes, &self.consts, &td, &o);
        let (l0, c0) = (m.loss, m.cost);
        let mut birth = 100u64;
        let (changed, _) = optimize_constants(&mut g, &mut m, OptimizeConstantsCtx { dataset: td, options: &o, evaluator: &mut ev, grad_ctx: &mut gc, next_birth: &mut birth });
        if m.expr.nodes != self.nodes { return Err(format!("the tree changed: {:?}", m.expr.nodes)); }
        if m.expr.consts.len() != self.consts.len() { return Err("the number of constants changed".into()); }
        if m.id != MemberId(7) || m.parent != Some(MemberId(3)) { return Err("identity changed".into()); }
        plan_ok(&m, self.nf)?;
        if !changed {
            if bits(&m.expr.consts) != bits(&self.consts) { return Err(format!("no improvement reported but the constants are {:?}", m.expr.consts)); }
            if !same_bits(m.loss, l0) || !same_bits(m.cost, c0) || m.birth != 41 || birth != 100 { return Err(format!("no improvement reported but loss {l0} -> {} cost {c0} -> {} birth {} next birth {birth}", m.loss, m.cost, m.birth)); }
            return Ok(());
        }
        if m.birth != 100 || birth != 101 { return Err(format!("birth {} next birth {birth}", m.birth)); }
        own(&m, &td, &o)?;
        if !(m.loss < old.loss) { return Err(format!("improvement reported but the loss went from {} to {} ({:?})", old.loss, m.loss, m.expr.consts)); }
        Ok(())
    }
}

fn main() {
    let r = Runner::new("one evaluation = one call of the constant optimiser on one member, data set, loss and random stream; distinct = distinct settings");
    let fam: Family = vec![["sin", "exp", "log", "sqrt", "abs"].iter().map(|n| op(n, 1)).collect(), ["add", "sub", "mul", "div", "pow"].iter().map(|n| op(n, 2)).collect()];
    let leaves = [Tree::Var(0), Tree::Const(0), Tree::Const(1)];
    let small: Vec<Vec<PNode>> = (1..=3).flat_map(|s| all_trees(s, &leaves, &fam)).map(|t| t.nodes()).collect();
    for (i, n) in small.iter().enumerate() {
        let c = C { nodes: n.clone(), consts: vec![0.7, -1.3], nf: 1, nr: 6, weighted: i % 3 == 0, restarts: i % 3, iters: 8, calls: 10_000, enabled: true, parsimony: 0.01, use_base: i % 2 == 0, stale: i % 5 == 0, seed: i as u64 };
        r.case("small trees", &i, || c.desc(), || c.run());
        if r.used() > 0.4 { break; }
    }
    let mut g = r.rng("p20");
    let mut k = 0u64;
    while r.time_left() {
        k += 1;
        let nf = 1 + g.usize(0..3);
        let nc = g.usize(0..5);
        let size = [1, 3, 5, 8, 12][g.usize(0..5)];
        let nodes = if nc == 0 { gen_tree(&mut g, size, &fam, nf, 0).nodes() } else { gen_tree(&mut g, size, &fam, nf, nc).nodes() };
        let consts: Vec<f64> = (0..nc).map(|_| match g.u8(0..12) { 0 => 0.0, 1 => 1e6, 2 => -1e-7, 3 => 1e200, _ => (g.f64() - 0.5) * 6.0 }).collect();
        let c = C { nodes, consts, nf, nr: [1, 2, 5, 20][g.usize(0..4)], weighted: g.bool(), restarts: g.usize(0..4), iters: [0, 1, 3, 8, 20][g.usize(0..5)], calls: [1, 3, 10, 10_000][g.usize(0..4)],
            enabled: g.u8(0..10) != 0, parsimony: [0.0, 0.01][g.usize(0..2)], use_base: g.bool(), stale: g.u8(0..6) == 0, seed: g.u64(..) };
        r.case("random members", &k, || c.desc(), || c.run());
    }
    r.finish();
}
