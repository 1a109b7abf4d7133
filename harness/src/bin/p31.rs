//! P31: which kinds of mutation are tried, against an independent reading of the configured weights and the member.
use de::node::PNode;
use harness::search::*;
use harness::*;
use sr::verif_hooks::{condition_mutation_weights, sample_mutation, MutationChoice};

const K: usize = 12;
const NAMES: [&str; K] = ["constant", "operator", "feature", "swap", "rotate", "add", "insert", "delete", "simplify", "randomize", "nothing", "optimize"];
fn weights(x: &[f64; K]) -> MutationWeights {
    MutationWeights { mutate_constant: x[0], mutate_operator: x[1], mutate_feature: x[2], swap_operands: x[3], rotate_tree: x[4], add_node: x[5], insert_node: x[6], delete_node: x[7], simplify: x[8], randomize: x[9], do_nothing: x[10], optimize: x[11], ..MutationWeights::default() }
}
fn listed(w: &MutationWeights) -> [f64; K] {
    [w.mutate_constant, w.mutate_operator, w.mutate_feature, w.swap_operands, w.rotate_tree, w.add_node, w.insert_node, w.delete_node, w.simplify, w.randomize, w.do_nothing, w.optimize]
}
fn number(c: MutationChoice) -> usize {
    use MutationChoice::*;
    match c { MutateConstant => 0, MutateOperator => 1, MutateFeature => 2, SwapOperands => 3, RotateTree => 4, AddNode => 5, InsertNode => 6, DeleteNode => 7, Simplify => 8, Randomize => 9, DoNothing => 10, Optimize => 11 }
}
/// the weights after the member and the settings have been looked at
fn reference(x: &[f64; K], m: &M, o: &Options<f64, D>, cms: usize, nf: usize) -> [f64; K] {
    let ns = &m.expr.nodes;
    let consts = ns.iter().filter(|n| matches!(n, PNode::Const { .. })).count();
    let lone = ns.len() == 1;
    let mut w = *x;
    let mut off = |k: usize, no: bool| if no { w[k] = 0.0 };
    off(0, consts == 0);
    off(1, lone);
    off(2, if lone { consts == 1 } else { nf < 2 });
    off(3, !ns.iter().any(|n| matches!(n, PNode::Op { arity: 2, .. })));
    off(5, !lone && m.complexity >= cms);
    off(6, !lone && m.complexity >= cms);
    off(7, lone);
    off(8, lone || !o.should_simplify);
    off(11, consts == 0 || (!lone && (!o.should_optimize_constants || o.optimizer_probability == 0.0)));
    if !lone { w[0] *= consts.min(8) as f64 / 8.0; }
    w
}
#[derive(Clone, Debug)]
struct C { x: [f64; K], size: usize, nf: usize, cms: usize, simplify: bool, optimize: bool, ternary: u8, opt: f64, seed: u64 }
type Tok = (u8, u64, u64);
fn toks(m: &M) -> Vec<Tok> {
    m.expr.nodes.iter().map(|n| match *n { PNode::Var { feature } => (0, u64::from(feature), 0), PNode::Const { idx } => (1, m.expr.consts[usize::from(idx)].to_bits(), 0), PNode::Op { arity, op } => (2, u64::from(arity), u64::from(op)) }).collect()
}
/// the child may come from this kind of mutation of the parent
fn explains(kind: usize, p: &[Tok], b: &[Tok]) -> bool {
    let differ = |f: &dyn Fn(&Tok, &Tok) -> bool| p.len() == b.len() && p.iter().zip(b).all(|(x, y)| x == y || f(x, y));
    match kind {
        0 | 11 => differ(&|x, y| x.0 == 1 && y.0 == 1),
        1 => differ(&|x, y| x.0 == 2 && y.0 == 2 && x.1 == y.1),
        2 => differ(&|x, y| x.0 == 0 && y.0 == 0),
        3 | 4 => { let (mut x, mut y) = (p.to_vec(), b.to_vec()); x.sort(); y.sort(); x == y }
        5 | 6 => b.len() > p.len(),
        7 => b.len() < p.len(),
        10 => p == b,
        _ => true,
    }
}
impl C {
    fn options(&self) -> (Options<f64, D>, Family) {
        let mut o: Options<f64, D> = Options::default();
        let (u, b): (&[&str], &[&str]) = (&["neg", "sin", "cos"], if self.ternary == 2 { &[] } else { &["+", "-", "*"] });
        let t: &[&str] = if self.ternary > 0 { &["fma", "clamp"] } else { &[] };
        o.operators = sr::Operators::from_names_by_arity::<BOps>(u, b, t).unwrap();
        (o.maxsize, o.maxdepth, o.annealing, o.use_frequency, o.progress) = (30, 30, false, false, false);
        (o.should_simplify, o.should_optimize_constants, o.optimizer_probability, o.optimizer_iterations, o.optimizer_nrestarts) = (self.simplify, self.optimize, self.opt, 3, 1);
        o.mutation_weights = weights(&self.x);
        (o, vec![u.iter().map(|n| op(n, 1)).collect(), ["add", "sub", "mul"].iter().take(b.len()).map(|n| op(n, 2)).collect(), t.iter().map(|n| op(n, 3)).collect()])
    }
    fn member(&self, g: &mut Rng, o: &Options<f64, D>, fam: &Family, td: &TaggedDataset<'_, f64>, ev: &mut Evaluator<f64, D>) -> M {
        let nc = g.usize(0..13);
        let size = 1 + g.usize(0..self.size);
        let mut nodes = gen_tree(g, size, fam, self.nf, nc).nodes();
        let mut consts = Vec::new();
        for n in &mut nodes { if let PNode::Const { idx } = n { if !consts.is_empty() && g.u8(0..5) == 0 { *idx = g.usize(0..consts.len()) as u16; continue; } *idx = consts.len() as u16; consts.push((g.f64() - 0.5) * 6.0); } }
        let mut m = M::from_expr(MemberId(3), None, 3, expr_of(nodes, consts), self.nf);
        m.evaluate(td, o, ev);
        m
    }
    fn weighing(&self) -> Result<(), String> {
        let mut g = Rng::with_seed(self.seed);
        let (o, fam) = self.options();
        let d = dataset(&mut g, self.nf, 3, false);
        let td = TaggedDataset::new(&d, None);
        let mut ev = Evaluator::new(3);
        for _ in 0..6 {
            let m = self.member(&mut g, &o, &fam, &td, &mut ev);
            let mut w = o.mutation_weights.clone();
            condition_mutation_weights(&mut w, &m, &o, self.cms, self.nf);
            let (got, want) = (listed(&w), reference(&self.x, &m, &o, self.cms, self.nf));
            for k in 0..K {
                if !near(got[k], want[k]) { return Err(format!("weight of {} is {} instead of {} for {:?} (complexity {})", NAMES[k], got[k], want[k], m.expr.nodes, m.complexity)); }
            }
        }
        Ok(())
    }
    fn sampling(&self) -> Result<(), String> {
        if self.x.iter().all(|&x| x == 0.0) { return Ok(()); }
        let mut rng = Rng::with_seed(self.seed);
        let w = weights(&self.x);
        let n = 3000;
        let mut seen = [0usize; K];
        for _ in 0..n { seen[number(sample_mutation(&mut rng, &w))] += 1; }
        let total: f64 = self.x.iter().sum();
        for k in 0..K {
            if self.x[k] == 0.0 && seen[k] > 0 { return Err(format!("{} drawn {} times with weight zero", NAMES[k], seen[k])); }
            let p = self.x[k] / total;
            let far = (seen[k] as f64 - n as f64 * p).abs();
            if far > 8.0 * (n as f64 * p * (1.0 - p)).sqrt() + 8.0 { return Err(format!("{} drawn {} times of {n} with share {p}", NAMES[k], seen[k])); }
        }
        Ok(())
    }
    fn step(&self) -> Result<(), String> {
        let mut g = Rng::with_seed(self.seed);
        let (o, fam) = self.options();
        let d = dataset(&mut g, self.nf, 4, false);
        let td = TaggedDataset::new(&d, None);
        let mut ev = Evaluator::new(4);
        let stats = RunningSearchStatistics::new(30, 1000);
        let mut rng = Rng::with_seed(g.u64(..));
        let (mut id, mut birth) = (40u64, 90u64);
        for _ in 0..6 {
            let m = self.member(&mut g, &o, &fam, &td, &mut ev);
            let w = reference(&self.x, &m, &o, self.cms, self.nf);
            if w.iter().all(|&x| x == 0.0) { continue; }
            for _ in 0..4 {
                let (b, acc, _) = next_generation(&m, NextGenerationCtx { rng: &mut rng, dataset: td, temperature: 0.5, curmaxsize: self.cms, stats: &stats, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData });
                let (p, q) = (toks(&m), toks(&b));
                if acc && !(0..K).any(|k| w[k] > 0.0 && explains(k, &p, &q)) {
                    let may: Vec<&str> = (0..K).filter(|&k| w[k] > 0.0).map(|k| NAMES[k]).collect();
                    return Err(format!("only {may:?} may be tried on {:?} {:?}, which became {:?} {:?}", m.expr.nodes, m.expr.consts, b.expr.nodes, b.expr.consts));
                }
                if listed(&o.mutation_weights) != self.x { return Err("the configured weights changed".into()); }
            }
        }
        Ok(())
    }
}
fn main() {
    let r = Runner::new("one evaluation = six members' weights conditioned, 3000 kinds drawn, or six members mutated four times each; distinct = distinct settings");
    let mut g = r.rng("p31");
    let mut k = 0u64;
    while r.time_left() {
        k += 1;
        let mut x = [0.0; K];
        let few = g.usize(0..4);
        for v in &mut x { *v = if few < 3 { 0.0 } else { [0.0, 0.0, 1.0, 0.25, 1e-3, 40.0][g.usize(0..6)] }; }
        for _ in 0..few.min(3) { x[g.usize(0..K)] = [1.0, 0.5, 7.0][g.usize(0..3)]; }
        if g.u8(0..3) == 0 { x[g.usize(0..K)] = 1.0; }
        if g.u8(0..5) == 0 { for v in &mut x { *v *= 1e-18; } }
        let c = C { x, size: [1, 2, 4, 12, 25][g.usize(0..5)], nf: 1 + g.usize(0..3), cms: 1 + g.usize(0..30), simplify: g.u8(0..3) > 0, optimize: g.u8(0..3) > 0, ternary: g.u8(0..3), opt: [0.0, 0.3, 1.0][g.usize(0..3)], seed: g.u64(..) };
        let desc = |w: &str| format!("{w} {c:?}");
        r.case("weights for a member", &k, || desc("weights"), || c.weighing());
        r.case("mutations of a member", &k, || desc("step"), || c.step());
        if k % 7 == 0 { r.case("draws of a kind", &k, || desc("draw"), || c.sampling()); }
    }
    r.finish();
}
