//! P21: mutation, crossover, cycles and searches against independently recomputed complexity, loss and cost.
use de::node::PNode;
use harness::search::*;
use harness::*;

const KINDS: [&str; 13] = ["constant", "operator", "feature", "swap", "rotate", "add", "insert", "delete", "simplify", "randomize", "nothing", "optimize", "mix"];
fn weights(kind: usize) -> MutationWeights {
    let mut w = MutationWeights { mutate_constant: 0.0, mutate_operator: 0.0, mutate_feature: 0.0, swap_operands: 0.0, rotate_tree: 0.0, add_node: 0.0, insert_node: 0.0, delete_node: 0.0, simplify: 0.0, randomize: 0.0, do_nothing: 1e-3, optimize: 0.0, ..MutationWeights::default() };
    let one = 1.0;
    match kind {
        0 => w.mutate_constant = one, 1 => w.mutate_operator = one, 2 => w.mutate_feature = one, 3 => w.swap_operands = one, 4 => w.rotate_tree = one, 5 => w.add_node = one, 6 => w.insert_node = one,
        7 => w.delete_node = one, 8 => w.simplify = one, 9 => w.randomize = one, 10 => w.do_nothing = one, 11 => w.optimize = one,
        _ => { w = MutationWeights::default(); w.simplify = 0.0; }
    }
    w
}
#[derive(Clone, Debug)]
struct C { kind: usize, size: usize, nf: usize, nr: usize, rows: usize, weighted: bool, maxsize: usize, maxdepth: usize, cms: usize, n: usize, cross: f64, batching: bool, skip: bool, annealing: bool, freq: bool, nested: bool, heavy: bool, cycles: usize, opt: f64, seed: u64 }
struct World { d: Dataset<f64>, batch: Dataset<f64>, o: Options<f64, D>, base: Option<f64>, fam: Family, g: Rng }
impl C {
    fn world(&self) -> World {
        let mut g = Rng::with_seed(self.seed);
        let d = dataset(&mut g, self.nf, self.nr, self.weighted);
        let batch = dataset(&mut g, self.nf, self.rows, self.weighted);
        let mut o: Options<f64, D> = Options::default();
        o.loss = sr::make_loss(loss_kind(&mut g));
        // simplification may reorder arithmetic, so it is compared on polynomials only
        let (u, b): (&[&str], &[&str]) = if self.kind == 8 { (&["neg"], &["+", "-", "*"]) } else { (&["sin", "exp", "sqrt"], &["+", "-", "*", "/"]) };
        o.operators = sr::Operators::from_names_by_arity::<BOps>(u, b, &[]).unwrap();
        let fam: Family = vec![u.iter().map(|n| op(n, 1)).collect(), ["add", "sub", "mul", "div"].iter().take(b.len()).map(|n| op(n, 2)).collect()];
        o.mutation_weights = weights(self.kind);
        (o.maxsize, o.maxdepth, o.batching, o.batch_size, o.population_size, o.crossover_probability) = (self.maxsize, self.maxdepth, self.batching, self.rows, self.n, self.cross);
        (o.skip_mutation_failures, o.annealing, o.use_frequency, o.ncycles_per_iteration, o.tournament_selection_n) = (self.skip, self.annealing, self.freq, self.cycles, 1 + self.n / 3);
        (o.optimizer_probability, o.optimizer_iterations, o.optimizer_nrestarts, o.progress) = (self.opt, 3, 1, false);
        (o.should_optimize_constants, o.should_simplify) = (g.u8(0..3) > 0, g.u8(0..4) > 0);
        if self.heavy { o.operator_complexity_overrides.insert(de::OpId { arity: 2, id: fam[1][2] }, 3); o.variable_complexities = Some(vec![2; self.nf]); }
        if self.nested { o.nested_constraints.add_nested_constraint(de::OpId { arity: 2, id: fam[1][2] }, de::OpId { arity: 2, id: fam[1][2] }, 0); }
        let base = [None, Some(0.5), Some(3.0)][g.usize(0..3)];
        World { d, batch, o, base, fam, g }
    }
    fn parent(&self, w: &mut World, id: u64, td: &TaggedDataset<'_, f64>, ev: &mut Evaluator<f64, D>) -> M {
        let nc = w.g.usize(0..3);
        let size = 1 + w.g.usize(0..self.size);
        let nodes = gen_tree(&mut w.g, size, &w.fam, self.nf, nc).nodes();
        let consts: Vec<f64> = (0..nc).map(|_| (w.g.f64() - 0.5) * 6.0).collect();
        let mut m = M::from_expr(MemberId(id), None, id, expr_of(nodes, consts), self.nf);
        m.evaluate(td, &w.o, ev);
        m
    }
}
fn same_expr(a: &M, b: &M) -> bool { a.expr.nodes == b.expr.nodes && bits(&a.expr.consts) == bits(&b.expr.consts) }
fn same_scores(a: &M, b: &M) -> bool { a.complexity == b.complexity && same_bits(a.loss, b.loss) && same_bits(a.cost, b.cost) }
fn sound(m: &M, nf: usize) -> Result<(), String> {
    parse(&m.expr.nodes).ok_or_else(|| format!("not a tree: {:?}", m.expr.nodes))?;
    plan_ok(m, nf)
}
fn allowed(m: &M, o: &Options<f64, D>, cms: usize) -> Result<(), String> {
    let cx = complexity(&m.expr.nodes, o);
    if cx > cms { return Err(format!("complexity {cx} exceeds the limit {cms}: {:?}", m.expr.nodes)); }
    let dep = parse(&m.expr.nodes).unwrap().depth();
    if dep > o.maxdepth { return Err(format!("depth {dep} exceeds the limit {}: {:?}", o.maxdepth, m.expr.nodes)); }
    if !check_constraints(&m.expr, o, cms) { return Err(format!("violates the constraints: {:?}", m.expr.nodes)); }
    Ok(())
}
/// own complexity, own cost of the stored loss, and the loss close to that of the function
fn shorter(m: &M, o: &Options<f64, D>, tds: &[&TaggedDataset<'_, f64>]) -> Result<(), String> {
    let cx = complexity(&m.expr.nodes, o);
    if m.complexity != cx { return Err(format!("stored complexity {} but the expression's is {cx}: {:?}", m.complexity, m.expr.nodes)); }
    if m.loss.is_finite() && !near(m.cost, ref_cost(m.loss, cx, o, tds[0].baseline_loss)) { return Err(format!("stored cost {} of loss {} complexity {cx}", m.cost, m.loss)); }
    if !m.loss.is_finite() || m.loss > 1e12 { return Ok(()); }
    if tds.iter().any(|td| ref_loss(&m.expr.nodes, &m.expr.consts, td.data, o).is_some_and(|l| near(l, m.loss) || l > 1e12)) { return Ok(()); }
    Err(format!("stored loss {} but the expression's is {:?}: {:?} {:?}", m.loss, ref_loss(&m.expr.nodes, &m.expr.consts, tds[0].data, o), m.expr.nodes, m.expr.consts))
}
impl C {
    fn fair(&self, m: &M, o: &Options<f64, D>, tds: &[&TaggedDataset<'_, f64>]) -> Result<(), String> {
        let mut e = Ok(());
        for td in tds { e = own(m, td, o); if e.is_ok() { return e; } }
        if self.kind == 8 { shorter(m, o, tds) } else { e }
    }
    fn step(&self) -> Result<(), String> {
        let mut w = self.world();
        let d = w.d.clone();
        let td = TaggedDataset::new(&d, w.base);
        let mut ev = Evaluator::new(self.nr);
        let stats = RunningSearchStatistics::new(self.maxsize, 1000);
        let p = self.parent(&mut w, 5, &td, &mut ev);
        let q = self.parent(&mut w, 6, &td, &mut ev);
        let (mut id, mut birth) = (40u64, 90u64);
        let mut rng = Rng::with_seed(w.g.u64(..));
        for round in 0..4 {
            let (id0, birth0) = (id, birth);
            let (b, acc, _) = next_generation(&p, NextGenerationCtx { rng: &mut rng, dataset: td, temperature: 0.5, curmaxsize: self.cms, stats: &stats, options: &w.o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData });
            let ctx = |e: String| format!("mutation round {round} accepted={acc}: {e}");
            if (b.id, b.parent, b.birth, id, birth) != (MemberId(id0), Some(p.id), birth0, id0 + 1, birth0 + 1) { return Err(ctx(format!("identity {:?} {:?} {}", b.id, b.parent, b.birth))); }
            sound(&b, self.nf).map_err(ctx)?;
            if !acc && (!same_expr(&b, &p) || !same_scores(&b, &p)) { return Err(ctx(format!("not the parent's: {:?} loss {} cost {} (parent {:?} {} {})", b.expr.nodes, b.loss, b.cost, p.expr.nodes, p.loss, p.cost))); }
            if acc {
                allowed(&b, &w.o, self.cms).map_err(ctx)?;
                self.fair(&b, &w.o, &[&td]).map_err(ctx)?;
            }
        }
        for round in 0..2 {
            let (id0, birth0) = (id, birth);
            let (x, y, acc, _) = crossover_generation(&p, &q, CrossoverCtx { rng: &mut rng, dataset: td, curmaxsize: self.cms, options: &w.o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData });
            let ctx = |e: String| format!("crossover round {round} accepted={acc}: {e}");
            for (b, par, k) in [(&x, &p, 0), (&y, &q, 1)] {
                sound(b, self.nf).map_err(ctx)?;
                if !acc && (!same_expr(b, par) || !same_scores(b, par)) { return Err(ctx(format!("not a copy of its parent: {:?}", b.expr.nodes))); }
                if acc {
                    if (b.id, b.parent, b.birth) != (MemberId(id0 + k), Some(par.id), birth0 + k) { return Err(ctx(format!("identity {:?} {:?} {}", b.id, b.parent, b.birth))); }
                    allowed(b, &w.o, self.cms).map_err(ctx)?;
                    own(b, &td, &w.o).map_err(ctx)?;
                }
            }
            let n = if acc { 2 } else { 0 };
            if (id, birth) != (id0 + n, birth0 + n) { return Err(ctx("counters".into())); }
        }
        Ok(())
    }
    fn cycle(&self) -> Result<(), String> {
        let mut w = self.world();
        let (d, bd) = (w.d.clone(), w.batch.clone());
        let td = TaggedDataset::new(&d, w.base);
        let tb = if self.batching { TaggedDataset::new(&bd, w.base) } else { td };
        let mut ev = Evaluator::new(self.nr);
        let mut gc = de::GradContext::new(self.nr);
        let stats = RunningSearchStatistics::new(self.maxsize, 1000);
        let mut pop = Population::new((0..self.n as u64).map(|i| self.parent(&mut w, i, &td, &mut ev)).collect());
        let start: Vec<M> = pop.members.clone();
        let (mut id, mut birth) = (1000u64, 2000u64);
        let mut rng = Rng::with_seed(w.g.u64(..));
        let mut ctx = IterationCtx { rng: &mut rng, full_dataset: td, curmaxsize: self.cms, stats: &stats, options: &w.o, evaluator: &mut ev, grad_ctx: &mut gc, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData };
        let (_, hall) = s_r_cycle(&mut pop, &mut ctx, tb);
        if pop.len() != self.n { return Err(format!("the population has {} members instead of {}", pop.len(), self.n)); }
        for m in &pop.members {
            let c = |e: String| format!("a member after the cycle: {e}");
            sound(m, self.nf).map_err(c)?;
            self.fair(m, &w.o, &[&tb, &td]).map_err(c)?;
            if !start.iter().any(|s| same_expr(s, m)) { allowed(m, &w.o, self.cms).map_err(c)?; }
        }
        for (k, m) in hall.best_by_complexity.iter().enumerate() {
            if let Some(m) = m {
                let c = |e: String| format!("hall of fame of the cycle, complexity {k}: {e}");
                if m.complexity != k { return Err(c(format!("a member of complexity {}", m.complexity))); }
                sound(m, self.nf).map_err(c)?;
                allowed(m, &w.o, self.cms).map_err(c)?;
                if self.batching { own(m, &td, &w.o).map_err(c)?; } else { self.fair(m, &w.o, &[&td]).map_err(c)?; }
            }
        }
        let ids: Vec<MemberId> = pop.members.iter().map(|m| m.id).collect();
        optimize_and_simplify_population(&mut pop, &mut ctx, tb);
        if pop.members.iter().map(|m| m.id).collect::<Vec<_>>() != ids { return Err("optimisation changed the members".into()); }
        for m in &pop.members {
            let c = |e: String| format!("a member after optimisation: {e}");
            sound(m, self.nf).map_err(c)?;
            own(m, &td, &w.o).map_err(c)?;
        }
        Ok(())
    }
    fn search(&self) -> Result<(), String> {
        let mut w = self.world();
        (w.o.seed, w.o.populations, w.o.niterations, w.o.topn) = (self.seed, 2, 3, 3);
        w.o.mutation_weights.simplify = 0.0;
        w.o.batch_size = self.nr.min(self.rows);
        let (d, o) = (w.d.clone(), w.o);
        let mut e = sr::SearchEngine::<f64, BOps, D>::new(d, o);
        for turn in 0..3 {
            let base = if e.options().use_baseline { baseline_loss_from_zero_expression::<f64, BOps, D>(e.dataset(), e.options().loss.as_ref()) } else { None };
            let td = TaggedDataset::new(e.dataset(), base);
            for (k, m) in e.hall_of_fame().best_by_complexity.iter().enumerate() {
                if let Some(m) = m {
                    let c = |x: String| format!("hall of fame after {turn} rounds, complexity {k}: {x}");
                    if m.complexity != k { return Err(c(format!("a member of complexity {}", m.complexity))); }
                    sound(m, self.nf).map_err(c)?;
                    allowed(m, e.options(), self.maxsize).map_err(c)?;
                    own(m, &td, e.options()).map_err(c)?;
                }
            }
            own(e.best(), &td, e.options()).map_err(|x| format!("best member after {turn} rounds: {x}"))?;
            e.step(2);
        }
        Ok(())
    }
}

fn main() {
    let r = Runner::new("one evaluation = one member mutated four times and crossed twice, one population evolved and optimised for a cycle, or one search of three rounds; distinct = distinct settings");
    let mut g = r.rng("p21");
    let mut k = 0u64;
    while r.time_left() {
        k += 1;
        let kind = (k % 13) as usize;
        let maxsize = [5, 8, 12, 20][g.usize(0..4)];
        let c = C {
            kind, size: if kind == 8 { 7 } else { [1, 3, 6, 12][g.usize(0..4)] }, nf: 1 + g.usize(0..3), nr: [1, 3, 12][g.usize(0..3)], rows: [1, 4, 20][g.usize(0..3)], weighted: g.bool(), maxsize, maxdepth: [2, 3, 5, 30][g.usize(0..4)],
            cms: 1 + g.usize(0..maxsize), n: 2 + g.usize(0..8), cross: [0.0, 0.2, 1.0][g.usize(0..3)], batching: g.bool(), skip: g.bool(), annealing: g.bool(), freq: g.bool(), nested: g.u8(0..4) == 0, heavy: g.u8(0..4) == 0,
            cycles: 1 + g.usize(0..4), opt: [0.0, 0.3, 1.0][g.usize(0..3)], seed: g.u64(..),
        };
        let c = if kind == 8 { C { maxsize: 7, cms: c.cms.min(7), heavy: false, ..c } } else { c };
        let desc = |w: &str| format!("{w} {} {c:?}", KINDS[kind]);
        r.case("mutation and crossover", &k, || desc("step"), || c.step());
        if k % 3 == 0 { r.case("cycles", &k, || desc("cycle"), || c.cycle()); }
        if k % 29 == 0 { r.case("searches", &k, || desc("search"), || c.search()); }
    }
    r.finish();
}
