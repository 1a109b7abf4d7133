//! P33: costs against the written rule, baselines against the loss of predicting zero, and whole searches.
use harness::search::*;
use harness::*;
use ndarray::{Array1, Array2};

/// the squared errors summed, not averaged (a loss of the user's own); not a number from `bad` rows on
struct Sum { bad: usize }
impl LossFn<f64> for Sum {
    fn loss(&self, p: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        if p.len() >= self.bad { return f64::NAN; }
        (0..p.len()).map(|i| (p[i] - y[i]).powi(2) * w.map_or(1.0, |w| w[i])).sum()
    }
    fn dloss_dyhat(&self, p: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        for i in 0..p.len() { out[i] = 2.0 * (p[i] - y[i]) * w.map_or(1.0, |w| w[i]); }
    }
}
/// loss over the normaliser, plus parsimony times complexity
fn rule(loss: f64, cx: usize, pars: f64, used: bool, base: Option<f64>) -> f64 {
    let n = match base { Some(b) if used && b.is_finite() && b >= 0.01 => b, _ => 0.01 };
    loss / n + pars * cx as f64
}
fn costs(g: &mut Rng) -> Result<(), String> {
    let v = |g: &mut Rng| { let m = g.f64() * 9.0 + 1.0; m * [1e-9, 1e-4, 1e-3, 0.0011, 0.1, 1.0, 37.0, 1e6, 1e40][g.usize(0..9)] };
    for _ in 0..200 {
        let loss = match g.u8(0..12) { 0 => 0.0, 1 => -v(g), _ => v(g) };
        let base = match g.u8(0..12) { 0 => None, 1 => Some(0.01), 2 => Some(f64::NAN), 3 => Some(f64::INFINITY), 4 => Some(0.0), 5 => Some(-v(g)), 6 => Some(0.0099), 7 => Some(0.0101), _ => Some(v(g)) };
        let pars = [0.0, 1e-5, 0.0032, 0.5, 40.0, -0.1][g.usize(0..6)];
        let cx = [0, 1, 2, 7, 20, 255, 256, 257, 1000, 65536, 70000][g.usize(0..11)];
        for used in [false, true] {
            let got = loss_to_cost::<f64>(loss, cx, pars, used, base);
            let want = rule(loss, cx, pars, used, base);
            if !(got == want || (got - want).abs() <= 1e-12 * (got.abs() + want.abs())) { return Err(format!("loss_to_cost({loss}, {cx}, {pars}, {used}, {base:?}) = {got} instead of {want}")); }
            if loss.abs() < 1e30 && base.is_none_or(|b| b.is_nan() || b.is_infinite() || b.abs() < 1e30) && (base.unwrap_or(1.0) - 0.01).abs() > 1e-6 {
                let got = loss_to_cost::<f32>(loss as f32, cx, pars, used, base.map(|b| b as f32)) as f64;
                if !((got - want).abs() <= 1e-4 * (loss.abs() / 0.01 + (pars * cx as f64).abs()).max(want.abs())) { return Err(format!("in single precision: loss_to_cost({loss}, {cx}, {pars}, {used}, {base:?}) = {got} instead of {want}")); }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct C { nf: usize, nr: usize, weighted: bool, scale: f64, shift: f64, own: u8, used: bool, pars: f64, batching: bool, rows: usize, seed: u64 }
impl C {
    fn data(&self, g: &mut Rng) -> Dataset<f64> {
        let x = Array2::from_shape_fn((self.nf, self.nr), |_| (g.f64() - 0.5) * 6.0);
        let y = Array1::from_shape_fn(self.nr, |r| self.shift + self.scale * (x[(0, r)] * x[(self.nf - 1, r)] + g.f64()));
        let (first, top) = ([7.0, 1.0, 0.5, 0.0][g.usize(0..4)], [1.0, 0.9, 30.0][g.usize(0..3)]);
        let w = self.weighted.then(|| Array1::from_shape_fn(self.nr, |r| if r == 0 && self.nr > 1 { first } else { 0.05 * top + 0.95 * top * g.f64() }));
        Dataset::with_weights_and_names(x, y, w, vec![])
    }
    fn opts(&self, g: &mut Rng) -> Options<f64, D> {
        let mut o: Options<f64, D> = Options::default();
        o.loss = match self.own { 0 => std::sync::Arc::new(Sum { bad: usize::MAX }), 1 => std::sync::Arc::new(Sum { bad: self.nr }), _ => sr::make_loss(loss_kind(g)) };
        o.operators = sr::Operators::from_names_by_arity::<BOps>(&["sin", "exp"], &["+", "-", "*", "/"], &[]).unwrap();
        (o.use_baseline, o.parsimony, o.batching, o.batch_size, o.seed, o.progress) = (self.used, self.pars, self.batching, self.rows, g.u64(..), false);
        (o.populations, o.population_size, o.niterations, o.ncycles_per_iteration, o.tournament_selection_n, o.maxsize) = (2, 5, 2, 2, 2, 10);
        (o.optimizer_probability, o.optimizer_iterations, o.optimizer_nrestarts) = (0.3, 2, 1);
        o
    }
    /// the loss of predicting zero in every row, if finite
    fn base(&self, d: &Dataset<f64>, o: &Options<f64, D>) -> Option<f64> {
        let l = o.loss.loss(&vec![0.0; d.n_rows], d.y.as_slice().unwrap(), d.weights.as_ref().and_then(|w| w.as_slice()));
        l.is_finite().then_some(l)
    }
    fn baseline(&self) -> Result<(), String> {
        let mut g = Rng::with_seed(self.seed);
        let (d, o) = (self.data(&mut g), self.opts(&mut g));
        let got = baseline_loss_from_zero_expression::<f64, BOps, D>(&d, o.loss.as_ref());
        let want = self.base(&d, &o);
        if got.map(f64::to_bits) != want.map(f64::to_bits) { return Err(format!("the baseline is {got:?} but predicting zero has loss {want:?}")); }
        Ok(())
    }
    fn check(&self, m: &M, what: &str, o: &Options<f64, D>, base: Option<f64>) -> Result<(), String> {
        let cx = complexity(&m.expr.nodes, o);
        let want = if m.loss.is_finite() { rule(m.loss, cx, self.pars, self.used, base) } else { f64::INFINITY };
        if !near(m.cost, want) { return Err(format!("{what}: loss {} and complexity {cx} with baseline {base:?} cost {want}, but {} is recorded: {:?} {:?}", m.loss, m.cost, m.expr.nodes, m.expr.consts)); }
        Ok(())
    }
    /// mutations, crossovers and a cycle with optimisation, under a baseline below, near or above the members' losses
    fn steps(&self) -> Result<(), String> {
        let mut g = Rng::with_seed(self.seed);
        let (d, mut o) = (self.data(&mut g), self.opts(&mut g));
        let mut w = MutationWeights { mutate_constant: 0.0, mutate_operator: 0.0, mutate_feature: 0.0, swap_operands: 0.0, rotate_tree: 0.0, add_node: 0.0, insert_node: 0.0, delete_node: 0.0, simplify: 0.0, randomize: 0.0, do_nothing: 1e-3, optimize: 0.0, ..MutationWeights::default() };
        match g.u8(0..8) { 0 => w.mutate_constant = 1.0, 1 => w.add_node = 1.0, 2 => w.delete_node = 1.0, 3 => w.randomize = 1.0, 4 => w.optimize = 1.0, 5 => w = MutationWeights::default(), _ => w.simplify = 1.0 }
        o.mutation_weights = w;
        let fam: Family = vec![vec![op("sin", 1), op("exp", 1)], ["add", "sub", "mul"].iter().map(|n| op(n, 2)).collect()];
        let mut ev = Evaluator::new(d.n_rows);
        let mut parents = vec![];
        let bare = TaggedDataset::new(&d, None);
        for i in 0..5u64 {
            let size = 1 + g.usize(0..7);
            let nodes = gen_tree(&mut g, size, &fam, self.nf, 2).nodes();
            let mut m = M::from_expr(MemberId(i), None, i, expr_of(nodes, vec![g.f64() * 3.0, -1.25]), self.nf);
            m.evaluate(&bare, &o, &mut ev);
            parents.push(m);
        }
        let l = parents[0].loss;
        let base = match g.u8(0..8) { 0 => None, 1 => Some(0.02), 2 => Some(0.003), 3 => Some(l / 3.0), 4 => Some(l * 2.0), 5 => Some(l), 6 => Some(1e9), _ => self.base(&d, &o) };
        let td = TaggedDataset::new(&d, base);
        for m in &mut parents { m.evaluate(&td, &o, &mut ev); self.check(m, "an evaluated member", &o, base)?; }
        let stats = RunningSearchStatistics::new(o.maxsize, 1000);
        let mut rng = Rng::with_seed(g.u64(..));
        let (mut id, mut birth) = (40u64, 90u64);
        for i in 0..5 {
            let (b, _, _) = next_generation(&parents[i], NextGenerationCtx { rng: &mut rng, dataset: td, temperature: 0.5, curmaxsize: o.maxsize, stats: &stats, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData });
            self.check(&b, &format!("a mutation of {:?} {:?}", parents[i].expr.nodes, parents[i].expr.consts), &o, base)?;
            let (x, y, _, _) = crossover_generation(&parents[i], &parents[(i + 1) % 5], CrossoverCtx { rng: &mut rng, dataset: td, curmaxsize: o.maxsize, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData });
            self.check(&x, "a crossover", &o, base)?;
            self.check(&y, "a crossover", &o, base)?;
        }
        let mut gc = de::GradContext::new(d.n_rows);
        let mut pop = Population::new(parents);
        let mut ctx = IterationCtx { rng: &mut rng, full_dataset: td, curmaxsize: o.maxsize, stats: &stats, options: &o, evaluator: &mut ev, grad_ctx: &mut gc, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData };
        let (_, hall) = s_r_cycle(&mut pop, &mut ctx, td);
        for m in hall.best_by_complexity.iter().flatten().chain(&pop.members) { self.check(m, "after a cycle", &o, base)?; }
        optimize_and_simplify_population(&mut pop, &mut ctx, td);
        for m in &pop.members { self.check(m, "after the optimisation phase", &o, base)?; }
        Ok(())
    }
    fn search(&self) -> Result<(), String> {
        let mut g = Rng::with_seed(self.seed);
        let (d, o) = (self.data(&mut g), self.opts(&mut g));
        let base = self.base(&d, &o);
        if g.u8(0..4) == 0 {
            let r = sr::equation_search::<f64, BOps, D>(&d, &o);
            for m in r.hall_of_fame.best_by_complexity.iter().flatten() { self.check(m, "hall of fame of equation_search", &o, base)?; }
            return self.check(&r.best, "best member of equation_search", &o, base);
        }
        let mut e = sr::SearchEngine::<f64, BOps, D>::new(d, o);
        for turn in 0..4 {
            for m in e.hall_of_fame().best_by_complexity.iter().flatten() { self.check(m, &format!("hall of fame after {turn} cycles"), e.options(), base)?; }
            self.check(e.best(), &format!("best member after {turn} cycles"), e.options(), base)?;
            e.step(1);
        }
        let o = self.opts(&mut { let mut g = Rng::with_seed(self.seed); let _ = self.data(&mut g); g });
        let r = e.run_to_completion();
        for m in r.hall_of_fame.best_by_complexity.iter().flatten() { self.check(m, "hall of fame at the end", &o, base)?; }
        self.check(&r.best, "best member at the end", &o, base)
    }
}
fn main() {
    let r = Runner::new("one evaluation = 400 costs, one baseline, five members mutated, crossed, evolved and optimised, or one small search looked at after every cycle; distinct = distinct settings");
    let mut g = r.rng("p33");
    let mut k = 0u64;
    while r.time_left() {
        k += 1;
        let nr = [1, 2, 9, 40][g.usize(0..4)];
        let c = C {
            nf: 1 + g.usize(0..3), nr, weighted: g.bool(), scale: [0.0, 1e-3, 0.02, 1.0, 30.0, 1e200][g.usize(0..6)], shift: [0.0, 0.0, 1.0, -50.0, 1e-3][g.usize(0..5)],
            own: g.u8(0..6), used: g.u8(0..4) > 0, pars: [0.0, 0.0032, 0.5, 7.0][g.usize(0..4)], batching: g.bool(), rows: [1, 3, 50][g.usize(0..3)], seed: g.u64(..),
        };
        let desc = |w: &str| format!("{w} {c:?}");
        let s = g.u64(..);
        r.case("costs", &k, || format!("costs seed {s}"), || costs(&mut Rng::with_seed(s)));
        r.case("baselines", &k, || desc("baseline"), || c.baseline());
        if k % 2 == 0 && c.scale < 1e100 { r.case("steps", &k, || desc("steps"), || c.steps()); }
        if k % 4 == 0 && c.scale < 1e100 { r.case("searches", &k, || desc("search"), || c.search()); }
    }
    r.finish();
}
