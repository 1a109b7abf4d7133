//! P22: stepping a search engine: amount of work, progress, and what stays found.
use harness::search::*;
use harness::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

type Eng = sr::SearchEngine<f64, BOps, D>;
/// the loss of the options, counting its evaluations
struct Counting { inner: Arc<dyn LossFn<f64> + Send + Sync>, n: Arc<AtomicU64> }
impl LossFn<f64> for Counting {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 { self.n.fetch_add(1, SeqCst); self.inner.loss(yhat, y, w) }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) { self.inner.dloss_dyhat(yhat, y, w, out) }
}
#[derive(Clone, Debug)]
struct C { pops: usize, size: usize, iters: usize, cycles: usize, maxsize: usize, maxdepth: usize, batching: bool, migrate: bool, opt: f64, warm: f32, pars: f64, nf: usize, nr: usize, seed: u64, budgets: Vec<usize> }
fn fp(m: &M) -> String { format!("{:?} {:?} {:x} {:x} {}", m.expr.nodes, bits(&m.expr.consts), m.loss.to_bits(), m.cost.to_bits(), m.complexity) }
fn state(e: &Eng) -> Vec<String> {
    let mut v: Vec<String> = e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map_or("-".into(), fp)).collect();
    v.push(fp(e.best()));
    v
}
impl C {
    fn options(&self) -> (Dataset<f64>, Options<f64, D>, Arc<AtomicU64>) {
        let mut g = Rng::with_seed(self.seed);
        let d = dataset(&mut g, self.nf, self.nr, self.seed % 2 == 0);
        let mut o: Options<f64, D> = Options::default();
        let n = Arc::new(AtomicU64::new(0));
        o.loss = Arc::new(Counting { inner: sr::make_loss(loss_kind(&mut g)), n: n.clone() });
        o.operators = sr::Operators::from_names_by_arity::<BOps>(&["sin", "exp"], &["+", "-", "*"], &[]).unwrap();
        (o.seed, o.populations, o.population_size, o.niterations, o.ncycles_per_iteration) = (self.seed, self.pops, self.size, self.iters, self.cycles);
        (o.maxsize, o.maxdepth, o.batching, o.batch_size, o.migration, o.hof_migration) = (self.maxsize, self.maxdepth, self.batching, 4, self.migrate, self.migrate);
        (o.tournament_selection_n, o.optimizer_probability, o.warmup_maxsize_by, o.progress, o.topn) = (self.size.min(4), self.opt, self.warm, false, 3);
        (o.fraction_replaced, o.parsimony) = (0.3, self.pars);
        (d, o, n)
    }
    fn run(&self) -> Result<(), String> {
        let (d, o, count) = self.options();
        let mut e = Eng::new(d, o);
        let total = self.pops * self.iters;
        if e.total_cycles() != total { return Err(format!("total cycles {} instead of {total}", e.total_cycles())); }
        let mut done = 0;
        let mut evals = e.total_evals();
        if evals < (self.pops * self.size) as u64 { return Err(format!("{evals} evaluations after building {} populations of {}", self.pops, self.size)); }
        for (i, &b) in self.budgets.iter().chain([&usize::MAX, &3, &0]).enumerate() {
            let before = state(&e);
            let (h0, l0) = (e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map(|m| (m.cost, m.loss))).collect::<Vec<_>>(), e.best().loss);
            let valid = check_constraints(&e.best().expr, e.options(), self.maxsize);
            let got = e.step(b);
            let want = b.min(total - done);
            if got != want { return Err(format!("step {i} with budget {b} performed {got} cycles, {want} expected ({done} of {total} done)")); }
            done += got;
            if e.cycles_completed() != done { return Err(format!("after step {i}: {} cycles completed, {done} expected", e.cycles_completed())); }
            if e.is_finished() != (done == total) { return Err(format!("after step {i}: finished = {} at {done} of {total}", e.is_finished())); }
            if e.total_evals() < evals { return Err("the evaluation count went down".into()); }
            if got == 0 && (e.total_evals() != evals || state(&e) != before) { return Err(format!("step {i} performed no cycle but changed the state")); }
            if got > 0 && e.total_evals() == evals && self.cycles > 0 { return Err(format!("step {i} performed {got} cycles without an evaluation")); }
            evals = e.total_evals();
            for (k, (x, y)) in h0.iter().zip(&e.hall_of_fame().best_by_complexity).enumerate() {
                match (x, y) {
                    (Some(_), None) => return Err(format!("the hall of fame lost its member of complexity {k}")),
                    (Some(x), Some(y)) if y.cost > x.0 => return Err(format!("the hall of fame's cost at complexity {k} rose from {} to {}", x.0, y.cost)),
                    _ => {}
                }
            }
            let (v0, v1) = (valid, check_constraints(&e.best().expr, e.options(), self.maxsize));
            if before.last() != state(&e).last() && !v1 { return Err("the best member was replaced by one violating the constraints".into()); }
            if v0 && e.best().loss > l0 { return Err(format!("the best member's loss rose from {l0} to {}", e.best().loss)); }
        }
        // how the work is split makes no difference, nor does running it through the parallel entry with one worker
        let fin = state(&e);
        let n1 = count.load(SeqCst);
        let (d, o, count) = self.options();
        let r = Eng::new(d, o).run_to_completion();
        let mut whole: Vec<String> = r.hall_of_fame.best_by_complexity.iter().map(|m| m.as_ref().map_or("-".into(), fp)).collect();
        whole.push(fp(&r.best));
        if whole != fin { return Err("stepping and running to completion end in different states".into()); }
        if count.load(SeqCst) != n1 { return Err(format!("stepping evaluates {n1} losses, running to completion {}", count.load(SeqCst))); }
        let (d, o, count) = self.options();
        let r = sr::equation_search::<f64, BOps, D>(&d, &o);
        let mut whole: Vec<String> = r.hall_of_fame.best_by_complexity.iter().map(|m| m.as_ref().map_or("-".into(), fp)).collect();
        whole.push(fp(&r.best));
        if count.load(SeqCst) != n1 { return Err(format!("stepping evaluates {n1} losses, equation_search with one worker {}", count.load(SeqCst))); }
        if whole != fin { return Err("stepping and equation_search with one worker end in different states".into()); }
        // the reported members carry their own loss
        let td_o = self.options();
        if !self.batching {
            let base = if td_o.1.use_baseline { baseline_loss_from_zero_expression::<f64, BOps, D>(&td_o.0, td_o.1.loss.as_ref()) } else { None };
            let td = TaggedDataset::new(&td_o.0, base);
            own(&r.best, &td, &td_o.1)?;
        }
        Ok(())
    }
}

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let r = Runner::new("one evaluation = one search (stepped with a list of budgets, run to completion, and run through equation_search with one worker); distinct = distinct settings");
    let base = C { pops: 2, size: 5, iters: 3, cycles: 3, maxsize: 12, maxdepth: 30, batching: false, migrate: true, opt: 0.3, warm: 0.0, pars: 0.0, nf: 2, nr: 8, seed: 1, budgets: vec![1, 2, 0, 1] };
    // the initial members all violate a depth limit of 2: the reported best must not stay one of them
    for seed in 0..40u64 {
        let c = C { pops: 1, maxdepth: 1 + (seed % 2) as usize, size: 2 + (seed % 3) as usize, iters: 12, cycles: 20, seed, budgets: vec![5], ..base.clone() };
        r.case("regression", &seed, || format!("{c:?}: best against the depth limit"), || {
            c.run()?;
            let (d, o, _) = c.options();
            let s = Eng::new(d, o.clone()).run_to_completion();
            let found = s.hall_of_fame.members().count();
            if found >= 1 && !check_constraints(&s.best.expr, &o, o.maxsize) { return Err(format!("best {:?} violates the constraints although {found} members satisfying them were found", s.best.expr.nodes)); }
            Ok(())
        });
    }
    let mut g = r.rng("p22");
    let mut k = 0u64;
    while r.time_left() {
        k += 1;
        let c = C {
            pops: 1 + g.usize(0..4), size: 2 + g.usize(0..8), iters: g.usize(0..5), cycles: g.usize(0..6), maxsize: [1, 3, 5, 12, 30][g.usize(0..5)], maxdepth: [30, 30, 30, 2][g.usize(0..4)],
            batching: g.u8(0..3) == 0, migrate: g.bool(), opt: [0.0, 0.3, 1.0][g.usize(0..3)], warm: [0.0, 0.5][g.usize(0..2)], pars: [0.0, 0.01, 1.0, 10.0][g.usize(0..4)], nf: 1 + g.usize(0..3), nr: 1 + g.usize(0..10), seed: g.u64(..),
            budgets: (0..g.usize(0..6)).map(|_| if g.u8(0..12) == 0 { [1 << 32, 1 << 16, usize::MAX][g.usize(0..3)] } else { g.usize(0..4) }).collect(),
        };
        r.case("random", &k, || format!("{c:?}"), || c.run());
    }
    r.finish();
}
