//! P19: tournament selection, weighted choice.
use harness::sr::verif_hooks::*;
use harness::*;

const D: usize = 3;
type Pop = Population<f64, ModOps, D>;

fn weighted(w: &[f64], seed: u64, draws: usize) -> Result<(), String> {
    let ok = !w.is_empty() && w.iter().all(|v| v.is_finite() && *v >= 0.0) && { let t: f64 = w.iter().sum(); t.is_finite() && t > 0.0 };
    for d in 0..draws as u64 {
        let got = guarded(|| weighted_index(&mut Rng::with_seed(seed.wrapping_add(d)), w));
        match (ok, got) {
            (true, Ok(i)) if i < w.len() && w[i] > 0.0 => {}
            (true, Ok(i)) => return Err(format!("weighted choice returned item {i} of {}, weight {:?} (stream {})", w.len(), w.get(i), seed.wrapping_add(d))),
            (true, Err(e)) => return Err(format!("weighted choice panicked on usable weights: {e}")),
            (false, Err(_)) => {}
            (false, Ok(i)) => return Err(format!("weighted choice accepted unusable weights and returned {i}")),
        }
    }
    Ok(())
}

struct Tour { costs: Vec<f64>, sizes: Vec<usize>, freq: Vec<f64>, n: usize, p: f32, use_freq: bool, scale: f64, seed: u64 }
impl Tour {
    fn desc(&self) -> String { format!("tournament of {} out of {} members, p={} use_frequency={} scaling={} seed={} costs {:?} sizes {:?} frequencies {:?}", self.n, self.costs.len(), self.p, self.use_freq, self.scale, self.seed, self.costs, self.sizes, self.freq) }
    fn adj(&self, i: usize) -> f64 {
        if !self.use_freq { return self.costs[i]; }
        let f = if self.sizes[i] >= 1 && self.sizes[i] <= self.freq.len() { self.freq[self.sizes[i] - 1] } else { 0.0 };
        self.costs[i] * (self.scale * f).exp().min(f64::MAX)
    }
    fn run(&self) -> Result<(), String> {
        let leaf = vec![de::node::PNode::Var { feature: 0 }];
        let len = self.costs.len();
        let pop = Pop::new((0..len).map(|i| member::<D>(i as u64, i as u64, leaf.clone(), self.sizes[i], self.costs[i], self.costs[i])).collect());
        let mut o: Options<f64, D> = Options::default();
        o.maxsize = self.freq.len();
        o.tournament_selection_n = self.n;
        o.tournament_selection_p = self.p;
        o.use_frequency_in_tournament = self.use_freq;
        o.adaptive_parsimony_scaling = self.scale;
        let mut st = RunningSearchStatistics::new(self.freq.len(), 100);
        st.normalized_frequencies = self.freq.clone();
        let mut g = Rng::with_seed(self.seed);
        let take = self.n.min(len);
        for _ in 0..4 {
            let m = best_of_sample(&mut g, &pop, &st, &o);
            let i = m.id.0 as usize;
            if i >= len || m.cost.to_bits() != self.costs[i].to_bits() || m.complexity != self.sizes[i] { return Err(format!("selected member {i} is not a member of the population")); }
            // the draw is a set of `take` distinct members: with probability one, at least take-1 members are no better
            let a = self.adj(i);
            let no_better = (0..len).filter(|&j| j != i && (self.adj(j) >= a || self.adj(j).is_nan())).count();
            if self.p >= 1.0 && !a.is_nan() && no_better + 1 < take { return Err(format!("selected member {i} (adjusted cost {a}) although only {no_better} other members are no better, in a tournament of {take}")); }
            if self.p >= 1.0 && a.is_nan() && (0..len).filter(|&j| self.adj(j).is_nan()).count() < take { return Err(format!("selected member {i} without a comparable cost although at most {} of the {take} drawn can be such", take - 1)); }
        }
        Ok(())
    }
}

/// Draws of n out of len with distinct members: the expected rank of the best one is (len - n) / (n + 1).
/// Fewer distinct members than n make it larger; more than six standard errors above is no chance.
fn distinct_draws(n: usize, len: usize, draws: usize, seed: u64) -> Result<(), String> {
    let leaf = vec![de::node::PNode::Var { feature: 0 }];
    let pop = Pop::new((0..len).map(|i| member::<D>(i as u64, i as u64, leaf.clone(), 1, i as f64, i as f64)).collect());
    let o: Options<f64, D> = Options { tournament_selection_n: n, tournament_selection_p: 1.0, use_frequency_in_tournament: false, ..Default::default() };
    let st = RunningSearchStatistics::new(3, 100);
    let mut g = Rng::with_seed(seed);
    let (mut s, mut q) = (0.0f64, 0.0f64);
    for _ in 0..draws { let k = best_of_sample(&mut g, &pop, &st, &o).id.0 as f64; s += k; q += k * k; }
    let d = draws as f64;
    let (mean, want) = (s / d, (len - n) as f64 / (n + 1) as f64);
    let se = ((q / d - mean * mean) / d).sqrt();
    if mean > want + 6.0 * se { return Err(format!("the best of {n} distinct members out of {len} has expected rank {want}; over {draws} draws (stream {seed}) it is {mean} with standard error {se}: fewer distinct members are drawn")); }
    Ok(())
}

fn main() {
    let r = Runner::new("one evaluation = one weight list with a range of random streams, or one tournament setting with four draws; distinct = distinct settings");
    // rounding can leave the target past the last weight (known streams)
    let mut w = vec![1.0f64];
    w.extend(std::iter::repeat_n(1.01 * 2f64.powi(-53), 1 << 20));
    w.push(0.0);
    r.case("regression", &"weighted", || "weights 1, 2^20 times 1.01 * 2^-53, 0; stream 25349959".into(), || weighted(&w, 25349959, 1));
    // a perfect member whose frequency penalty overflows has no adjusted cost of its own
    for n in [3usize, 15, 25, 50, 100] {
        for seed in 0..20u64 {
            let mut g = Rng::with_seed(seed);
            let len = 100;
            let t = Tour { costs: (0..len).map(|_| if g.u8(0..3) == 0 { 0.0 } else { g.f64() }).collect(), sizes: (0..len).map(|_| 1 + g.usize(0..2)).collect(), freq: vec![0.9, 0.1], n, p: 1.0, use_freq: true, scale: 1040.0, seed };
            r.case("zero cost", &(n, seed), || t.desc(), || t.run());
        }
    }
    for (n, len) in [(25usize, 625usize), (25, 300)] {
        r.case("distinct draws", &(n, len), || format!("tournaments of {n} out of {len} members of different cost"), || distinct_draws(n, len, 1_000_000, 7));
    }
    // every weight list of up to 4 entries over a few values
    let vals = [0.0, 1.0, 0.25, 1e-300, -1.0, f64::NAN, f64::INFINITY];
    for n in 0..=4usize {
        for c in 0..vals.len().pow(n as u32) {
            let w: Vec<f64> = (0..n).map(|i| vals[c / vals.len().pow(i as u32) % vals.len()]).collect();
            r.case("exhaustive weights", &bits(&w), || format!("weights {w:?}"), || weighted(&w, c as u64, 4));
        }
    }
    let mut rng = r.rng("p19");
    let mut k = 0u64;
    while r.time_left() {
        k += 1;
        if k % 3 == 0 {
            let n = 1 + rng.usize(0..30);
            let s = rng.u64(..);
            let w: Vec<f64> = (0..n).map(|_| match rng.u8(0..8) { 0..=3 => 0.0, 4 => 1e-320, 5 => 1e300, _ => rng.f64() }).collect();
            r.case("random weights", &(bits(&w), s), || format!("weights {w:?} stream {s}"), || weighted(&w, s, 8));
        } else {
            let len = 1 + rng.usize(0..60);
            let ms = 1 + rng.usize(0..8);
            let t = Tour {
                costs: (0..len).map(|_| match rng.u8(0..12) { 0 => 0.0, 1 => f64::INFINITY, 2 => 1.0, 3 => -1.0, _ => rng.f64() * 10.0 }).collect(),
                sizes: (0..len).map(|_| rng.usize(0..ms + 3)).collect(),
                freq: { let mut f: Vec<f64> = (0..ms).map(|_| rng.f64()).collect(); let s: f64 = f.iter().sum(); f.iter_mut().for_each(|v| *v /= s); f },
                n: 1 + rng.usize(0..len + 3),
                p: [1.0, 1.0, 2.0, 0.982, 0.5, 1e-3, 1e-20][rng.usize(0..7)],
                use_freq: rng.bool(),
                scale: [1040.0, 1.0, 20.0, 0.0][rng.usize(0..4)],
                seed: rng.u64(..),
            };
            r.case("tournament", &k, || t.desc(), || t.run());
        }
    }
    r.finish();
}
