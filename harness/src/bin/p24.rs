//! P24: running statistics of the adaptive parsimony.
use harness::sr::verif_hooks::*;
use harness::*;

#[derive(Clone, Debug, Hash)]
enum Op { One(usize), Many(Vec<usize>), Window, Normalize }

fn run(maxsize: usize, window: usize, ops: &[Op]) -> Result<(), String> {
    let mut s = RunningSearchStatistics::new(maxsize, window);
    if s.frequencies != vec![1.0; maxsize] || s.window_size != window as f64 { return Err(format!("fresh statistics {:?} window {}", s.frequencies, s.window_size)); }
    for v in &s.normalized_frequencies { if !same_bits(*v, 1.0 / maxsize as f64) { return Err(format!("fresh normalised frequency {v}")); } }
    for (k, op) in ops.iter().enumerate() {
        let f = s.frequencies.clone();
        let nf = s.normalized_frequencies.clone();
        let total: f64 = f.iter().sum();
        match op {
            Op::One(_) | Op::Many(_) => {
                let v = if let Op::Many(v) = op { v.clone() } else if let Op::One(x) = op { vec![*x] } else { vec![] };
                if let Op::One(x) = op { s.update_frequencies(*x) } else { s.update_from_population(v.iter().copied()) }
                let mut want = f.clone();
                for &x in &v { if x >= 1 && x <= maxsize { want[x - 1] += 1.0; } }
                if s.frequencies != want { return Err(format!("step {k}: counting {v:?} turned {f:?} into {:?}", s.frequencies)); }
                if s.normalized_frequencies != nf { return Err(format!("step {k}: counting changed the normalised frequencies")); }
            }
            Op::Window => {
                s.move_window();
                let g = &s.frequencies;
                if g.len() != maxsize { return Err("length changed".into()); }
                if s.normalized_frequencies != nf { return Err(format!("step {k}: reducing changed the normalised frequencies")); }
                if total <= window as f64 && *g != f { return Err(format!("step {k}: total {total} within the window {window}, yet {f:?} became {g:?}")); }
                for i in 0..maxsize {
                    if !(g[i] >= 1.0) { return Err(format!("step {k}: entry {i} fell to {} ({f:?})", g[i])); }
                    if g[i] > f[i] { return Err(format!("step {k}: entry {i} rose from {} to {}", f[i], g[i])); }
                    for j in 0..maxsize { if f[i] <= f[j] && g[i] > g[j] { return Err(format!("step {k}: order of entries {i} and {j} changed: {f:?} to {g:?}")); } }
                }
                let after: f64 = g.iter().sum();
                if after > (window as f64).max(maxsize as f64) * (1.0 + 1e-9) + 1e-3 { return Err(format!("step {k}: total {after} after reducing to window {window}: {f:?} to {g:?}")); }
                if after < (window as f64).min(total) * (1.0 - 1e-9) - 1e-3 { return Err(format!("step {k}: reduced below the window: total {after}, window {window}")); }
            }
            Op::Normalize => {
                s.normalize();
                if s.frequencies != f { return Err(format!("step {k}: normalising changed the counts")); }
                if s.normalized_frequencies.len() != maxsize { return Err("length of the normalised frequencies".into()); }
                for i in 0..maxsize { let w = f[i] / total; if (s.normalized_frequencies[i] - w).abs() > 1e-12 * w { return Err(format!("step {k}: normalised frequency {i} is {}, expected {w}", s.normalized_frequencies[i])); } }
            }
        }
        for x in 0..maxsize + 3 {
            let want = if x == 0 || x > maxsize { 1e-6 } else { s.normalized_frequencies[x - 1].max(1e-6) };
            if s.freq(x) != want { return Err(format!("step {k}: freq({x}) = {} expected {want}", s.freq(x))); }
        }
    }
    Ok(())
}

fn main() {
    let r = Runner::new("one evaluation = one history of counting, reducing and normalising on one statistics object, compared after every step; distinct = distinct histories");
    // an entry a hair above the floor makes one negligible step
    r.case("regression", &"hair", || "frequencies [1 + 1e-12, 1000, 1000], window 10".into(), || {
        let mut s = RunningSearchStatistics::new(3, 10);
        s.frequencies = vec![1.0 + 1e-12, 1000.0, 1000.0];
        s.move_window();
        let t: f64 = s.frequencies.iter().sum();
        if t > 10.001 || t < 9.999 || s.frequencies.iter().any(|&v| v < 1.0) { Err(format!("reduced to {:?}", s.frequencies)) } else { Ok(()) }
    });
    for m in 1..=4usize {
        for c in 0..7usize.pow(m as u32) {
            let mut ops: Vec<Op> = (0..m).flat_map(|i| std::iter::repeat_n(Op::One(i + 1), c / 7usize.pow(i as u32) % 7)).collect();
            ops.extend([Op::Normalize, Op::Window, Op::Normalize, Op::Window]);
            for w in [0usize, 1, 4, 9, 14] { r.case("exhaustive", &(m, w, c), || format!("maxsize {m} window {w} ops {ops:?}"), || run(m, w, &ops)); }
        }
    }
    let mut rng = r.rng("p24");
    while r.time_left() {
        let m = 1 + rng.usize(0..40);
        let w = [0, 1, m, m + 5, 3 * m, 100, 1000][rng.usize(0..7)];
        let n = 1 + rng.usize(0..20);
        let ops: Vec<Op> = (0..n).map(|_| match rng.u8(0..6) { 0 => Op::Window, 1 => Op::Normalize, 2 => Op::One(rng.usize(0..m + 3)), _ => { let c = rng.usize(0..m + 2); Op::Many((0..rng.usize(0..200)).map(|_| if rng.bool() { c } else { rng.usize(0..m + 3) }).collect()) } }).collect();
        r.case("random", &(m, w, ops.clone()), || format!("maxsize {m} window {w} ops {ops:?}"), || run(m, w, &ops));
    }
    r.finish();
}
