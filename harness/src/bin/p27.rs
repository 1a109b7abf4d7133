//! P27: data sets hold the rows given; a mini-batch holds rows of the full data set.
use harness::sr::verif_hooks::*;
use harness::*;
use ndarray::{Array1, Array2, ShapeBuilder, s};

/// the same values, in another memory layout
fn lay1(v: &[f64], how: usize) -> Array1<f64> {
    match how {
        0 => Array1::from(v.to_vec()),
        1 => { let mut w = vec![-777.0; v.len() * 2]; for (i, x) in v.iter().enumerate() { w[2 * i] = *x; } Array1::from(w).slice_move(s![..;2]) }
        2 => { let mut w = v.to_vec(); w.reverse(); Array1::from(w).slice_move(s![..;-1]) }
        _ => { let mut w = vec![-777.0; 3]; w.extend_from_slice(v); Array1::from(w).slice_move(s![3..]) }
    }
}
fn lay2(rows: usize, cols: usize, f: impl Fn(usize, usize) -> f64, how: usize) -> Array2<f64> {
    match how {
        0 => Array2::from_shape_fn((rows, cols), |(i, j)| f(i, j)),
        1 => Array2::from_shape_fn((rows, cols).f(), |(i, j)| f(i, j)),
        2 => Array2::from_shape_fn((cols, rows), |(j, i)| f(i, j)).reversed_axes(),
        3 => Array2::from_shape_fn((rows, cols), |(i, j)| f(i, cols - 1 - j)).slice_move(s![.., ..;-1]),
        _ => Array2::from_shape_fn((rows * 2, cols), |(i, j)| if i % 2 == 0 { f(i / 2, j) } else { -777.0 }).slice_move(s![..;2, ..]),
    }
}
#[derive(Debug, Hash, Clone)]
struct Case { nf: usize, n: usize, bs: usize, weighted: bool, lx: usize, ly: usize, lw: usize, seed: u64, kind: usize }
fn run(c: &Case) -> Result<(), String> {
    // kind: repeated targets (base 3, lowest digit), repeated weights (next), repeated features (next)
    let (ky, kw, kx) = (c.kind % 4, c.kind / 4 % 3, c.kind / 12 % 3);
    let fx = |i: usize, j: usize| match kx { 0 => (i * 1000 + j) as f64 + 0.25, 1 => (i * 1000 + j % 2) as f64, _ => [0.0, -0.0, f64::INFINITY, 1.0, f64::NAN][(i + j) % 5] };
    let ys: Vec<f64> = (0..c.n).map(|j| match ky { 0 => 10.0 + j as f64 * 1.5, 1 => 7.0, 2 => (j % 3) as f64, _ => 0.0 }).collect();
    let ws: Vec<f64> = (0..c.n).map(|j| match kw { 0 => 0.5 + j as f64, 1 => 1.0, _ => 1.0 - (j % 2) as f64 }).collect();
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
    let names: Vec<String> = (0..c.nf).map(|i| format!("v{i}")).collect();
    let full = if c.weighted || c.seed % 2 == 0 {
        Dataset::with_weights_and_names(lay2(c.nf, c.n, fx, c.lx), lay1(&ys, c.ly), c.weighted.then(|| lay1(&ws, c.lw)), names.clone())
    } else { Dataset::new(lay2(c.nf, c.n, fx, c.lx), lay1(&ys, c.ly)) };
    let check_full = |full: &Dataset<f64>, when: &str| -> Result<(), String> {
        if full.n_rows != c.n || full.n_features != c.nf || full.x.dim() != (c.nf, c.n) { return Err(format!("{when}: shape {:?} rows {} features {}", full.x.dim(), full.n_rows, full.n_features)); }
        for i in 0..c.nf { for j in 0..c.n { if !same(full.x[[i, j]], fx(i, j)) { return Err(format!("{when}: feature {i} of row {j} is {}", full.x[[i, j]])); } } }
        if !full.x.is_standard_layout() { return Err(format!("{when}: features not in standard layout")); }
        if full.y_slice() != &ys[..] { return Err(format!("{when}: targets {:?}", full.y_slice())); }
        match (full.weights_slice(), c.weighted) {
            (None, false) => {}
            (Some(w), true) if w == &ws[..] => {}
            (w, _) => return Err(format!("{when}: weights {w:?}, given {}", if c.weighted { format!("{ws:?}") } else { "none".into() })),
        }
        let want = if c.n == 0 { 0.0 } else if c.weighted { ys.iter().zip(&ws).map(|(a, b)| a * b).sum::<f64>() / ws.iter().sum::<f64>() } else { ys.iter().sum::<f64>() / c.n as f64 };
        if (full.avg_y - want).abs() > 1e-9 * want.abs().max(1.0) { return Err(format!("{when}: mean target {}, expected {want}", full.avg_y)); }
        Ok(())
    };
    check_full(&full, "as built")?;
    if c.n == 0 { return Ok(()); }
    let mut b = Dataset::make_batch_buffer(&full, c.bs);
    if b.n_rows != c.bs.max(1) || b.n_features != c.nf || b.weights.is_some() != c.weighted { return Err(format!("batch buffer has {} rows, {} features, weights {}", b.n_rows, b.n_features, b.weights.is_some())); }
    let mut rng = Rng::with_seed(c.seed);
    let mut seen = vec![false; c.n];
    for round in 0..3 {
        b.resample_from(&full, &mut rng);
        if b.n_rows != c.bs.max(1) || b.x.dim() != (c.nf, b.n_rows) || b.y.len() != b.n_rows { return Err(format!("round {round}: batch changed shape to {:?}", b.x.dim())); }
        for j in 0..b.n_rows {
            let y = b.y_slice()[j];
            let of = |s: usize| ys[s] == y && (0..c.nf).all(|i| same(b.x[[i, j]], fx(i, s))) && (!c.weighted || b.weights_slice().map(|w| w[j]) == Some(ws[s]));
            let Some(s) = (0..c.n).find(|s| of(*s)).or_else(|| ys.iter().position(|v| *v == y)) else { return Err(format!("round {round}: target {y} of batch row {j} is not a target of the full data")) };
            seen[s] = true;
            for i in 0..c.nf { if !same(b.x[[i, j]], fx(i, s)) { return Err(format!("round {round}: batch row {j} is no row of the full data: it has the target of row {s} but feature {i} = {}", b.x[[i, j]])); } }
            if c.weighted && b.weights_slice().map(|w| w[j]) != Some(ws[s]) { return Err(format!("round {round}: batch row {j} has the target of row {s} but weight {:?}", b.weights_slice().map(|w| w[j]))); }
            if !c.weighted && b.weights_slice().is_some() { return Err("weights appeared".into()); }
        }
        if b.avg_y != full.avg_y { return Err(format!("batch mean target {}", b.avg_y)); }
    }
    // every row can be drawn: many draws from few rows reach all of them
    if b.n_rows >= 200 && c.n <= 8 && ky == 0 && seen.contains(&false) { return Err(format!("600 draws from {} rows never drew row {:?}", c.n, seen.iter().position(|x| !x))); }
    check_full(&full, "after batching")
}
fn main() {
    let r = Runner::new("one evaluation = one data set (shape, memory layouts, weights) built, batched three times and compared row by row; distinct = distinct data sets");
    let go = |c: Case| { r.case(if c.weighted { "weighted" } else { "unweighted" }, &c, || format!("{c:?}"), || run(&c)); };
    for lx in 0..5 { for ly in 0..4 { for lw in 0..4 { for weighted in [false, true] { for (nf, n, bs) in [(0, 3, 2), (1, 1, 1), (2, 5, 3), (3, 4, 0), (2, 3, 200), (3, 0, 1), (4, 7, 9)] {
        go(Case { nf, n, bs, weighted, lx, ly, lw, seed: (lx * 31 + ly * 7 + lw) as u64, kind: 0 });
    } } } } }
    let mut rng = r.rng("p27");
    while r.time_left() {
        go(Case { nf: rng.usize(0..6), n: rng.usize(0..40), bs: rng.usize(0..60), weighted: rng.bool(), lx: rng.usize(0..5), ly: rng.usize(0..4), lw: rng.usize(0..4), seed: rng.u64(0..1000), kind: if rng.bool() { 0 } else { rng.usize(0..36) } });
    }
    r.finish();
}
