//! P23: train/validation splitting partitions the rows, and the split data sets hold them.
use harness::*;
use ndarray::{Array1, Array2};
use symbolic_regression::Dataset;
use symbolic_regression_wasm::verif_hooks::*;

#[derive(Debug, Clone)]
struct Case { n: usize, vf: f64, seed: u64, nf: usize, weighted: bool }
fn run(c: &Case) -> Result<(), String> {
    let s = make_split_indices(c.n, c.vf, c.seed);
    let mut seen = vec![0usize; c.n];
    for &i in s.train.iter().chain(&s.val) {
        if i >= c.n { return Err(format!("row {i} of {}", c.n)); }
        seen[i] += 1;
    }
    if let Some(i) = seen.iter().position(|k| *k != 1) { return Err(format!("row {i} is held {} times", seen[i])); }
    let f = if c.vf.is_nan() { 0.0 } else { c.vf.max(0.0).min(0.9) };
    let want = if c.n == 0 { 0 } else { ((f * c.n as f64).round() as usize).min(c.n - 1) };
    if s.val.len() != want { return Err(format!("{} validation rows, expected {want}", s.val.len())); }
    if c.n > 0 && s.train.is_empty() { return Err("no training row".into()); }
    if c.n > 400 { return Ok(()); }
    let fx = |i: usize, j: usize| (i * 1000 + j) as f64 + 0.25;
    let (fy, fw) = (|j: usize| 10.0 + j as f64 * 1.5, |j: usize| 0.5 + j as f64);
    let names: Vec<String> = (0..c.nf).map(|i| format!("v{i}")).collect();
    let all = Dataset::with_weights_and_names(Array2::from_shape_fn((c.nf, c.n), |(i, j)| fx(i, j)), Array1::from_shape_fn(c.n, fy), None, names.clone());
    let w = c.weighted.then(|| Array1::from_shape_fn(c.n, fw));
    let (tr, va) = split_train_val(&all, w.as_ref(), &names, &s)?;
    let check = |d: &Dataset<f64>, ids: &[usize], what: &str| -> Result<(), String> {
        if d.n_rows != ids.len() || d.n_features != c.nf || d.x.dim() != (c.nf, ids.len()) || d.y.len() != ids.len() { return Err(format!("{what}: shape {:?}, {} rows", d.x.dim(), d.n_rows)); }
        if d.weights.is_some() != c.weighted { return Err(format!("{what}: weights {}", d.weights.is_some())); }
        for (k, &r) in ids.iter().enumerate() {
            for i in 0..c.nf { if d.x[(i, k)] != fx(i, r) { return Err(format!("{what}: row {k} should be row {r}, feature {i} is {}", d.x[(i, k)])); } }
            if d.y[k] != fy(r) { return Err(format!("{what}: row {k} should be row {r}, target is {}", d.y[k])); }
            if let Some(w) = &d.weights { if w[k] != fw(r) { return Err(format!("{what}: row {k} should be row {r}, weight is {}", w[k])); } }
        }
        if d.variable_names != names { return Err(format!("{what}: names {:?}", d.variable_names)); }
        Ok(())
    };
    check(&tr, &s.train, "training")?;
    match &va {
        None if s.val.is_empty() => {}
        Some(v) if !s.val.is_empty() => check(v, &s.val, "validation")?,
        v => return Err(format!("validation data {} for {} rows", v.is_some(), s.val.len())),
    }
    // a row number that does not exist is refused
    let mut bad = s.clone();
    bad.val.push(c.n);
    if split_train_val(&all, w.as_ref(), &names, &bad).is_ok() { return Err("a validation row out of range was accepted".into()); }
    let mut bad = s.clone();
    bad.train.insert(0, c.n + 7);
    if split_train_val(&all, w.as_ref(), &names, &bad).is_ok() { return Err("a training row out of range was accepted".into()); }
    Ok(())
}
/// an explicit choice of rows (repeats, gaps, any order): the split data hold exactly those
fn explicit(train: &[usize], val: &[usize], n: usize, weighted: bool) -> Result<(), String> {
    let names = vec!["a".to_string(), "b".to_string()];
    let all = Dataset::with_weights_and_names(Array2::from_shape_fn((2, n), |(i, j)| (i * 100 + j) as f64), Array1::from_shape_fn(n, |j| j as f64 * 3.0), None, names.clone());
    let w = weighted.then(|| Array1::from_shape_fn(n, |j| 1.0 + j as f64));
    let mut s = make_split_indices(0, 0.0, 0);
    s.train = train.to_vec();
    s.val = val.to_vec();
    let (tr, va) = split_train_val(&all, w.as_ref(), &names, &s)?;
    let ck = |d: &Dataset<f64>, ids: &[usize]| d.n_rows == ids.len() && ids.iter().enumerate().all(|(k, &r)| d.y[k] == r as f64 * 3.0 && d.x[(0, k)] == r as f64 && d.x[(1, k)] == (100 + r) as f64 && d.weights.as_ref().map_or(!weighted, |w| w[k] == 1.0 + r as f64));
    if !ck(&tr, train) { return Err("training data do not hold the chosen rows".into()); }
    match &va { None if val.is_empty() => Ok(()), Some(v) if !val.is_empty() && ck(v, val) => Ok(()), _ => Err("validation data do not hold the chosen rows".into()) }
}
fn main() {
    let r = Runner::new("one evaluation = one split (rows, fraction, seed) with the split data sets compared row by row; distinct = distinct splits");
    let go = |c: Case| { r.case("split", &(c.n, c.vf.to_bits(), c.seed, c.nf, c.weighted), || format!("{c:?}"), || run(&c)); };
    let vfs = [0.0, -1.0, 0.05, 0.1, 0.2, 0.25, 1.0 / 3.0, 0.5, 0.75, 0.9, 0.95, 1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300, 0.8999999999];
    for n in 0..40 { for vf in vfs { for seed in 0..3 { for weighted in [false, true] { go(Case { n, vf, seed, nf: (n + seed as usize) % 4, weighted }); } } } }
    for n in [1000, 4096, 65536, 100_003] { for vf in vfs { go(Case { n, vf, seed: 5, nf: 1, weighted: false }); } }
    for n in [3_000_017, 4_000_037] { for vf in [0.1, 1.0 / 3.0, 0.7, 0.123456789] { go(Case { n, vf, seed: 7, nf: 1, weighted: false }); } }
    // many features: every one of them is carried over
    for nf in [257, 300] { go(Case { n: 7, vf: 0.4, seed: 2, nf, weighted: true }); }
    let mut rng = r.rng("p23");
    while r.time_left() {
        let n = rng.usize(0..200);
        go(Case { n, vf: rng.f64() * 1.1 - 0.05, seed: rng.u64(..), nf: rng.usize(0..5), weighted: rng.bool() });
        let (a, b) = (rng.usize(0..6), rng.usize(0..6));
        let m = rng.usize(1..12);
        let t: Vec<usize> = (0..a).map(|_| rng.usize(0..m)).collect();
        let v: Vec<usize> = (0..b).map(|_| rng.usize(0..m)).collect();
        let w = rng.bool();
        r.case("chosen rows", &(t.clone(), v.clone(), m, w), || format!("train {t:?} val {v:?} of {m} weighted {w}"), || explicit(&t, &v, m, w));
    }
    r.finish();
}
