//! P32: the figures reported for predictions, against independently computed ones.
use harness::*;
use ndarray::{Array1, Array2};
use symbolic_regression::Dataset;
use symbolic_regression_wasm::verif_hooks::*;

#[derive(Debug, Clone)]
struct C { p: Vec<f64>, y: Vec<f64>, w: Option<Vec<f64>> }
fn close(a: f64, b: f64, scale: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + scale) }
/// compensated sum
fn total(it: impl Iterator<Item = f64>) -> f64 { let (mut s, mut c) = (0.0f64, 0.0f64); for x in it { let t = s + x; c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s }; s = t; } s + c }
fn run(c: &C) -> Result<(), String> {
    let n = c.y.len();
    let d = match &c.w {
        None => Dataset::new(Array2::zeros((1, n)), Array1::from(c.y.clone())),
        Some(w) => Dataset::with_weights_and_names(Array2::zeros((1, n)), Array1::from(c.y.clone()), Some(Array1::from(w.clone())), vec!["a".into()]),
    };
    let m = compute_metrics(&c.p, &d);
    if m.n != n { return Err(format!("n is {} of {n} rows", m.n)); }
    let e: Vec<f64> = (0..n).map(|i| c.p[i] - c.y[i]).collect();
    let w: Vec<f64> = c.w.clone().unwrap_or(vec![1.0; n]);
    let sw = total(w.iter().copied());
    let mean = |f: &dyn Fn(usize) -> f64| if sw > 0.0 { total((0..n).map(|i| w[i] * f(i))) / sw } else { 0.0 };
    let (mse, mae) = (mean(&|i| e[i] * e[i]), mean(&|i| e[i].abs()));
    if !close(m.mse, mse, mse.abs()) { return Err(format!("mse {} instead of {mse}", m.mse)); }
    if !close(m.mae, mae, mae.abs()) { return Err(format!("mae {} instead of {mae}", m.mae)); }
    if !close(m.rmse, mse.sqrt(), mse.sqrt()) { return Err(format!("rmse {} instead of {}", m.rmse, mse.sqrt())); }
    let lo = e.iter().map(|x| x.abs()).min_by(f64::total_cmp).unwrap_or(0.0);
    let hi = e.iter().map(|x| x.abs()).max_by(f64::total_cmp).unwrap_or(0.0);
    if m.min_abs_err != lo || m.max_abs_err != hi { return Err(format!("errors between {} and {} instead of {lo} and {hi}", m.min_abs_err, m.max_abs_err)); }
    if n == 0 { return if m.r2.is_nan() && m.corr.is_nan() { Ok(()) } else { Err(format!("no rows but r2 {} corr {}", m.r2, m.corr)) }; }
    let wy = mean(&|i| c.y[i]);
    let sst = total((0..n).map(|i| w[i] * (c.y[i] - wy) * (c.y[i] - wy)));
    let sse = total((0..n).map(|i| w[i] * e[i] * e[i]));
    let r2 = if sst == 0.0 { 0.0 } else { 1.0 - sse / sst };
    // rounding aside: targets that do not vary count as such where the weighted mean is exact
    let exact = w.iter().all(|x| x * 2.0 == (x * 2.0).floor());
    if (sst == 0.0 && exact || sst > 1e-3) && !close(m.r2, r2, sse / sst.max(1e-3)) { return Err(format!("r2 {} instead of {r2}", m.r2)); }
    let nf = n as f64;
    let (my, mp) = (total(c.y.iter().copied()) / nf, total(c.p.iter().copied()) / nf);
    let (vy, vp) = (total(c.y.iter().map(|y| (y - my) * (y - my))), total(c.p.iter().map(|p| (p - mp) * (p - mp))));
    let cov = total((0..n).map(|i| (c.y[i] - my) * (c.p[i] - mp)));
    let corr = if vy == 0.0 || vp == 0.0 { 0.0 } else { cov / (vy.sqrt() * vp.sqrt()) };
    let solid = |v: f64| v == 0.0 || v > 1e-3;
    if solid(vy) && solid(vp) && !close(m.corr, corr, 1.0) { return Err(format!("correlation {} instead of {corr}", m.corr)); }
    Ok(())
}
fn main() {
    let r = Runner::new("one evaluation = the figures of one list of predictions; distinct = distinct lists of predictions, targets and weights");
    let mut g = r.rng("p32");
    // quarters: sums and means of few of them are exact, so rows that do not vary do so exactly
    let pick = |g: &mut fastrand::Rng, fine: bool| if fine { (g.f64() - 0.5) * 20.0 } else { g.i32(-12..13) as f64 * 0.25 };
    while r.time_left() {
        let n = match g.usize(0..4) { 0 => g.usize(0..3), 1 => [1, 2, 4, 8, 16][g.usize(0..5)], 2 => g.usize(0..12), _ => g.usize(0..120) };
        let fine = g.bool();
        let same = [g.u8(0..8), g.u8(0..8)];
        let (a, b) = (pick(&mut g, false), pick(&mut g, false));
        let y: Vec<f64> = (0..n).map(|_| if same[0] == 0 { a } else { pick(&mut g, fine) }).collect();
        let p: Vec<f64> = match same[1] { 0 => vec![b; n], 1 => y.clone(), 2 => y.iter().map(|v| -2.0 * v + 1.0).collect(), _ => (0..n).map(|_| pick(&mut g, fine)).collect() };
        let w = match g.u8(0..6) { 0 | 1 => None, 2 => Some(vec![0.0; n]), 3 => Some((0..n).map(|_| g.u8(0..2) as f64).collect()), 4 => Some((0..n).map(|_| [0.5, 1.0, 2.0][g.usize(0..3)]).collect()), _ => Some((0..n).map(|_| g.f64() * 3.0).collect()) };
        let bits = |v: &Vec<f64>| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
        let c = C { p, y, w };
        r.case("figures", &(bits(&c.p), bits(&c.y), c.w.as_ref().map(bits)), || format!("{c:?}"), || run(&c));
    }
    r.finish();
}
