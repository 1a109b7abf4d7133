//! P25: losses are weighted means of their row function, gradients their derivatives.
use harness::sr::*;
use harness::*;
use std::fmt::Debug;

type Rows = (Vec<f64>, Vec<f64>, Option<Vec<f64>>);
fn pt(k: LossKind, e: f64) -> f64 {
    match k {
        LossKind::Mse | LossKind::Rmse => e * e,
        LossKind::Mae => e.abs(),
        LossKind::Huber { delta } => if e.abs() <= delta { 0.5 * e * e } else { delta * (e.abs() - 0.5 * delta) },
        LossKind::LogCosh => if e.abs() < 20.0 { e.cosh().ln() } else { e.abs() + (-2.0 * e.abs()).exp().ln_1p() - std::f64::consts::LN_2 },
        LossKind::Lp { p } => e.abs().powf(p),
        LossKind::Quantile { tau } => if -e >= 0.0 { tau * -e } else { (tau - 1.0) * -e },
        LossKind::EpsilonInsensitive { eps } => (e.abs() - eps).max(0.0),
    }
}
fn sgn(e: f64) -> f64 { if e > 0.0 { 1.0 } else if e < 0.0 { -1.0 } else { 0.0 } }
/// derivative, or None at a kink
fn dpt(k: LossKind, e: f64, tol: f64) -> Option<f64> {
    Some(match k {
        LossKind::Mse | LossKind::Rmse => 2.0 * e,
        LossKind::Mae => if e == 0.0 { 0.0 } else { sgn(e) },
        LossKind::Huber { delta } => if e.abs() <= delta { e } else { delta * sgn(e) },
        LossKind::LogCosh => e.tanh(),
        LossKind::Lp { p } => if e == 0.0 { 0.0 } else { p * e.abs().powf(p - 1.0) * sgn(e) },
        LossKind::Quantile { tau } => if e == 0.0 { 0.0 } else if e < 0.0 { -tau } else { 1.0 - tau },
        LossKind::EpsilonInsensitive { eps } => if e.abs() == eps { 0.0 } else if (e.abs() - eps).abs() < tol { return None } else if e.abs() > eps { sgn(e) } else { 0.0 },
    })
}
trait Fl: num_traits::Float + Send + Sync + 'static + Debug { const EPS: f64; fn of(x: f64) -> Self; fn to(self) -> f64; }
impl Fl for f64 { const EPS: f64 = 1e-9; fn of(x: f64) -> f64 { x } fn to(self) -> f64 { self } }
impl Fl for f32 { const EPS: f64 = 2e-4; fn of(x: f64) -> f32 { x as f32 } fn to(self) -> f64 { self as f64 } }
fn close(a: f64, b: f64, scale: f64, eps: f64) -> bool { (a - b).abs() <= eps * (1.0 + scale.max(b.abs())) }
fn run<T: Fl>(k: LossKind, (p, y, w): &Rows) -> Result<(), String> {
    let v = |s: &[f64]| -> Vec<T> { s.iter().map(|&x| T::of(x)).collect() };
    let (tp, ty, tw) = (v(p), v(y), w.as_ref().map(|w| v(w)));
    let back = |s: &[T]| -> Vec<f64> { s.iter().map(|x| x.to()).collect() };
    let (p, y) = (back(&tp), back(&ty));
    let n = p.len();
    let wt = match &tw { Some(w) => back(w), None => vec![1.0; n] };
    let l = make_loss::<T>(k);
    let got = l.loss(&tp, &ty, tw.as_deref()).to();
    let mut out = vec![T::of(7.5); n];
    l.dloss_dyhat(&tp, &ty, tw.as_deref(), &mut out);
    let sw: f64 = wt.iter().sum();
    let tsw: T = tw.as_ref().map_or(T::of(n as f64), |w| w.iter().fold(T::of(0.0), |a, &b| a + b));
    let zero = tsw.to() == 0.0;
    let terms: Vec<f64> = (0..n).map(|i| wt[i] * pt(k, p[i] - y[i])).collect();
    let mean = if zero { 0.0 } else { terms.iter().sum::<f64>() / sw };
    let scale = if zero { 0.0 } else { terms.iter().map(|t| t.abs()).sum::<f64>() / sw.abs() };
    let want = if matches!(k, LossKind::Rmse) { mean.sqrt() } else { mean };
    if want.is_nan() { return Ok(()); }
    if !close(got, want, scale, T::EPS) { return Err(format!("loss {got}, expected {want}")); }
    for i in 0..n {
        let e = p[i] - y[i];
        let Some(d) = dpt(k, e, 1e-6) else { continue };
        let g = if zero { 0.0 } else if matches!(k, LossKind::Rmse) { if want == 0.0 { 0.0 } else { wt[i] * e / (sw * want) } } else { wt[i] * d / sw };
        let s = if zero { 0.0 } else { (wt[i] * d / sw).abs() };
        if !close(out[i].to(), g, s, T::EPS) { return Err(format!("derivative of row {i} is {:?}, expected {g}", out[i])); }
    }
    // unit weights are no weights
    if w.is_none() {
        let one = vec![T::of(1.0); n];
        let g1 = l.loss(&tp, &ty, Some(&one)).to();
        let mut o1 = vec![T::of(7.5); n];
        l.dloss_dyhat(&tp, &ty, Some(&one), &mut o1);
        if !close(g1, got, scale, T::EPS) { return Err(format!("unit weights give {g1}, no weights {got}")); }
        for i in 0..n { if !close(o1[i].to(), out[i].to(), 0.0, T::EPS) { return Err(format!("unit weights change the derivative of row {i}: {:?}, {:?}", o1[i], out[i])); } }
    }
    Ok(())
}
fn main() {
    let r = Runner::new("one evaluation = one loss on one set of rows (predictions, targets, weights); distinct = distinct sets");
    let mut rng = r.rng("p25");
    let kinds = |rng: &mut Rng| {
        let q = |rng: &mut Rng| rng.f64() * 3.0 + 0.01;
        vec![LossKind::Mse, LossKind::Mae, LossKind::Rmse, LossKind::Huber { delta: 1.0 }, LossKind::Huber { delta: q(rng) }, LossKind::LogCosh, LossKind::Lp { p: 2.0 }, LossKind::Lp { p: 1.0 + q(rng) },
             LossKind::Quantile { tau: 0.5 }, LossKind::Quantile { tau: rng.f64() }, LossKind::EpsilonInsensitive { eps: 0.1 }, LossKind::EpsilonInsensitive { eps: 1.0 }, LossKind::EpsilonInsensitive { eps: q(rng) }]
    };
    let mut n = 0usize;
    while n < 4000 || r.time_left() {
        if n > 4000 && !r.time_left() { break; }
        let rows = if n < 40 { n / 10 } else { rng.usize(0..if n % 9 == 0 { 200 } else { 12 }) };
        let wmode = n % 7;
        let far = n % 11 == 10;
        let val = |rng: &mut Rng| match rng.usize(0..6) { 5 if far => (rng.f64() - 0.5) * 4000.0, 0 => 0.0, 1 => rng.usize(0..4) as f64 - 1.0, 2 => rng.f64() * 1e-3, _ => rng.f64() * 6.0 - 3.0 };
        let y: Vec<f64> = (0..rows).map(|_| val(&mut rng)).collect();
        let exact = rng.usize(0..20) == 0;
        let p: Vec<f64> = (0..rows).map(|i| if exact || rng.usize(0..12) == 0 { y[i] } else { val(&mut rng) }).collect();
        let w: Option<Vec<f64>> = match wmode {
            0 | 1 => None,
            2 => Some(vec![0.0; rows]),
            3 => Some((0..rows).map(|_| if rng.bool() { 0.0 } else { rng.f64() * 4.0 }).collect()),
            4 => Some(vec![rng.f64() * 10.0 + 0.1; rows]),
            _ => Some((0..rows).map(|_| rng.f64() * 3.0 + 0.01).collect()),
        };
        let d: Rows = (p, y, w);
        for k in kinds(&mut rng) {
            let key = format!("{k:?}{d:?}");
            let txt = || format!("{k:?} predictions {:?} targets {:?} weights {:?}", d.0, d.1, d.2);
            r.case("f64", &(0, key.clone()), txt, || run::<f64>(k, &d));
            r.case("f32", &(1, key.clone()), txt, || run::<f32>(k, &d));
        }
        n += 1;
    }
    // names
    for (s, k) in [("mse", LossKind::Mse), ("mae", LossKind::Mae), ("rmse", LossKind::Rmse), ("huber", LossKind::Huber { delta: 1.0 }), ("logcosh", LossKind::LogCosh), ("lp", LossKind::Lp { p: 2.0 }), ("quantile", LossKind::Quantile { tau: 0.5 }), ("epsilon-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 })] {
        r.case("name", &s, || s.to_string(), || if LossKind::parse(s) == Some(k) { Ok(()) } else { Err(format!("{s} parses as {:?}", LossKind::parse(s))) });
    }
    r.finish();
}
