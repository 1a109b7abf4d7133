//! P16: hall of fame and Pareto front against a reference over whole submission histories.
use harness::sr::verif_hooks::{check_constraints, HallOfFame, Options};
use harness::*;

const D: usize = 3;

fn main() {
    let r = Runner::new("one evaluation = one history of submissions, every cell and the Pareto front compared with the reference after every submission; distinct = distinct histories");
    let mut rng = r.rng("p16");
    let fam: Family = mod_family().into_iter().take(D).collect();
    let vals = [f64::INFINITY, 0.0, -0.0, 1.0, 2.0, 0.5, 1e300, f64::NEG_INFINITY, 5e-324, 1.0 + f64::EPSILON, 3.0];
    while r.time_left() {
        let maxc = rng.usize(0..9);
        let n = if rng.u8(0..20) == 0 { rng.usize(0..200) } else { rng.usize(0..14) };
        let batch = rng.bool();
        let mut o: Options<f64, D> = Options::default();
        o.maxsize = maxc;
        o.maxdepth = if rng.bool() { 30 } else { rng.usize(1..4) };
        let nans = rng.u8(0..6) == 0;
        let mut subs = vec![];
        for i in 0..n {
            let size = 1 + rng.usize(0..7);
            let nodes = gen_tree(&mut rng, size, &fam, 4, 4).nodes();
            let c = if rng.u8(0..6) == 0 { rng.usize(0..maxc + 3) } else { nodes.len() };
            let mut v = |rng: &mut Rng| if nans && rng.u8(0..4) == 0 { f64::NAN } else if rng.u8(0..3) == 0 { rng.f64() } else { vals[rng.usize(0..vals.len())] };
            let (l, k) = (v(&mut rng), v(&mut rng));
            let cms = if rng.bool() { 30 } else { rng.usize(0..9) };
            subs.push((member::<D>(i as u64, i as u64, nodes, c, l, k), cms));
        }
        if batch && n > 0 { let c0 = subs[0].1; for s in subs.iter_mut() { s.1 = c0; } }
        let d = || format!("maxsize={maxc} maxdepth={} batch={batch} submissions (nodes, complexity, loss, cost, curmaxsize): {:?}", o.maxdepth,
            subs.iter().map(|(m, c)| (m.expr.nodes.clone(), m.complexity, m.loss, m.cost, *c)).collect::<Vec<_>>());
        let key = d();
        r.case(if nans { "with-nan" } else { "history" }, &key, d, || {
            let mut h = HallOfFame::new(maxc);
            let mut want: Vec<Option<usize>> = vec![None; maxc + 1];
            let mut one = |j: usize, want: &mut Vec<Option<usize>>| {
                let (m, cms) = &subs[j];
                if check_constraints(&m.expr, &o, *cms) && m.complexity >= 1 && m.complexity <= maxc {
                    let better = match want[m.complexity] { None => true, Some(b) => m.cost < subs[b].0.cost };
                    if better { want[m.complexity] = Some(j); }
                }
            };
            let mut step = 0;
            while step < subs.len() {
                if batch {
                    let e = (step + 1 + step % 5).min(subs.len());
                    let ms: Vec<_> = subs[step..e].iter().map(|x| x.0.clone()).collect();
                    h.update_from_members(&ms, &o, subs[0].1);
                    for j in step..e { one(j, &mut want); }
                    step = e;
                } else {
                    h.consider(&subs[step].0, &o, subs[step].1);
                    one(step, &mut want);
                    step += 1;
                }
                if h.best_by_complexity.len() != maxc + 1 { return Err("number of cells changed".into()); }
                for c in 0..=maxc {
                    let g = h.best_by_complexity[c].as_ref().map(|m| m.id.0 as usize);
                    if g != want[c] { return Err(format!("after {step} submissions, complexity {c}: holds submission {g:?}, expected {:?}", want[c])); }
                    if let Some(m) = &h.best_by_complexity[c] {
                        let s = &subs[m.id.0 as usize].0;
                        if m.expr.nodes != s.expr.nodes || !same_bits(m.cost, s.cost) || !same_bits(m.loss, s.loss) || m.complexity != s.complexity || m.birth != s.birth {
                            return Err(format!("complexity {c}: held member differs from the submission"));
                        }
                    }
                }
                let mut best = f64::INFINITY;
                let mut front = vec![];
                for c in 0..=maxc {
                    if let Some(j) = want[c] {
                        if subs[j].0.loss < best { best = subs[j].0.loss; front.push(j); }
                    }
                }
                let got: Vec<usize> = h.pareto_front().iter().map(|m| m.id.0 as usize).collect();
                if got != front { return Err(format!("after {step} submissions the front is {got:?}, expected {front:?}")); }
                let all: Vec<usize> = h.members().map(|m| m.id.0 as usize).collect();
                if all != want.iter().flatten().copied().collect::<Vec<_>>() { return Err("members() differs from the cells".into()); }
            }
            Ok(())
        });
    }
    r.finish();
}
