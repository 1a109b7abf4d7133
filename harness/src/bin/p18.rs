//! P18: migration and the pool of best members.
use harness::sr::verif_hooks::*;
use harness::*;

const D: usize = 3;
type M = PopMember<f64, ModOps, D>;
type Pop = Population<f64, ModOps, D>;

fn sig(m: &M) -> (usize, u64, u64, String) { (m.complexity, m.cost.to_bits(), m.loss.to_bits(), format!("{:?}{:?}", m.expr.nodes, m.expr.consts)) }
fn pop(costs: &[f64], id0: u64, rng: &mut Rng) -> Vec<M> {
    let fam: Family = vec![vec![0], vec![0], vec![]];
    costs.iter().enumerate().map(|(i, &c)| { let k = 1 + rng.usize(0..3); let mut m = member::<D>(id0 + i as u64, 10 + rng.u64(0..50), gen_tree(rng, k, &fam, 2, 3).nodes(), k, c * 2.0, c); if rng.bool() { m.parent = Some(MemberId(rng.u64(0..9))); } m }).collect()
}
fn best(costs: &[f64], topn: usize, seed: u64) -> Result<(), String> {
    let mut g = Rng::with_seed(seed);
    let ms = pop(costs, 0, &mut g);
    let p = Pop::new(ms.clone());
    let got = best_sub_pop(&p, topn);
    let mut ix: Vec<usize> = (0..costs.len()).collect();
    // insertion sort, stable
    for i in 1..ix.len() { let mut j = i; while j > 0 && costs[ix[j]] < costs[ix[j - 1]] { ix.swap(j, j - 1); j -= 1; } }
    ix.truncate(topn);
    let (a, b): (Vec<u64>, Vec<u64>) = (got.iter().map(|m| m.id.0).collect(), ix.iter().map(|&i| i as u64).collect());
    if a != b { return Err(format!("best {topn} members {a:?}, expected {b:?}")); }
    for m in &got { let o = &ms[m.id.0 as usize]; if sig(m) != sig(o) || m.birth != o.birth || m.parent != o.parent { return Err(format!("member {} changed on being pooled", m.id.0)); } }
    Ok(())
}
fn migrate(n: usize, pool: usize, frac: f64, seed: u64) -> Result<(), String> {
    let mut g = Rng::with_seed(seed);
    let ms = pop(&vec![1.0; n].iter().map(|_| g.f64()).collect::<Vec<_>>(), 0, &mut g);
    let mig = pop(&vec![1.0; pool].iter().map(|_| g.f64()).collect::<Vec<_>>(), 500, &mut g);
    let mut p = Pop::new(ms.clone());
    let (mut id, mut bi) = (1000u64, 2000u64);
    migrate_into(&mut p, &mig, frac, &mut g, &mut id, &mut bi);
    if p.len() != n { return Err(format!("population of {n} became {}", p.len())); }
    let k = id - 1000;
    if bi - 2000 != k { return Err(format!("{k} identifiers but {} birth stamps were given out", bi - 2000)); }
    if k as usize > n || k as usize > pool { return Err(format!("{k} arrivals into {n} members out of a pool of {pool}")); }
    if (pool == 0 || frac == 0.0) && k > 0 { return Err("arrivals without a pool or with zero fraction".into()); }
    let mut seen = std::collections::HashSet::new();
    for (i, m) in p.members.iter().enumerate() {
        if m.id.0 < 1000 {
            if sig(m) != sig(&ms[i]) || m.id != ms[i].id || m.birth != ms[i].birth || m.parent != ms[i].parent { return Err(format!("member {i} changed without being replaced")); }
        } else {
            if !(m.id.0 < id && m.birth >= 2000 && m.birth < bi) || m.birth - 2000 != m.id.0 - 1000 || !seen.insert(m.birth) { return Err(format!("arrival at {i} has identifier {} and birth {}, not fresh ones", m.id.0, m.birth)); }
            let Some(s) = mig.iter().find(|s| Some(s.id) == m.parent) else { return Err(format!("arrival at {i} has parent {:?}, not a pool member", m.parent)) };
            if sig(m) != sig(s) { return Err(format!("arrival at {i} is not a copy of pool member {}", s.id.0)); }
        }
    }
    Ok(())
}
fn main() {
    let r = Runner::new("one evaluation = one population with one cost list (pool of best), or one migration of one pool into one population; distinct = distinct settings and streams");
    for n in 0..=5usize {
        for c in 0..4usize.pow(n as u32) {
            let v: Vec<f64> = (0..n).map(|i| [0.0, 1.0, 2.0, f64::INFINITY][c / 4usize.pow(i as u32) % 4]).collect();
            for t in 0..=n + 1 { r.case("best exhaustive", &(bits(&v), t), || format!("best {t} of costs {v:?}"), || best(&v, t, c as u64)); }
        }
    }
    for frac in [0.0, -1.0, f64::NAN, f64::INFINITY, 0.05, 0.5, 1.0, 10.0, 1e308] {
        for n in 0..6usize { for pool in 0..6usize { for s in 0..5u64 {
            r.case("migration", &(frac.to_bits(), n, pool, s), || format!("migrate pool {pool} into {n}, fraction {frac}, stream {s}"), || migrate(n, pool, frac, s));
        } } }
    }
    let mut rng = r.rng("p18");
    while r.time_left() {
        let s = rng.u64(..);
        if rng.bool() {
            let n = 1 + rng.usize(0..60);
            let v: Vec<f64> = (0..n).map(|_| match rng.u8(0..6) { 0 => f64::INFINITY, 1 => 0.5, _ => rng.f64() }).collect();
            let t = rng.usize(0..n + 2);
            r.case("best random", &s, || format!("best {t} of costs {v:?}"), || best(&v, t, s));
        } else {
            let (n, pool, frac) = (rng.usize(0..80), rng.usize(0..40), [0.00036, 0.1, 0.7, 3.0, 1e-300][rng.usize(0..5)]);
            r.case("migration random", &s, || format!("migrate pool {pool} into {n}, fraction {frac}, stream {s}"), || migrate(n, pool, frac, s));
        }
    }
    r.finish();
}
