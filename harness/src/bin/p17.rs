//! P17: replacing the oldest members; whole evolution steps keep the population.
use harness::sr::verif_hooks::*;
use harness::*;

const D: usize = 3;
type Pop = Population<f64, ModOps, D>;

fn sig(m: &PopMember<f64, ModOps, D>) -> (u64, u64, usize, u64) { (m.id.0, m.birth, m.complexity, m.cost.to_bits()) }
fn ids(p: &Pop) -> Vec<(u64, u64, usize, u64)> { p.members.iter().map(sig).collect() }
fn oldest(b: &[u64], skip: Option<usize>) -> usize {
    let mut best = usize::MAX;
    for i in 0..b.len() {
        if Some(i) == skip { continue; }
        if best == usize::MAX || b[i] < b[best] { best = i; }
    }
    best
}
fn births(b: &[u64]) -> Result<(), String> {
    let leaf = vec![de::node::PNode::Var { feature: 0 }];
    let mk = |b: &[u64]| Pop::new(b.iter().enumerate().map(|(i, &x)| member::<D>(i as u64, x, leaf.clone(), 1, 0.5, 0.25 * i as f64)).collect());
    let (x, y) = (member::<D>(900, 7, leaf.clone(), 1, 9.0, 9.0), member::<D>(901, 3, leaf.clone(), 1, 8.0, 8.0));
    let mut p = mk(b);
    if p.len() != b.len() || p.is_empty() != b.is_empty() { return Err("len/is_empty".into()); }
    let o = oldest(b, None);
    if p.oldest_index() != o { return Err(format!("oldest_index {} expected {o}", p.oldest_index())); }
    let mut want = ids(&p);
    want[o] = sig(&x);
    p.replace_oldest(x.clone());
    if ids(&p) != want { return Err(format!("replace_oldest: {:?} expected {want:?}", ids(&p))); }
    if b.len() >= 2 {
        let mut p = mk(b);
        let s = oldest(b, Some(o));
        if p.two_oldest_indices() != (o, s) { return Err(format!("two_oldest_indices {:?} expected {:?}", p.two_oldest_indices(), (o, s))); }
        let mut want = ids(&p);
        want[o] = sig(&x);
        want[s] = sig(&y);
        p.replace_two_oldest(x, y);
        if ids(&p) != want { return Err(format!("replace_two_oldest: {:?} expected {want:?}", ids(&p))); }
    }
    Ok(())
}

fn evolve(seed: u64, rng: &mut Rng) -> (String, Box<dyn FnOnce() -> Result<(), String>>) {
    let n = 1 + rng.usize(0..12);
    let mut o: Options<f64, D> = Options::default();
    o.maxsize = 8;
    o.operators.push(de::OpId { arity: 1, id: 0 });
    o.operators.push(de::OpId { arity: 2, id: 0 });
    o.crossover_probability = if n < 2 { -1.0 } else { [0.0, 0.3, 1.0][rng.usize(0..3)] };
    o.tournament_selection_n = 1 + rng.usize(0..n + 2);
    o.skip_mutation_failures = rng.bool();
    let steps = 1 + rng.usize(0..3);
    let s = rng.u64(..);
    let desc = format!("evolution: n={n} crossover={} tournament={} skip={} steps={steps} stream={s} {seed}", o.crossover_probability, o.tournament_selection_n, o.skip_mutation_failures);
    (desc, Box::new(move || {
        let mut g = Rng::with_seed(s);
        let x = gen_x(&mut g, 2, 5, false);
        let y = ndarray::Array1::from_iter((0..5).map(|_| g.f64()));
        let data = Dataset::new(x, y);
        let ds = TaggedDataset::new(&data, None);
        let mut ev = Evaluator::new(5);
        let fam: Family = vec![vec![0], vec![0], vec![]];
        let mut births: Vec<u64> = (0..n as u64).map(|i| 10 + i).collect();
        sr::verif_hooks::shuffle(&mut g, &mut births);
        let mut p = Pop::new((0..n).map(|i| { let k = 1 + g.usize(0..5); let mut m = member::<D>(i as u64, births[i], gen_tree(&mut g, k, &fam, 2, 3).nodes(), 1, 0.0, 0.0); m.evaluate(&ds, &o, &mut ev); m }).collect());
        let (mut id, mut bi) = (1000u64, 1000u64);
        let mut st = RunningSearchStatistics::new(o.maxsize, 100);
        st.normalize();
        for _ in 0..steps {
            let before = ids(&p);
            let (id0, bi0) = (id, bi);
            let ev_n = reg_evol_cycle(&mut p, RegEvolCtx { rng: &mut g, dataset: ds, temperature: 1.0, curmaxsize: 8, stats: &st, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut bi, _ops: std::marker::PhantomData });
            if !(ev_n >= 0.0) { return Err(format!("evaluation count {ev_n}")); }
            if p.len() != n { return Err(format!("population size {} became {}", n, p.len())); }
            let kept: Vec<_> = ids(&p).into_iter().filter(|x| x.0 < id0).collect();
            for k in &kept { if !before.contains(k) { return Err(format!("a survivor {k:?} is not one of the members before")); } }
            for m in &p.members { if m.id.0 >= id0 && !(m.birth >= bi0 && m.birth < bi && m.id.0 < id) { return Err(format!("a new member has id {} birth {} outside this cycle's range", m.id.0, m.birth)); } }
            // those that left are the oldest: no survivor that was there before is older than a replaced one
            let gone: Vec<_> = before.iter().filter(|x| !ids(&p).contains(x)).collect();
            for k in &kept { for d in &gone { if k.1 < d.1 && o.crossover_probability <= 0.0 { return Err(format!("member with birth {} was replaced while older {} stayed", d.1, k.1)); } } }
        }
        Ok(())
    }))
}

fn main() {
    let r = Runner::new("one evaluation = one population with one list of birth stamps (replacement of the oldest and of the two oldest), or one evolution run; distinct = distinct birth lists / runs");
    // every order pattern of up to 5 births with values 0..4, including ties
    for n in 1..=5usize {
        for c in 0..5usize.pow(n as u32) {
            let b: Vec<u64> = (0..n).map(|i| (c / 5usize.pow(i as u32) % 5) as u64).collect();
            r.case("exhaustive", &b, || format!("births {b:?}"), || births(&b));
        }
    }
    let mut rng = r.rng("p17");
    let mut k = 0;
    while r.time_left() {
        k += 1;
        if k % 4 == 0 {
            let (d, f) = evolve(k, &mut rng);
            r.case("evolution", &d, || d.clone(), f);
        } else {
            let n = 1 + rng.usize(0..40);
            let hi = [3, 10, u64::MAX][rng.usize(0..3)];
            let b: Vec<u64> = (0..n).map(|_| if rng.u8(0..10) == 0 { u64::MAX } else { rng.u64(0..hi) }).collect();
            r.case("random", &b, || format!("births {b:?}"), || births(&b));
        }
    }
    r.finish();
}
