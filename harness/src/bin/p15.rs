//! P15: complexity against the weighted node sum.
use harness::de::node::PNode;
use harness::de::OpId;
use harness::sr::compute_complexity;
use harness::sr::verif_hooks::{check_constraints, Options};
use harness::*;

const D: usize = 4;

fn reference(o: &Options<f64, D>, nodes: &[PNode]) -> usize {
    let mut s: u128 = 0;
    for n in nodes {
        s += match *n {
            PNode::Var { feature } => match &o.variable_complexities {
                Some(v) if (feature as usize) < v.len() => v[feature as usize] as u128,
                _ => o.complexity_of_variables as u128,
            },
            PNode::Const { .. } => o.complexity_of_constants as u128,
            PNode::Op { arity, op } => o.operator_complexity_overrides.get(&OpId { arity, id: op }).copied().unwrap_or(1) as u128,
        };
    }
    s.min(usize::MAX as u128) as usize
}

fn check(o: &Options<f64, D>, nodes: &[PNode]) -> Result<(), String> {
    let want = reference(o, nodes);
    for k in 0..2 {
        let got = compute_complexity(nodes, o);
        if got != want {
            return Err(format!("call {k}: complexity {got}, weighted sum {want}"));
        }
    }
    let e = expr_of::<ModOps, D>(nodes.to_vec(), vec![1.0; 4]);
    if !check_constraints(&e, o, want) || (want > 0 && check_constraints(&e, o, want - 1)) {
        return Err(format!("the size limit check does not use the weighted sum {want}"));
    }
    Ok(())
}

fn main() {
    let r = Runner::new("one evaluation = one tree with one weight configuration, compute_complexity and the size limit compared with the weighted node sum; distinct = distinct (nodes, weights)");
    let mut rng = r.rng("p15");
    let fam: Family = vec![vec![0, 1, 2], vec![0, 1, 2], vec![0, 1], vec![0]];
    let many: Family = vec![(0..600).collect(); 4];
    let mut wts = |rng: &mut Rng| -> u16 { [0, 1, 1, 2, 3, 7, 300, u16::MAX][rng.usize(0..8)] };
    while r.time_left() {
        let n = 1 + if rng.u8(0..10) == 0 { rng.usize(0..2000) } else { rng.usize(0..30) };
        // now and then large feature and operator numbers, with weight lists that reach them
        let wide = rng.u8(0..4) == 0;
        let nf = if wide { [300, 1000, 65535][rng.usize(0..3)] } else { 6 };
        let nodes = gen_tree(&mut rng, n, if wide { &many } else { &fam }, nf, 4).nodes();
        let mut o: Options<f64, D> = Options::default();
        o.maxdepth = usize::MAX;
        let m = rng.u8(0..6);
        if m == 1 || m == 5 { o.complexity_of_variables = wts(&mut rng); }
        if m == 2 || m == 5 { o.complexity_of_constants = wts(&mut rng); }
        if m == 3 || m == 5 { let len = if wide { [257, 700, 65536][rng.usize(0..3)] } else { rng.usize(0..8) }; o.variable_complexities = Some((0..len).map(|_| wts(&mut rng)).collect()); }
        if m == 4 || m == 5 {
            for _ in 0..1 + rng.usize(0..if wide { 800 } else { 5 }) {
                let arity = rng.u8(1..5);
                o.operator_complexity_overrides.insert(OpId { arity, id: if wide && rng.bool() { rng.u16(0..600) } else { rng.u16(0..4) } }, wts(&mut rng));
            }
        }
        let mut ov: Vec<_> = o.operator_complexity_overrides.iter().map(|(k, v)| (k.arity, k.id, *v)).collect();
        ov.sort();
        let s = format!("{nodes:?} variables={:?}/{} constants={} operators={ov:?}", o.variable_complexities, o.complexity_of_variables, o.complexity_of_constants);
        r.case("random", &s, || s.clone(), || check(&o, &nodes));
    }
    r.finish();
}
