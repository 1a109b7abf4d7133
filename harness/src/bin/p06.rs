//! P06: histories of calls through one context give the results of fresh contexts.
use harness::de::node::PNode;
use harness::de::*;
use harness::*;
use ndarray::Array2;

#[derive(Clone)]
struct Call {
    nodes: Vec<PNode>,
    consts: Vec<f64>,
    x: Array2<f64>,
    variable: bool,
    dir: usize,
    o: EvalOptions,
}
fn show(h: &[Call]) -> String {
    h.iter()
        .map(|c| format!("(nodes={:?} consts={:?} x={:?} variable={} dir={} opts={:?})", c.nodes, c.consts, c.x, c.variable, c.dir, c.o))
        .collect::<Vec<_>>()
        .join(" ; ")
}
fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_bits(*p, *q))
}

fn run<Ops: de::OperatorSet<T = f64>, const D: usize>(h: &[Call]) -> Result<(), String> {
    let nr = h[0].x.ncols();
    let mut ce = EvalContext::<f64, D>::new(nr);
    let mut cd = DiffContext::<f64, D>::new(nr);
    let mut cg = GradContext::<f64, D>::new(nr);
    for (i, c) in h.iter().enumerate() {
        let e = expr_of::<Ops, D>(c.nodes.clone(), c.consts.clone());
        let mut fe = EvalContext::<f64, D>::new(nr);
        let (mut o1, mut o2) = (vec![-3.0; nr], vec![-3.0; nr]);
        let want = guarded(|| eval_tree_array_into::<f64, Ops, D>(&mut o2, &e, c.x.view(), &mut fe, &c.o));
        let got = guarded(|| eval_tree_array_into::<f64, Ops, D>(&mut o1, &e, c.x.view(), &mut ce, &c.o));
        match (&got, &want) {
            (Ok(a), Ok(b)) if a == b && same(&o1, &o2) => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("call {i}: eval through the reused context gave {got:?} {o1:?}, a fresh one {want:?} {o2:?}")),
        }
        if c.dir < c.x.nrows() {
            let mut fd = DiffContext::<f64, D>::new(nr);
            let want = guarded(|| eval_diff_tree_array::<f64, Ops, D>(&e, c.x.view(), c.dir, &mut fd, &c.o));
            let got = guarded(|| eval_diff_tree_array::<f64, Ops, D>(&e, c.x.view(), c.dir, &mut cd, &c.o));
            match (&got, &want) {
                (Ok(a), Ok(b)) if a.2 == b.2 && same(&a.0, &b.0) && same(&a.1, &b.1) => {}
                (Err(_), Err(_)) => {}
                _ => return Err(format!("call {i}: derivative through the reused context gave {got:?}, a fresh one {want:?}")),
            }
        }
        let mut fg = GradContext::<f64, D>::new(nr);
        let want = guarded(|| eval_grad_tree_array::<f64, Ops, D>(&e, c.x.view(), c.variable, &mut fg, &c.o));
        let got = guarded(|| eval_grad_tree_array::<f64, Ops, D>(&e, c.x.view(), c.variable, &mut cg, &c.o));
        match (&got, &want) {
            (Ok(a), Ok(b))
                if a.2 == b.2 && same(&a.0, &b.0) && same(&a.1.data, &b.1.data) && (a.1.n_dir, a.1.n_rows) == (b.1.n_dir, b.1.n_rows) => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("call {i}: gradient through the reused context gave {got:?}, a fresh one {want:?}")),
        }
    }
    Ok(())
}

/// two different programs whose FxHash content hashes are equal (found by lattice reduction)
fn colliding() -> (Vec<PNode>, Vec<PNode>) {
    let d: [i32; 14] = [-8, 6, 10, 0, 13, 3, 14, 7, -11, -8, -7, 1, -5, 1];
    let mk = |s: i32| -> Vec<PNode> {
        let mut v = Vec::new();
        for (i, &k) in d.iter().enumerate() {
            v.push(PNode::Var { feature: (s * k).max(0) as u16 });
            if i > 0 {
                v.push(PNode::Op { arity: 2, op: 0 });
            }
        }
        v
    };
    (mk(1), mk(-1))
}

fn main() {
    let r = Runner::new(
        "one evaluation = one history of calls through one evaluation, one derivative and one gradient context, each call compared bit for bit \
         with a fresh context; distinct = distinct histories",
    );
    let on = EvalOptions { check_finite: true, early_exit: true };
    {
        let (a, b) = colliding();
        let x = Array2::from_shape_fn((16, 3), |(i, j)| (i * 7 + j * 3 + 1) as f64);
        let mk = |n: &Vec<PNode>| Call { nodes: n.clone(), consts: vec![], x: x.clone(), variable: true, dir: 3, o: on };
        for h in [vec![mk(&a), mk(&b)], vec![mk(&b), mk(&a), mk(&b)]] {
            r.case("hash-collision", &show(&h), || show(&h), || run::<ModOps, 4>(&h));
        }
    }
    let mut rng = r.rng("p06");
    let fam = mod_family();
    while r.time_left() {
        let nr = [1usize, 2, 3, 0, 4][rng.usize(0..5)];
        let mut h: Vec<Call> = Vec::new();
        let n = rng.usize(2..7);
        for _ in 0..n {
            let c = if h.is_empty() || rng.u8(0..4) == 0 {
                let nf = rng.usize(1..5);
                let nc = rng.usize(0..4);
                let size = 1 + rng.usize(0..9);
                Call {
                    nodes: gen_tree(&mut rng, size, &fam, nf, nc).nodes(),
                    consts: (0..nc).map(|_| gen_mod_val(&mut rng)).collect(),
                    x: Array2::from_shape_fn((nf, nr), |_| gen_mod_val(&mut rng)),
                    variable: rng.bool(),
                    dir: rng.usize(0..nf),
                    o: EvalOptions { check_finite: rng.bool(), early_exit: rng.bool() },
                }
            } else {
                // a small edit of an earlier call
                let mut c = h[rng.usize(0..h.len())].clone();
                for _ in 0..rng.usize(1..3) {
                    let i = rng.usize(0..c.nodes.len());
                    match rng.u8(0..12) {
                        0 => for n in c.nodes.iter_mut() { if let PNode::Var { feature } = n { *feature = rng.u16(0..c.x.nrows() as u16); } },
                        1 => if let PNode::Op { arity, op } = &mut c.nodes[i] { if *arity < 4 { *op = 1 - *op; } },
                        2 => if !matches!(c.nodes[i], PNode::Op { .. }) { c.nodes[i] = PNode::Var { feature: rng.u16(0..c.x.nrows() as u16) }; },
                        3 => if !matches!(c.nodes[i], PNode::Op { .. }) && !c.consts.is_empty() { c.nodes[i] = PNode::Const { idx: rng.u16(0..c.consts.len() as u16) }; },
                        4 => for k in c.consts.iter_mut() { *k = gen_mod_val(&mut rng); },
                        5 => c.consts.push(5.0),
                        6 => { let nf = rng.usize(1..6); c.x = Array2::from_shape_fn((nf, nr), |_| gen_mod_val(&mut rng)); c.dir = rng.usize(0..nf); }
                        7 => c.x.mapv_inplace(|v| v + 1.0),
                        8 => c.variable = !c.variable,
                        9 => c.dir = rng.usize(0..c.x.nrows()),
                        10 => { c.consts.pop(); }
                        _ => {
                            // same length, different shape: re-grow
                            let (l, nf, nc) = (c.nodes.len(), c.x.nrows(), c.consts.len());
                            c.nodes = gen_tree(&mut rng, l, &fam, nf, nc).nodes();
                        }
                    }
                }
                c
            };
            h.push(c);
        }
        r.case("histories", &show(&h), || show(&h), || run::<ModOps, 4>(&h));
    }
    r.finish();
}
