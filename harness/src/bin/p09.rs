//! P09: simplification keeps the value.
use de::expression::PostfixExpr;
use de::node::PNode;
use de::OperatorSet;
use harness::*;

const NF: usize = 3;

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// value; `mag` collects the greatest magnitude met, `fin` is cleared by any non-finite operator result or constant used
fn value(t: &VTree, x: &[f64], ev: &dyn Fn(u8, u16, &[f64]) -> f64, mag: &mut f64, fin: &mut bool) -> f64 {
    let v = match t {
        VTree::Var(f) => x[*f as usize],
        VTree::Const(c) => f64::from_bits(*c),
        VTree::Op(a, o, ch) => {
            let vs: Vec<f64> = ch.iter().map(|c| value(c, x, ev, mag, fin)).collect();
            ev(*a, *o, &vs)
        }
    };
    if !v.is_finite() {
        *fin = false;
    }
    *mag = mag.max(v.abs());
    v
}

fn check<Ops: OperatorSet<T = f64>>(
    mode: u8, nodes: &[PNode], consts: &[f64], xs: &[Vec<f64>], opts: &de::EvalOptions, ev: &dyn Fn(u8, u16, &[f64]) -> f64, exact: bool,
) -> Result<(), String> {
    let known = |a: u8, o: u16| Ops::ops_with_arity(a).contains(&o);
    let before = vtree(nodes, consts, NF, &known).map_err(|m| format!("generator: {m}"))?;
    let mut e: PostfixExpr<f64, Ops, 4> = expr_of(nodes.to_vec(), consts.to_vec());
    let r = match mode {
        0 => de::simplify_tree_in_place(&mut e, opts),
        1 => de::combine_operators_in_place(&mut e),
        _ => de::simplify_in_place(&mut e, opts),
    };
    let say = |m: String| format!("{m}: {nodes:?} {consts:?} became {:?} {:?}", e.nodes, e.consts);
    let after = vtree(&e.nodes, &e.consts, NF, &known).map_err(|m| say(m))?;
    if e.nodes.len() > nodes.len() {
        return Err(say("longer than before".into()));
    }
    if !r && (e.nodes != nodes || bits(&e.consts) != bits(consts)) {
        return Err(say("reported no change".into()));
    }
    let mut vars: Vec<u16> = e.nodes.iter().filter_map(|n| if let PNode::Var { feature } = n { Some(*feature) } else { None }).collect();
    vars.retain(|f| !nodes.contains(&PNode::Var { feature: *f }));
    if !vars.is_empty() {
        return Err(say(format!("features {vars:?} were not used before")));
    }
    for x in xs {
        let (mut m0, mut m1, mut f0, mut f1) = (1.0, 1.0, true, true);
        let v0 = value(&before, x, ev, &mut m0, &mut f0);
        let v1 = value(&after, x, ev, &mut m1, &mut f1);
        if !f0 {
            continue;
        }
        let ok = if exact { v0 == v1 } else { (v0 - v1).abs() <= 1e-10 * m0.max(m1) };
        if !ok {
            return Err(say(format!("at x = {x:?} the value {v0:?} became {v1:?}")));
        }
    }
    Ok(())
}

fn main() {
    let r = Runner::new("one evaluation = one expression simplified by one entry point and compared at several inputs; distinct = distinct (entry point, expression, constants, options)");
    let bop = |n: &str, a: u8| *BOps::ops_with_arity(a).iter().find(|&&id| BOps::name(de::OpId { arity: a, id }) == n).unwrap();
    let names = ["constant folding", "operator combination", "both"];
    let o0 = de::EvalOptions { check_finite: true, early_exit: true };
    // exhaustive: chains of + - * and neg over two constants and a feature
    let core: Family = vec![vec![bop("neg", 1)], vec![bop("add", 2), bop("sub", 2), bop("mul", 2)], vec![]];
    let leaves = [Tree::Var(0), Tree::Const(0), Tree::Const(1)];
    let xs: Vec<Vec<f64>> = vec![vec![0.75, 2.0, 3.0], vec![-5.0, 0.5, -0.25]];
    'ex: for size in 1..=5 {
        for t in all_trees(size, &leaves, &core) {
            let n = t.nodes();
            for mode in [1u8, 2] {
                r.case("exhaustive", &(mode, &n), || format!("{} of {n:?} consts [2.5, -3.0]", names[mode as usize]), || check::<BOps>(mode, &n, &[2.5, -3.0], &xs, &o0, &builtin_eval, true));
            }
            if r.used() > 0.5 {
                break 'ex;
            }
        }
    }
    let benign: Family = vec![
        ["neg", "abs", "cos", "sin", "tanh", "identity"].iter().map(|n| bop(n, 1)).collect(),
        ["add", "sub", "mul", "min", "max", "add", "sub"].iter().map(|n| bop(n, 2)).collect(),
        vec![],
    ];
    let all = builtin_family();
    let mf = mod_family();
    let mut g = r.rng("p09");
    while r.time_left() {
        let o = de::EvalOptions { check_finite: g.bool(), early_exit: g.bool() };
        let size = [1, 2, 3, 5, 7, 9, 13, 21][g.usize(0..8)];
        let nc = 1 + g.usize(0..4);
        let which = g.u8(0..4);
        let fam = match which { 0 => &core, 1 => &benign, 2 => &all, _ => &mf };
        let nf = if g.u8(0..5) == 0 { 1 } else { NF };
        let t = gen_tree(&mut g, size, fam, nf, nc);
        let n = t.nodes();
        // only folding is exact for every operator; combination may re-associate, so it is compared over well-conditioned operators
        // and constants of ordinary size (a cancellation of 1e308 times 1e308 has no meaningful rounding bound)
        let mode = if which == 2 { 0 } else { g.u8(0..3) };
        let special = mode == 0 && g.u8(0..4) == 0;
        let xs: Vec<Vec<f64>> = (0..3).map(|_| (0..NF).map(|_| if which == 3 { gen_mod_val(&mut g) } else { g.i32(-40..40) as f64 / 8.0 }).collect()).collect();
        let c: Vec<f64> = (0..nc).map(|_| if which == 3 { gen_mod_val(&mut g) } else if special { gen_val(&mut g, true) } else { g.i32(-24..24) as f64 / 4.0 }).collect();
        let exact = which == 3 || mode == 0;
        let key = (mode, which, &n, bits(&c), o.check_finite, o.early_exit);
        let d = || format!("{} of {n:?} consts {c:?} ({}) options {:?} inputs {xs:?}", names[mode as usize], if which == 3 { "ModOps" } else { "BuiltinOpsF64" }, (o.check_finite, o.early_exit));
        if which == 3 {
            r.case("integer operators", &key, d, || check::<ModOps>(mode, &n, &c, &xs, &o, &mod_eval, exact));
        } else {
            r.case(["core", "benign", "all operators"][which as usize], &key, d, || check::<BOps>(mode, &n, &c, &xs, &o, &builtin_eval, exact));
        }
    }
    r.finish();
}
