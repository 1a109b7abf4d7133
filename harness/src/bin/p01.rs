//! P01/P04 oracle: batched evaluation equals the operator tree the postfix denotes; completeness flag.
use harness::de::{compile_plan, eval_plan_array_into, eval_tree_array, eval_tree_array_into, EvalContext, EvalOptions};
use harness::*;
use ndarray::Array2;

type Ev = dyn Fn(u8, u16, &[f64]) -> f64;

fn check<Ops: de::OperatorSet<T = f64>, const D: usize>(
    t: &Tree,
    x: &Array2<f64>,
    consts: &[f64],
    opts: &EvalOptions,
    ev: &Ev,
    exact: bool,
) -> Result<(), String> {
    let nr = x.ncols();
    let nodes = t.nodes();
    let expr = expr_of::<Ops, D>(nodes.clone(), consts.to_vec());
    let mut fin = true;
    let want: Vec<f64> = (0..nr).map(|r| ref_eval(t, x, consts, r, ev, &mut fin)).collect();
    let eq = |a: f64, b: f64| if exact { same_bits(a, b) || a == b } else { close(a, b) };
    // root constants count for the finiteness check
    if let Tree::Const(c) = t {
        if !consts[*c as usize].is_finite() {
            fin = false;
        }
    }
    // an operator over only constants is evaluated once even with zero rows: flag unconstrained there
    let flag_known = nr > 0;
    let judge = |who: &str, got: &[f64], ok: bool| -> Result<(), String> {
        if got.len() != nr {
            return Err(format!("{who}: output length {} for {} rows", got.len(), nr));
        }
        if !opts.check_finite {
            if !ok {
                return Err(format!("{who}: reported incomplete with finiteness checking off"));
            }
        } else if flag_known && ok != fin {
            return Err(format!("{who}: completeness flag {ok}, but all intermediate values finite = {fin}"));
        }
        if !opts.early_exit || ok {
            for r in 0..nr {
                if !eq(got[r], want[r]) {
                    return Err(format!("{who}: row {r}: got {:?}, tree denotes {:?}", got[r], want[r]));
                }
            }
        }
        Ok(())
    };
    let (got, ok) = eval_tree_array::<f64, Ops, D>(&expr, x.view(), opts);
    judge("eval_tree_array", &got, ok)?;
    let plan = compile_plan::<D>(&nodes, x.nrows(), consts.len());
    let mut scratch = Array2::zeros((0, 0));
    let mut out = vec![12345.0; nr];
    for round in 0..2 {
        let ok = eval_plan_array_into::<f64, Ops, D>(&mut out, &plan, &expr, x.view(), &mut scratch, opts);
        judge(&format!("eval_plan_array_into (round {round})"), &out, ok)?;
        scratch.fill(f64::NAN);
        out.fill(-7.0);
    }
    let mut ctx = EvalContext::<f64, D>::new(nr);
    for _ in 0..2 {
        let ok = eval_tree_array_into::<f64, Ops, D>(&mut out, &expr, x.view(), &mut ctx, opts);
        judge("eval_tree_array_into", &out, ok)?;
    }
    Ok(())
}

fn opts_of(k: u8) -> EvalOptions {
    EvalOptions { check_finite: k & 1 == 0, early_exit: k & 2 == 0 }
}

fn main() {
    let r = Runner::new(
        "one evaluation = one (expression, data, options) triple evaluated through all public evaluation entry points and \
         compared with direct recursive evaluation of the tree; distinct = distinct (expression, options, row count)",
    );
    // exhaustive small scope over the exact modular operator family
    let fam: Family = vec![vec![0], vec![0, 1], vec![0]];
    let leaves = [Tree::Var(0), Tree::Var(1), Tree::Const(0)];
    let xs = Array2::from_shape_vec((2, 3), vec![5.0, 8.0, 1001.0, 77.0, 3.0, 19.0]).unwrap();
    let max = if r.thorough { 6 } else { 5 };
    for size in 1..=max {
        for t in all_trees(size, &leaves, &fam) {
            if !r.time_left() || r.used() > 0.5 {
                break;
            }
            r.case("exhaustive-small", &t, || format!("{:?} D=4 x={:?} consts=[41]", t.nodes(), xs), || {
                check::<ModOps, 4>(&t, &xs, &[41.0], &opts_of(0), &mod_eval, true)
            });
        }
    }
    let mut rng = r.rng("p01");
    let mf = mod_family();
    let bf = builtin_family();
    while r.time_left() {
        // now and then: more features, constants or live results than a byte counts
        let big = if rng.u8(0..24) == 0 { rng.u8(1..4) } else { 0 };
        let nf = if big == 1 { rng.usize(257..560) } else { rng.usize(1..7) };
        let nc = if big == 2 { rng.usize(257..560) } else { rng.usize(0..6) };
        let nr = [0usize, 1, 2, 3, 5, 8, 17][rng.usize(0..7)];
        let size = 1 + if rng.bool() { rng.usize(0..12) } else { rng.usize(0..90) };
        let k = rng.u8(0..4);
        let o = opts_of(k);
        if big > 0 || rng.u8(0..3) == 0 {
            let t = if big == 3 { let d = rng.usize(250..330); gen_comb(&mut rng, d, &mf, nf, nc) } else { gen_tree(&mut rng, size, &mf, nf, nc) };
            let x = Array2::from_shape_fn((nf, nr), |_| gen_mod_val(&mut rng));
            let c: Vec<f64> = (0..nc).map(|_| gen_mod_val(&mut rng)).collect();
            r.case("exact-ops", &(&t, k, nr), || format!("{:?} D=4 opts={o:?} x={x:?} consts={c:?}", t.nodes()), || {
                check::<ModOps, 4>(&t, &x, &c, &o, &mod_eval, true)
            });
        } else {
            let sp = rng.u8(0..3) == 0;
            let t = gen_tree(&mut rng, size.min(40), &bf, nf, nc);
            let x = gen_x(&mut rng, nf, nr, sp);
            let c: Vec<f64> = (0..nc).map(|_| gen_val(&mut rng, sp)).collect();
            r.case("builtin-ops", &(&t, k, nr), || format!("{:?} D=3 opts={o:?} x={x:?} consts={c:?}", t.nodes()), || {
                check::<BOps, 3>(&t, &x, &c, &o, &builtin_eval, false)
            });
        }
    }
    r.finish();
}
