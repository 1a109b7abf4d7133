//! P04: gradients with respect to all features / all constants: shape, layout, chain rule.
use harness::de::{eval_grad_tree_array, eval_tree_array, EvalOptions, GradContext};
use harness::*;
use ndarray::Array2;

fn check<Ops: de::OperatorSet<T = f64>, const D: usize>(
    t: &Tree,
    x: &Array2<f64>,
    consts: &[f64],
    opts: &EvalOptions,
    ev: &dyn Fn(u8, u16, &[f64]) -> f64,
    pa: &dyn Fn(u8, u16, &[f64], usize) -> f64,
    first_variable: bool,
) -> Result<(), String> {
    let nr = x.ncols();
    let expr = expr_of::<Ops, D>(t.nodes(), consts.to_vec());
    let mut ctx = GradContext::<f64, D>::new(nr);
    for variable in [first_variable, !first_variable] {
        let n_dir = if variable { x.nrows() } else { consts.len() };
        let (v, g, ok) = eval_grad_tree_array::<f64, Ops, D>(&expr, x.view(), variable, &mut ctx, opts);
        if v.len() != nr || g.n_dir != n_dir || g.n_rows != nr || g.data.len() != n_dir * nr {
            return Err(format!(
                "variable={variable}: {} values and a {}x{} gradient of {} entries, expected {nr} and {n_dir}x{nr}",
                v.len(), g.n_dir, g.n_rows, g.data.len()
            ));
        }
        if opts.early_exit && !ok {
            if v.iter().chain(g.data.iter()).any(|z| !z.is_nan()) {
                return Err(format!("variable={variable}: abandoned call returned entries that are not NaN"));
            }
            continue;
        }
        let (pv, _) = eval_tree_array::<f64, Ops, D>(&expr, x.view(), &EvalOptions { check_finite: false, early_exit: false });
        for r in 0..nr {
            if !same_bits(v[r], pv[r]) {
                return Err(format!("variable={variable} row {r}: value {:?}, plain evaluation {:?}", v[r], pv[r]));
            }
            for d in 0..n_dir {
                let dir = if variable { Dir::Feature(d) } else { Dir::Constant(d) };
                let (rv, rd, m) = ref_diff(t, x, consts, r, dir, ev, pa);
                let got = g.data[d * nr + r];
                if rv.is_finite() && !der_close(got, rd, m) {
                    return Err(format!("{dir:?} row {r}: gradient {got:?}, chain rule {rd:?}"));
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let r = Runner::new(
        "one evaluation = one (expression, data, options) triple whose feature and constant gradients (in either order through one \
         context) are compared with a recursive chain-rule reference; distinct = distinct (expression, options, row count)",
    );
    let fam: Family = vec![vec![0], vec![0], vec![0]];
    let leaves = [Tree::Var(0), Tree::Var(1), Tree::Const(0), Tree::Const(1)];
    let xs = Array2::from_shape_vec((2, 3), vec![5.0, 8.0, 1001.0, 77.0, 3.0, 19.0]).unwrap();
    let on = EvalOptions { check_finite: true, early_exit: true };
    for size in 1..=(if r.thorough { 6 } else { 5 }) {
        for t in all_trees(size, &leaves, &fam) {
            if !r.time_left() || r.used() > 0.5 {
                break;
            }
            r.case("exhaustive-small", &t, || format!("{:?} D=4 x={:?} consts=[41,9]", t.nodes(), xs), || {
                check::<ModOps, 4>(&t, &xs, &[41.0, 9.0], &on, &mod_eval, &mod_partial, size % 2 == 0)
            });
        }
    }
    let mut rng = r.rng("p04");
    let (mf, bf) = (mod_family(), builtin_family());
    while r.time_left() {
        // now and then: more features, constants or live results than a byte counts
        let big = if rng.u8(0..24) == 0 { rng.u8(1..4) } else { 0 };
        let nf = if big == 1 { rng.usize(257..560) } else { rng.usize(1..6) };
        let nc = if big == 2 { rng.usize(257..560) } else { rng.usize(0..6) };
        let nr = [0usize, 1, 2, 3, 5, 8][rng.usize(0..6)];
        let k = rng.u8(0..4);
        let first = rng.bool();
        let o = EvalOptions { check_finite: k & 1 == 0, early_exit: k & 2 == 0 };
        if big > 0 || rng.bool() {
            let size = 1 + rng.usize(0..30);
            let t = if big == 3 { let d = rng.usize(250..330); gen_comb(&mut rng, d, &mf, nf, nc) } else { gen_tree(&mut rng, size, &mf, nf, nc) };
            let x = Array2::from_shape_fn((nf, nr), |_| gen_mod_val(&mut rng));
            let c: Vec<f64> = (0..nc).map(|_| gen_mod_val(&mut rng)).collect();
            r.case("exact-ops", &(&t, k, nr), || format!("{:?} D=4 opts={o:?} x={x:?} consts={c:?}", t.nodes()), || {
                check::<ModOps, 4>(&t, &x, &c, &o, &mod_eval, &mod_partial, first)
            });
        } else {
            let sp = rng.u8(0..4) == 0;
            let size = 1 + rng.usize(0..12);
            let t = gen_tree(&mut rng, size, &bf, nf, nc);
            let x = gen_x(&mut rng, nf, nr, sp);
            let c: Vec<f64> = (0..nc).map(|_| gen_val(&mut rng, sp)).collect();
            r.case("builtin-ops", &(&t, k, nr), || format!("{:?} D=3 opts={o:?} x={x:?} consts={c:?}", t.nodes()), || {
                check::<BOps, 3>(&t, &x, &c, &o, &builtin_eval, &builtin_partial, first)
            });
        }
    }
    r.finish();
}
