//! P03: directional differentiation returns plain values and chain-rule derivatives.
use harness::de::{eval_diff_tree_array, eval_tree_array, DiffContext, EvalOptions};
use harness::*;
use ndarray::Array2;

fn check<Ops: de::OperatorSet<T = f64>, const D: usize>(
    t: &Tree,
    x: &Array2<f64>,
    consts: &[f64],
    opts: &EvalOptions,
    ev: &dyn Fn(u8, u16, &[f64]) -> f64,
    pa: &dyn Fn(u8, u16, &[f64], usize) -> f64,
) -> Result<(), String> {
    let nr = x.ncols();
    let expr = expr_of::<Ops, D>(t.nodes(), consts.to_vec());
    let mut ctx = DiffContext::<f64, D>::new(nr);
    for dir in 0..x.nrows() {
        let (v, d, ok) = eval_diff_tree_array::<f64, Ops, D>(&expr, x.view(), dir, &mut ctx, opts);
        if v.len() != nr || d.len() != nr {
            return Err(format!("direction {dir}: lengths {} and {} for {nr} rows", v.len(), d.len()));
        }
        if opts.early_exit && !ok {
            continue;
        }
        let (pv, _) = eval_tree_array::<f64, Ops, D>(&expr, x.view(), &EvalOptions { check_finite: false, early_exit: false });
        for r in 0..nr {
            if !same_bits(v[r], pv[r]) {
                return Err(format!("direction {dir} row {r}: value {:?}, plain evaluation {:?}", v[r], pv[r]));
            }
            let (rv, rd, m) = ref_diff(t, x, consts, r, Dir::Feature(dir), ev, pa);
            if rv.is_finite() && !der_close(d[r], rd, m) {
                return Err(format!("direction {dir} row {r}: derivative {:?}, chain rule {:?}", d[r], rd));
            }
        }
    }
    Ok(())
}

fn main() {
    let r = Runner::new(
        "one evaluation = one (expression, data, options) triple differentiated in every feature direction and compared with a \
         recursive chain-rule reference; distinct = distinct (expression, options, row count)",
    );
    let fam: Family = vec![vec![0], vec![0], vec![0]];
    let leaves = [Tree::Var(0), Tree::Var(1), Tree::Const(0)];
    let xs = Array2::from_shape_vec((2, 3), vec![5.0, 8.0, 1001.0, 77.0, 3.0, 19.0]).unwrap();
    let on = EvalOptions { check_finite: true, early_exit: true };
    for size in 1..=(if r.thorough { 6 } else { 5 }) {
        for t in all_trees(size, &leaves, &fam) {
            if !r.time_left() || r.used() > 0.5 {
                break;
            }
            r.case("exhaustive-small", &t, || format!("{:?} D=4 x={:?} consts=[41]", t.nodes(), xs), || {
                check::<ModOps, 4>(&t, &xs, &[41.0], &on, &mod_eval, &mod_partial)
            });
        }
    }
    let mut rng = r.rng("p03");
    let (mf, bf) = (mod_family(), builtin_family());
    while r.time_left() {
        // now and then: more features, constants or live results than a byte counts
        let big = if rng.u8(0..24) == 0 { rng.u8(1..4) } else { 0 };
        let nf = if big == 1 { rng.usize(257..560) } else { rng.usize(1..6) };
        let nc = if big == 2 { rng.usize(257..560) } else { rng.usize(0..5) };
        let nr = [0usize, 1, 2, 3, 5, 8][rng.usize(0..6)];
        let k = rng.u8(0..4);
        let o = EvalOptions { check_finite: k & 1 == 0, early_exit: k & 2 == 0 };
        if big > 0 || rng.bool() {
            let size = 1 + rng.usize(0..30);
            let t = if big == 3 { let d = rng.usize(250..330); gen_comb(&mut rng, d, &mf, nf, nc) } else { gen_tree(&mut rng, size, &mf, nf, nc) };
            let x = Array2::from_shape_fn((nf, nr), |_| gen_mod_val(&mut rng));
            let c: Vec<f64> = (0..nc).map(|_| gen_mod_val(&mut rng)).collect();
            r.case("exact-ops", &(&t, k, nr), || format!("{:?} D=4 opts={o:?} x={x:?} consts={c:?}", t.nodes()), || {
                check::<ModOps, 4>(&t, &x, &c, &o, &mod_eval, &mod_partial)
            });
        } else {
            let sp = rng.u8(0..4) == 0;
            let size = 1 + rng.usize(0..12);
            let t = gen_tree(&mut rng, size, &bf, nf, nc);
            let x = gen_x(&mut rng, nf, nr, sp);
            let c: Vec<f64> = (0..nc).map(|_| gen_val(&mut rng, sp)).collect();
            r.case("builtin-ops", &(&t, k, nr), || format!("{:?} D=3 opts={o:?} x={x:?} consts={c:?}", t.nodes()), || {
                check::<BOps, 3>(&t, &x, &c, &o, &builtin_eval, &builtin_partial)
            });
        }
    }
    r.finish();
}
