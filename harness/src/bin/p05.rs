//! P05: the completeness flag of evaluation, directional differentiation and gradients.
use harness::de::*;
use harness::*;
use ndarray::Array2;

fn opts(cf: bool, ee: bool) -> EvalOptions {
    EvalOptions { check_finite: cf, early_exit: ee }
}
fn max_arity(t: &Tree) -> usize {
    match t {
        Tree::Op(a, _, ch) => (*a as usize).max(ch.iter().map(max_arity).max().unwrap_or(0)),
        _ => 0,
    }
}

fn check<Ops: de::OperatorSet<T = f64>, const D: usize>(
    t: &Tree,
    x: &Array2<f64>,
    consts: &[f64],
    ev: &dyn Fn(u8, u16, &[f64]) -> f64,
) -> Result<(), String> {
    let nr = x.ncols();
    let expr = expr_of::<Ops, D>(t.nodes(), consts.to_vec());
    let mut fin = true;
    for r in 0..nr {
        ref_eval(t, x, consts, r, ev, &mut fin);
    }
    if let Tree::Const(c) = t {
        fin &= consts[*c as usize].is_finite();
    }
    type Out = (Vec<f64>, Vec<f64>, bool);
    let run = |what: usize, o: &EvalOptions| -> Out {
        match what {
            0 => {
                let (v, ok) = eval_tree_array::<f64, Ops, D>(&expr, x.view(), o);
                (v, vec![], ok)
            }
            1 => {
                let mut c = DiffContext::<f64, D>::new(nr);
                eval_diff_tree_array::<f64, Ops, D>(&expr, x.view(), 0, &mut c, o)
            }
            w => {
                let mut c = GradContext::<f64, D>::new(nr);
                let (v, g, ok) = eval_grad_tree_array::<f64, Ops, D>(&expr, x.view(), w == 2, &mut c, o);
                (v, g.data, ok)
            }
        }
    };
    for what in 0..4 {
        let name = ["eval_tree_array", "eval_diff_tree_array", "eval_grad_tree_array(features)", "eval_grad_tree_array(constants)"][what];
        let a = run(what, &opts(true, true));
        let b = run(what, &opts(true, false));
        let c = run(what, &opts(false, true));
        let d = run(what, &opts(false, false));
        // all-constant operators run once even with no rows: the flag is only constrained with rows
        if nr > 0 {
            let lenient = what == 1 && max_arity(t) >= 3;
            if lenient {
                if !fin && (a.2 || b.2) {
                    return Err(format!("{name}: reports completion although an operator value is not finite"));
                }
            } else if a.2 != fin || b.2 != fin {
                return Err(format!("{name}: flag {} (early exit on) / {} (off), all operator values finite = {fin}", a.2, b.2));
            }
        }
        if a.2 != b.2 {
            return Err(format!("{name}: early exit changed the flag: {} with, {} without", a.2, b.2));
        }
        if !c.2 || !d.2 {
            return Err(format!("{name}: reported incomplete with finiteness checking off"));
        }
        let same = |p: &[f64], q: &[f64]| p.len() == q.len() && p.iter().zip(q).all(|(u, w)| same_bits(*u, *w));
        if !same(&c.0, &d.0) || !same(&c.1, &d.1) {
            return Err(format!("{name}: early exit changed the results with checking off"));
        }
        if a.2 && (!same(&a.0, &b.0) || !same(&a.1, &b.1)) {
            return Err(format!("{name}: turning early exit off changed the results of a call that completes"));
        }
        if a.2 && (!same(&a.0, &d.0) || !same(&a.1, &d.1)) {
            return Err(format!("{name}: the finiteness check changed the results of a call that completes"));
        }
    }
    Ok(())
}

dynamic_expressions::custom_opset! {
    /// operators that hide or produce non-finite values
    pub struct MaskOps<f64> {
        1 {
            inv { eval: |a: &[f64; 1]| 1.0 / a[0], partial: |a: &[f64; 1], _i: usize| -1.0 / (a[0] * a[0]), }
            zero { eval: |_a: &[f64; 1]| 0.0, partial: |_a: &[f64; 1], _i: usize| 0.0, }
        }
        2 {
            first { eval: |a: &[f64; 2]| a[0], partial: |_a: &[f64; 2], i: usize| if i == 0 { 1.0 } else { 0.0 }, }
            div { eval: |a: &[f64; 2]| a[0] / a[1], partial: |a: &[f64; 2], i: usize| if i == 0 { 1.0 / a[1] } else { -a[0] / (a[1] * a[1]) }, }
        }
        3 {
            pick { eval: |a: &[f64; 3]| if a[0] > 0.0 { a[1] } else { a[2] }, partial: |a: &[f64; 3], i: usize| if i == 0 { 0.0 } else if (a[0] > 0.0) == (i == 1) { 1.0 } else { 0.0 }, }
            mad { eval: |a: &[f64; 3]| a[0] / a[1] + a[2], partial: |a: &[f64; 3], i: usize| match i { 0 => 1.0 / a[1], 1 => -a[0] / (a[1] * a[1]), _ => 1.0 }, }
        }
    }
}
fn mask_eval(arity: u8, op: u16, a: &[f64]) -> f64 {
    match (arity, op) {
        (1, 0) => 1.0 / a[0],
        (1, 1) => 0.0,
        (2, 0) => a[0],
        (2, 1) => a[0] / a[1],
        (3, 0) => if a[0] > 0.0 { a[1] } else { a[2] },
        (3, 1) => a[0] / a[1] + a[2],
        _ => unreachable!(),
    }
}

fn main() {
    let r = Runner::new(
        "one evaluation = one (expression, data) pair run through evaluation, differentiation and both gradients under the four option \
         settings, flags compared with whether every operator value of the reference tree is finite; distinct = distinct (expression, data seed)",
    );
    let mut rng = r.rng("p05");
    let bf = builtin_family();
    let mf: Family = vec![vec![0, 1], vec![0, 1], vec![0, 1]];
    while r.time_left() {
        let nf = rng.usize(1..5);
        let nc = rng.usize(0..5);
        let nr = [0usize, 1, 2, 3, 5, 9][rng.usize(0..6)];
        let tag = rng.u64(..);
        if rng.u8(0..3) > 0 {
            let size = 1 + rng.usize(0..14);
            let t = gen_tree(&mut rng, size, &mf, nf, nc);
            let mut val = |rng: &mut Rng| [0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -0.0, f64::INFINITY, f64::NAN, -4.0, 7.0, 1.5, 2.5, 8.0][rng.usize(0..14)];
            let x = Array2::from_shape_fn((nf, nr), |_| val(&mut rng));
            let c: Vec<f64> = (0..nc).map(|_| val(&mut rng)).collect();
            r.case("masking-ops", &(&t, tag), || format!("{:?} D=3 MaskOps x={x:?} consts={c:?}", t.nodes()), || {
                check::<MaskOps, 3>(&t, &x, &c, &mask_eval)
            });
        } else {
            let size = 1 + rng.usize(0..14);
            let t = gen_tree(&mut rng, size, &bf, nf, nc);
            let sp = rng.bool();
            let x = gen_x(&mut rng, nf, nr, sp);
            let c: Vec<f64> = (0..nc).map(|_| gen_val(&mut rng, sp)).collect();
            r.case("builtin-ops", &(&t, tag), || format!("{:?} D=3 x={x:?} consts={c:?}", t.nodes()), || {
                check::<BOps, 3>(&t, &x, &c, &builtin_eval)
            });
        }
    }
    r.finish();
}
