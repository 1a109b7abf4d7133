//! P28: built-in operators compute their named function and its partial derivatives, reached through the preset sets.
use harness::de::*;
use harness::*;
use ndarray::Array2;

fn check(arity: u8, id: u16, name: &str, args: &[f64]) -> Result<(), String> {
    let mut nodes: Vec<_> = (0..arity as u16).map(|f| node::PNode::Var { feature: f }).collect();
    nodes.push(node::PNode::Op { arity, op: id });
    let e = expr_of::<BOps, 3>(nodes, vec![]);
    let x = Array2::from_shape_vec((arity as usize, 1), args.to_vec()).unwrap();
    let o = EvalOptions { check_finite: false, early_exit: false };
    let (v, _) = eval_tree_array::<f64, BOps, 3>(&e, x.view(), &o);
    let want = builtin_ref(name, args);
    if !close(v[0], want) {
        return Err(format!("{name}({args:?}) = {:?}, expected {want:?}", v[0]));
    }
    if !want.is_finite() {
        return Ok(());
    }
    for i in 0..arity as usize {
        let d = builtin_partial(arity, id, args, i);
        let w = builtin_pref(name, args, i);
        if w.is_finite() && !((d - w).abs() <= 1e-6 * w.abs() + 1e-9) {
            return Err(format!("d{name}/darg{i} at {args:?} = {d:?}, expected {w:?}"));
        }
        // through the preset's dispatch: every other direction contributes its (finite) partial times zero
        let all_finite = (0..arity as usize).all(|j| builtin_partial(arity, id, args, j).is_finite());
        if all_finite {
            let mut c = DiffContext::<f64, 3>::new(1);
            let (_, g, _) = eval_diff_tree_array::<f64, BOps, 3>(&e, x.view(), i, &mut c, &o);
            if !close(g[0], d) {
                return Err(format!("dispatch of d{name}/darg{i} at {args:?} = {:?}, the operator says {d:?}", g[0]));
            }
        }
    }
    Ok(())
}

fn main() {
    let r = Runner::new(
        "one evaluation = one built-in operator at one argument tuple: value and every partial derivative against the analytic reference; \
         distinct = distinct (operator, arguments)",
    );
    let ops: Vec<(u8, u16, &'static str)> = (1..=3u8)
        .flat_map(|a| BOps::ops_with_arity(a).iter().map(move |&id| (a, id, BOps::name(OpId { arity: a, id }))))
        .collect();
    for &(a, id, n) in &ops {
        r.case("metadata", &(a, id), || format!("operator {n} arity {a} id {id}"), || {
            let m = BOps::meta(OpId { arity: a, id }).ok_or("no metadata")?;
            if m.arity != a || m.id != id {
                return Err(format!("metadata of ({a},{id}) says ({},{})", m.arity, m.id));
            }
            for tok in [n.to_string(), n.to_uppercase(), format!(" {n} "), m.display.to_string()].into_iter().chain(m.infix.map(|s| s.to_string())) {
                match BOps::lookup_with_arity(&tok, a) {
                    Ok(o) if o == (OpId { arity: a, id }) => {}
                    other => return Err(format!("lookup of {tok:?} at arity {a} gave {other:?}")),
                }
            }
            // declared commutativity / associativity must be true of the function
            if a == 2 {
                let f = |p: f64, q: f64| builtin_ref(n, &[p, q]);
                for (p, q) in [(1.5, -0.25), (3.0, 2.0), (0.5, 0.75)] {
                    if m.commutative && f(p, q) != f(q, p) {
                        return Err(format!("{n} is declared commutative"));
                    }
                    if m.associative && !close(f(f(p, q), 1.25), f(p, f(q, 1.25))) {
                        return Err(format!("{n} is declared associative"));
                    }
                }
            }
            Ok(())
        });
    }
    let grid = [-1e3, -30.0, -3.0, -2.0, -1.5, -1.0, -0.75, -0.5, -0.1, -1e-3, 0.0, 1e-3, 0.1, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 10.0, 30.0, 1e3];
    for &(a, id, n) in &ops {
        let mut idx = vec![0usize; a as usize];
        loop {
            let v: Vec<f64> = idx.iter().map(|&i| grid[i]).collect();
            r.case("grid", &(a, id, bits(&v)), || format!("{n}{v:?}"), || check(a, id, n, &v));
            let mut k = 0;
            while k < idx.len() {
                idx[k] += 1;
                if idx[k] < grid.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == idx.len() {
                break;
            }
        }
    }
    let mut rng = r.rng("p28");
    while r.time_left() && r.used() < 0.5 {
        let (a, id, n) = ops[rng.usize(0..ops.len())];
        let v: Vec<f64> = (0..a).map(|_| gen_val(&mut rng, false) * [1.0, 0.3, 5.0][rng.usize(0..3)]).collect();
        r.case("random", &(a, id, bits(&v)), || format!("{n}{v:?}"), || check(a, id, n, &v));
    }
    r.finish();
}
