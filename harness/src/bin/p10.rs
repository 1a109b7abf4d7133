//! P10: building expressions with operators and functions composes their meaning.
use de::expression::PostfixExpr;
use de::{lit, OperatorSet};
use harness::*;

type E = PostfixExpr<f64, BOps, 3>;
type B2 = (&'static str, &'static str, fn(E, E) -> E);
type B1 = (&'static str, &'static str, fn(E) -> E);

macro_rules! table { ($t:ty; $($n:ident)*) => { vec![$((stringify!($n), stringify!($n), de::operators::$n::<f64, BOps, 3> as $t)),*] } }

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn vt(e: &E) -> Result<VTree, String> {
    vtree(&e.nodes, &e.consts, 1 << 16, &|a, o| BOps::ops_with_arity(a).contains(&o))
}
fn names(e: &E) -> Vec<String> {
    e.meta.variable_names.clone()
}
fn eval(e: &E, x: &ndarray::Array2<f64>) -> Vec<f64> {
    let o = de::EvalOptions { check_finite: false, early_exit: false };
    de::eval_tree_array::<f64, BOps, 3>(e, x.view(), &o).0
}

/// `got` must be operator `name` over `parts` in this order
fn check(name: &str, parts: &[E], got: &E, x: &ndarray::Array2<f64>) -> Result<(), String> {
    let a = parts.len() as u8;
    let id = *BOps::ops_with_arity(a).iter().find(|&&id| BOps::name(de::OpId { arity: a, id }) == name).ok_or("no such operator")?;
    let ch: Result<Vec<VTree>, String> = parts.iter().map(vt).collect();
    let want = VTree::Op(a, id, ch.map_err(|m| format!("generator: {m}"))?);
    let g = vt(got)?;
    if g != want {
        return Err(format!("{name} built {:?} {:?}, not the operator over its operands {:?}", got.nodes, got.consts, parts.iter().map(|p| (&p.nodes, &p.consts)).collect::<Vec<_>>()));
    }
    let first = parts.iter().map(names).find(|n| !n.is_empty()).unwrap_or_default();
    if names(got) != first {
        return Err(format!("variable names {:?}, expected {first:?}", names(got)));
    }
    let vals: Vec<Vec<f64>> = parts.iter().map(|p| eval(p, x)).collect();
    let out = eval(got, x);
    for r in 0..out.len() {
        let args: Vec<f64> = vals.iter().map(|v| v[r]).collect();
        let w = builtin_ref(name, &args);
        if !close(out[r], w) {
            return Err(format!("{name}({args:?}) evaluates to {} instead of {w}", out[r]));
        }
    }
    Ok(())
}

fn main() {
    let r = Runner::new("one evaluation = one operator or function applied to concrete operand expressions; distinct = distinct (function, operands)");
    let un: Vec<B1> = table!(fn(E) -> E; cos sin tan asin acos atan sinh cosh tanh asinh acosh atanh sec csc cot exp exp2 expm1 log log2 log10 log1p sqrt cbrt abs abs2 inv sign identity neg);
    let mut un2 = un;
    un2.push(("-x", "neg", |a| -a));
    let mut bi: Vec<B2> = table!(fn(E, E) -> E; div add sub mul pow atan2 min max);
    bi.push(("x + y", "add", |a, b| a + b));
    bi.push(("x - y", "sub", |a, b| a - b));
    bi.push(("x * y", "mul", |a, b| a * b));
    bi.push(("x / y", "div", |a, b| a / b));
    let te: [(&str, &str, fn(E, E, E) -> E); 2] = [("fma", "fma", de::operators::fma), ("clamp", "clamp", de::operators::clamp)];
    let sr: [(&str, &str, fn(E, f64) -> E); 4] = [("x + c", "add", |a, b| a + b), ("x - c", "sub", |a, b| a - b), ("x * c", "mul", |a, b| a * b), ("x / c", "div", |a, b| a / b)];
    let sl: [(&str, &str, fn(f64, E) -> E); 4] = [("c + x", "add", |a, b| lit(a) + b), ("c - x", "sub", |a, b| lit(a) - b), ("c * x", "mul", |a, b| lit(a) * b), ("c / x", "div", |a, b| lit(a) / b)];
    let fam = builtin_family();
    let x = ndarray::Array2::from_shape_fn((3, 4), |(f, i)| 0.3 + f as f64 * 0.7 + i as f64 * 0.37);
    let mut g = r.rng("p10");
    let mut base = 0.0;
    let mut mk = |g: &mut Rng| -> E {
        let nc = if g.u8(0..20) == 0 { 250 + g.usize(0..400) } else { 1 + g.usize(0..5) };
        let size = [1, 1, 2, 3, 5, 9][g.usize(0..6)];
        let n = gen_tree(g, size, &fam, 3, nc).nodes();
        base = if base > 50.0 { 0.5 } else { base + 7.0 };
        let nc = if g.u8(0..6) == 0 { n.iter().filter_map(|m| if let de::PNode::Const { idx } = m { Some(*idx as usize + 1) } else { None }).max().unwrap_or(0) } else { nc };
        let mut e: E = expr_of(n, (0..nc).map(|i| base + i as f64).collect());
        if g.u8(0..3) == 0 {
            e.meta.variable_names = vec![format!("v{}", g.u8(..)), "w".into()];
        }
        e
    };
    let show = |p: &[E]| p.iter().map(|e| format!("{:?} {:?} {:?}", e.nodes, e.consts, e.meta.variable_names)).collect::<Vec<_>>().join(" ; ");
    let mut k = 0usize;
    while r.time_left() {
        k += 1;
        for &(label, name, f) in &un2 {
            let p = [mk(&mut g)];
            r.case("unary", &(label, show(&p)), || format!("{label} of {}", show(&p)), || check(name, &p, &f(p[0].clone()), &x));
        }
        for _ in 0..3 {
            for &(label, name, f) in &bi {
                let p = [mk(&mut g), mk(&mut g)];
                r.case("binary", &(label, show(&p)), || format!("{label} of {}", show(&p)), || check(name, &p, &f(p[0].clone(), p[1].clone()), &x));
            }
            for &(label, name, f) in &te {
                let p = [mk(&mut g), mk(&mut g), mk(&mut g)];
                r.case("ternary", &(label, show(&p)), || format!("{label} of {}", show(&p)), || check(name, &p, &f(p[0].clone(), p[1].clone(), p[2].clone()), &x));
            }
            for i in 0..4 {
                let c = g.f64() * 4.0 - 2.0;
                let e = mk(&mut g);
                let ce: E = expr_of(vec![de::PNode::Const { idx: 0 }], vec![c]);
                let (label, name, f) = sr[i];
                r.case("scalar", &(label, show(&[e.clone()]), c.to_bits()), || format!("{label} of {} c={c}", show(&[e.clone()])), || check(name, &[e.clone(), ce.clone()], &f(e.clone(), c), &x));
                let (label, name, f) = sl[i];
                r.case("scalar", &(label, show(&[e.clone()]), c.to_bits()), || format!("{label} of {} c={c}", show(&[e.clone()])), || check(name, &[ce.clone(), e.clone()], &f(c, e.clone()), &x));
            }
        }
        if k == 2 {
            // many constants: up to the last index that fits
            for (na, nb) in [(30000usize, 30000usize), (65534, 1), (1, 65534), (40000, 25535)] {
                let big = |n: usize, b: f64| -> E { expr_of(vec![de::PNode::Const { idx: (n - 1) as u16 }], (0..n).map(|i| b + i as f64).collect()) };
                let p = [big(na, 0.5), big(nb, 100000.5)];
                r.case("large tables", &(na, nb), || format!("x - y with {na} and {nb} constants"), || {
                    let got = p[0].clone() - p[1].clone();
                    if got.consts.len() != na + nb || bits(&got.consts[..na]) != bits(&p[0].consts) {
                        return Err("constant table".into());
                    }
                    check("sub", &p, &got, &x)
                });
            }
        }
    }
    r.finish();
}
