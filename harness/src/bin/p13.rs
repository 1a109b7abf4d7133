//! P13: random expressions: well-formed, configured operators only, size met wherever an operator still fits.
use de::node::PNode;
use harness::sr::verif_hooks as h;
use harness::*;

fn ops_of<const D: usize>(fam: &Family) -> h::Options<f64, D> {
    let mut o: h::Options<f64, D> = h::Options::default();
    for (i, l) in fam.iter().enumerate() {
        for &id in l {
            o.operators.push(de::OpId { arity: (i + 1) as u8, id });
        }
    }
    o
}
fn check<const D: usize>(fam: &Family, nf: usize, n: usize, append: Option<usize>, stream: u64) -> Result<(), String> {
    let o = ops_of::<D>(fam);
    let mut g = Rng::with_seed(stream);
    let e: de::expression::PostfixExpr<f64, ModOps, D> = match append {
        None => h::random_expr(&mut g, &o.operators, nf, n),
        Some(k) => h::random_expr_append_ops(&mut g, &o.operators, nf, k, n),
    };
    let known = |a: u8, op: u16| fam.get(a as usize - 1).is_some_and(|l| l.contains(&op));
    vtree(&e.nodes, &e.consts, nf, &known)?;
    let max = n.max(1);
    let len = e.nodes.len();
    if len > max {
        return Err(format!("{len} nodes, more than {max}: {:?}", e.nodes));
    }
    let fits = (0..D).any(|i| !fam[i].is_empty() && i + 1 <= max - len);
    let nops = e.nodes.iter().filter(|m| matches!(m, PNode::Op { .. })).count();
    match append {
        None => {
            if len < max && fits {
                return Err(format!("{len} nodes of {max} although an operator fits: {:?}", e.nodes));
            }
        }
        Some(k) => {
            if nops > k || nops < k && fits {
                return Err(format!("{nops} operators, {k} asked for, {len} nodes of {max}: {:?}", e.nodes));
            }
        }
    }
    Ok(())
}
fn go(d: usize, fam: &Family, nf: usize, n: usize, append: Option<usize>, stream: u64) -> Result<(), String> {
    match d {
        1 => check::<1>(fam, nf, n, append, stream),
        2 => check::<2>(fam, nf, n, append, stream),
        3 => check::<3>(fam, nf, n, append, stream),
        4 => check::<4>(fam, nf, n, append, stream),
        _ => check::<6>(fam, nf, n, append, stream),
    }
}
fn main() {
    let r = Runner::new("one evaluation = one random generation with one configuration and one random stream; distinct = distinct (configuration, stream)");
    let mut run = |grp: &str, d: usize, fam: &Family, nf: usize, n: usize, append: Option<usize>, s: u64| {
        let f = || format!("{} size {n} ops {append:?} features {nf} D={d} operators {fam:?} stream={s}", if append.is_some() { "random_expr_append_ops" } else { "random_expr" });
        r.case(grp, &(f(), 1), f, || go(d, fam, nf, n, append, s));
    };
    // which arities are configured (every subset of 1..3), every size up to 9
    for mask in 0..8u32 {
        let fam: Family = (0..3).map(|i| if mask >> i & 1 == 1 { vec![i as u16, 9] } else { vec![] }).collect();
        for n in 1..=9 {
            for s in 0..4 {
                run("subsets", 3, &fam, 2, n, None, s);
                for k in [0, 1, 2, 5] {
                    run("subsets", 3, &fam, 2, n - 1, Some(k), s);
                }
            }
        }
    }
    let mut g = r.rng("p13");
    while r.time_left() {
        let d = [1, 2, 3, 4, 6][g.usize(0..5)];
        let fam: Family = (0..d).map(|_| (0..g.usize(0..4)).map(|_| g.u16(0..30)).collect()).collect();
        let nf = [1, 2, 3, 8, 300, 65536][g.usize(0..6)];
        let n = [1, 2, 3, 7, 20, 60, 200, 20, 7, 600][g.usize(0..10)];
        let s = g.u64(..);
        let ap = if g.bool() { None } else { Some([0, 1, 3, 10, 100][g.usize(0..5)]) };
        run("random", d, &fam, nf, n, ap, s);
    }
    r.finish();
}
