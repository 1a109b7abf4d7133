//! P12: crossover against an oracle on value trees.
use de::node::PNode;
use harness::sr::verif_hooks as h;
use harness::*;

type Exp = de::expression::PostfixExpr<f64, ModOps, 4>;
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// all (subtree, tree with that subtree replaced by `with`)
fn replaced(t: &VTree, with: &VTree) -> Vec<(VTree, VTree)> {
    let mut out = vec![(t.clone(), with.clone())];
    if let VTree::Op(a, o, c) = t {
        for i in 0..c.len() {
            for (s, n) in replaced(&c[i], with) {
                let mut c2 = c.clone();
                c2[i] = n;
                out.push((s, VTree::Op(*a, *o, c2)));
            }
        }
    }
    out
}
fn check(an: &[PNode], ac: &[f64], bn: &[PNode], bc: &[f64], nf: usize, stream: u64) -> Result<(), String> {
    let (a, b): (Exp, Exp) = (expr_of(an.to_vec(), ac.to_vec()), expr_of(bn.to_vec(), bc.to_vec()));
    let mut g = Rng::with_seed(stream);
    let any = |_: u8, _: u16| true;
    let (va, vb) = (vtree(an, ac, nf, &any).map_err(|m| format!("generator: {m}"))?, vtree(bn, bc, nf, &any).map_err(|m| format!("generator: {m}"))?);
    let (x, y) = h::crossover_trees(&mut g, &a, &b);
    if a.nodes != an || bits(&a.consts) != bits(ac) || b.nodes != bn || bits(&b.consts) != bits(bc) {
        return Err("a parent changed".into());
    }
    let vx = vtree(&x.nodes, &x.consts, nf, &any).map_err(|m| format!("first child: {m}"))?;
    let vy = vtree(&y.nodes, &y.consts, nf, &any).map_err(|m| format!("second child: {m}"))?;
    for sb in vb.subtrees() {
        for (sa, nx) in replaced(&va, sb) {
            if nx == vx && replaced(&vb, &sa).iter().any(|(s, ny)| s == sb && *ny == vy) {
                return Ok(());
            }
        }
    }
    Err(format!("children {:?} {:?} and {:?} {:?} are not the parents with two subtrees exchanged", x.nodes, x.consts, y.nodes, y.consts))
}
fn main() {
    let r = Runner::new("one evaluation = one crossover of one pair of expressions with one random stream; distinct = distinct (pair, stream)");
    let fam: Family = vec![vec![3], vec![1], vec![2]];
    let leaves = [Tree::Var(0), Tree::Const(0), Tree::Const(1)];
    let small: Vec<Vec<PNode>> = (1..=3).flat_map(|s| all_trees(s, &leaves, &fam)).map(|t| t.nodes()).collect();
    'ex: for a in &small {
        for b in &small {
            for s in 0..3u64 {
                r.case("exhaustive", &(a, b, s), || format!("{a:?} [0.5,-1.25] x {b:?} [7.5,-0.0] stream={s}"), || check(a, &[0.5, -1.25], b, &[7.5, -0.0], 1, s));
            }
            if r.used() > 0.4 {
                break 'ex;
            }
        }
    }
    let mut g = r.rng("p12");
    while r.time_left() {
        let fam: Family = (0..4).map(|_| (0..g.usize(0..3)).map(|_| g.u16(0..30)).collect()).collect();
        let nf = [1, 2, 5][g.usize(0..3)];
        let mut mk = |base: f64| {
            let nc = if g.u8(0..20) == 0 { 250 + g.usize(0..400) } else { 1 + g.usize(0..6) };
            let size = if g.u16(0..2000) == 0 { 270 } else { [1, 2, 3, 5, 8, 12, 20][g.usize(0..7)] };
            let n = gen_tree(&mut g, size, &fam, nf, nc).nodes();
            let c: Vec<f64> = (0..nc).map(|i| base + if g.u8(0..4) == 0 { 0.0 } else { i as f64 }).collect();
            (n, c)
        };
        let (an, ac) = mk(0.5);
        let (bn, bc) = mk(100.5);
        let s = g.u64(..);
        r.case("random", &(&an, &bn, s), || format!("{an:?} {ac:?} x {bn:?} {bc:?} nf={nf} stream={s}"), || check(&an, &ac, &bn, &bc, nf, s));
    }
    r.finish();
}
