//! P11: every mutation operator against an oracle on value trees.
use de::node::PNode;
use harness::sr::verif_hooks as h;
use harness::*;

type Exp<const D: usize> = de::expression::PostfixExpr<f64, ModOps, D>;

const NAMES: [&str; 10] =
    ["constant", "operator", "feature", "swap", "rotate", "insert", "prepend", "append", "add", "delete"];

/// `after` is `before` with one operator of `ops` put above it, the other operands fresh leaves
fn wrapped(before: &VTree, after: &VTree) -> bool {
    let VTree::Op(_, _, ch) = after else { return false };
    (0..ch.len()).any(|j| ch[j] == *before && (0..ch.len()).all(|k| k == j || ch[k].is_leaf()))
}
fn somewhere(before: &VTree, after: &VTree, here: &dyn Fn(&VTree, &VTree) -> bool) -> bool {
    if here(before, after) {
        return true;
    }
    match (before, after) {
        (VTree::Op(a, o, c), VTree::Op(b, p, d)) if a == b && o == p && c.len() == d.len() => {
            (0..c.len()).any(|i| (0..c.len()).all(|k| k == i || c[k] == d[k]) && somewhere(&c[i], &d[i], here))
        }
        _ => false,
    }
}
fn swap_of(t: &VTree) -> Vec<VTree> {
    match t {
        VTree::Op(2, o, c) => vec![VTree::Op(2, *o, vec![c[1].clone(), c[0].clone()])],
        _ => vec![],
    }
}
fn rotations(t: &VTree) -> Vec<VTree> {
    let mut out = vec![];
    let VTree::Op(a, o, c) = t else { return out };
    for (j, p) in c.iter().enumerate() {
        let VTree::Op(pa, po, g) = p else { continue };
        for k in 0..g.len() {
            let mut c2 = c.clone();
            c2[j] = g[k].clone();
            let mut g2 = g.clone();
            g2[k] = VTree::Op(*a, *o, c2);
            out.push(VTree::Op(*pa, *po, g2));
        }
    }
    out
}
fn children(t: &VTree) -> Vec<VTree> {
    match t {
        VTree::Op(_, _, c) => c.clone(),
        _ => vec![],
    }
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn check<const D: usize>(which: usize, nodes: &[PNode], consts: &[f64], fam: &Family, nf: usize, temp: f64, pert: f64, neg: f64, stream: u64) -> Result<(), String> {
    let mut o: h::Options<f64, D> = h::Options::default();
    o.perturbation_factor = pert;
    o.probability_negate_constant = neg;
    for (i, l) in fam.iter().enumerate() {
        for &id in l {
            o.operators.push(de::OpId { arity: (i + 1) as u8, id });
        }
    }
    // operators already in the expression may be any; new ones must be configured. The expression is built over
    // an extended family for the operator mutation (arity without configured operators).
    let mut e: Exp<D> = expr_of(nodes.to_vec(), consts.to_vec());
    let mut rng = Rng::with_seed(stream);
    let known = |a: u8, op: u16| {
        fam.get(a as usize - 1).is_some_and(|l| l.contains(&op)) || nodes.iter().any(|n| matches!(n, PNode::Op { arity, op: p } if *arity == a && *p == op))
    };
    let before = vtree(nodes, consts, nf, &known).map_err(|m| format!("generator: {m}"))?;
    let r = match which {
        0 => h::mutate_constant_in_place(&mut rng, &mut e, temp, &o),
        1 => h::mutate_operator_in_place(&mut rng, &mut e, &o.operators),
        2 => h::mutate_feature_in_place(&mut rng, &mut e, nf),
        3 => h::swap_operands_in_place(&mut rng, &mut e),
        4 => h::rotate_tree_in_place(&mut rng, &mut e),
        5 => h::insert_random_op_in_place(&mut rng, &mut e, &o.operators, nf),
        6 => h::prepend_random_op_in_place(&mut rng, &mut e, &o.operators, nf),
        7 => h::append_random_op_in_place(&mut rng, &mut e, &o.operators, nf),
        8 => h::add_node_in_place(&mut rng, &mut e, &o.operators, nf),
        _ => h::delete_random_op_in_place(&mut rng, &mut e),
    };
    let after = vtree(&e.nodes, &e.consts, nf, &known)?;
    let same = e.nodes == nodes && bits(&e.consts) == bits(consts);
    if !r {
        return if same { Ok(()) } else { Err(format!("reported no change but {:?} {:?} became {:?} {:?}", nodes, consts, e.nodes, e.consts)) };
    }
    let diff: Vec<usize> = (0..nodes.len().max(e.nodes.len())).filter(|&i| nodes.get(i) != e.nodes.get(i)).collect();
    let same_consts = bits(&e.consts) == bits(consts);
    let bad = |m: &str| Err(format!("{m}: {nodes:?} {consts:?} became {:?} {:?}", e.nodes, e.consts));
    // a new operator must be a configured one: every (arity, op) more frequent than before is configured
    for n in &e.nodes {
        if let PNode::Op { arity, op } = n {
            let cnt = |v: &[PNode]| v.iter().filter(|m| *m == n).count();
            if cnt(&e.nodes) > cnt(nodes) && !fam.get(*arity as usize - 1).is_some_and(|l| l.contains(op)) {
                return bad("introduced an operator that is not configured");
            }
        }
    }
    match which {
        0 => {
            let cd = (0..consts.len()).filter(|&i| e.consts.get(i).map(|x| x.to_bits()) != Some(consts[i].to_bits())).count();
            if !diff.is_empty() || e.consts.len() != consts.len() || cd > 1 {
                return bad("constant mutation changed something else");
            }
        }
        1 => {
            if diff.len() > 1 || e.nodes.len() != nodes.len() || !same_consts {
                return bad("operator mutation changed something else");
            }
            for &i in &diff {
                match (nodes[i], e.nodes[i]) {
                    (PNode::Op { arity: a, .. }, PNode::Op { arity: b, .. }) if a == b => {}
                    _ => return bad("operator mutation did not keep the arity"),
                }
            }
        }
        2 => {
            if diff.len() != 1 || e.nodes.len() != nodes.len() || !same_consts || !matches!((nodes[diff[0]], e.nodes[diff[0]]), (PNode::Var { .. }, PNode::Var { .. })) {
                return bad("feature mutation did not change exactly one feature");
            }
        }
        3 => {
            if !before.rewrites(&swap_of).contains(&after) {
                return bad("not a swap of one operator's two operands");
            }
        }
        4 => {
            if !before.rewrites(&rotations).contains(&after) {
                return bad("not a rotation");
            }
        }
        5 => {
            if !somewhere(&before, &after, &wrapped) {
                return bad("not one operator put above one subtree");
            }
        }
        6 => {
            if !wrapped(&before, &after) {
                return bad("not one operator put above the whole expression");
            }
        }
        7 | 8 => {
            let app = |b: &VTree, a: &VTree| b.is_leaf() && matches!(a, VTree::Op(_, _, c) if c.iter().all(|x| x.is_leaf()));
            if !(somewhere(&before, &after, &app) || which == 8 && wrapped(&before, &after)) {
                return bad("not one leaf replaced by an operator over leaves");
            }
        }
        _ => {
            if !before.rewrites(&children).contains(&after) {
                return bad("not one operator replaced by one of its operands");
            }
        }
    }
    Ok(())
}

fn go(which: usize, d: usize, nodes: &[PNode], consts: &[f64], fam: &Family, nf: usize, temp: f64, pert: f64, neg: f64, stream: u64) -> Result<(), String> {
    match d {
        1 => check::<1>(which, nodes, consts, fam, nf, temp, pert, neg, stream),
        2 => check::<2>(which, nodes, consts, fam, nf, temp, pert, neg, stream),
        3 => check::<3>(which, nodes, consts, fam, nf, temp, pert, neg, stream),
        4 => check::<4>(which, nodes, consts, fam, nf, temp, pert, neg, stream),
        _ => check::<6>(which, nodes, consts, fam, nf, temp, pert, neg, stream),
    }
}

fn main() {
    let r = Runner::new("one evaluation = one mutation operator on one expression with one random stream; distinct = distinct (operator, expression, constants, configuration, stream)");
    // every shape of up to 6 nodes over one operator per arity, several streams
    let fam: Family = vec![vec![3], vec![1], vec![2]];
    let leaves = [Tree::Var(0), Tree::Const(0), Tree::Const(1)];
    'ex: for size in 1..=if r.thorough { 5 } else { 4 } {
        for t in all_trees(size, &leaves, &fam) {
            let nodes = t.nodes();
            for w in 0..10 {
                for s in 0..3u64 {
                    let key = (w, &nodes, s);
                    r.case(NAMES[w], &key, || format!("{} on {nodes:?} consts [0.5, -1.25] nf=2 D=3 fam={fam:?} stream={s}", NAMES[w]), || go(w, 3, &nodes, &[0.5, -1.25], &fam, 2, 1.0, 0.1, 0.3, s));
                }
            }
            if r.used() > 0.4 {
                break 'ex;
            }
        }
    }
    let mut g = r.rng("p11");
    while r.time_left() {
        let d = [1, 2, 3, 4, 6][g.usize(0..5)];
        let mut fam: Family = (0..d).map(|_| (0..g.usize(0..4)).map(|_| g.u16(0..30)).collect()).collect();
        if g.u8(0..20) > 0 && fam.iter().all(|l| l.is_empty()) {
            fam[g.usize(0..d)].push(7);
        }
        // the expression's own family: usually the configured one; sometimes with an arity that has no configured operators
        let mut efam = fam.clone();
        if g.u8(0..4) == 0 {
            let k = g.usize(0..d);
            efam[k] = vec![40];
        }
        let nf = [1, 2, 3, 8, 300][g.usize(0..5)];
        let nc = if g.u8(0..20) == 0 { 250 + g.usize(0..400) } else { 1 + g.usize(0..5) };
        let size = if g.u16(0..2000) == 0 { 270 } else { [1, 2, 3, 5, 8, 15, 40][g.usize(0..7)] };
        let nodes = gen_tree(&mut g, size, &efam, nf, nc).nodes();
        // constants: distinct values, some of them unused
        let consts: Vec<f64> = (0..nc).map(|i| i as f64 * 10.0 + 0.25 + [0.0, -100.0][g.usize(0..2)]).collect();
        let (temp, pert, neg) = ([0.0, 0.5, 1.0, -1.0][g.usize(0..4)], [0.0, 0.076, 5.0][g.usize(0..3)], [0.0, 0.01, 1.0][g.usize(0..3)]);
        let w = g.usize(0..10);
        let s = g.u64(..);
        let desc = || format!("{} on {nodes:?} consts {consts:?} nf={nf} D={d} fam={fam:?} temperature={temp} perturbation={pert} negate={neg} stream={s}", NAMES[w]);
        r.case(NAMES[w], &(desc(), 0), desc, || go(w, d, &nodes, &consts, &fam, nf, temp, pert, neg, s));
    }
    r.finish();
}
