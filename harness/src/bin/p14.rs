//! P14: the structural constraint check against a reference over trees.
use harness::de::OpId;
use harness::sr::verif_hooks::{check_constraints, Options};
use harness::*;
use std::collections::HashMap;

const D: usize = 3;
struct Cfg {
    over: HashMap<OpId, u16>,
    vc: Option<Vec<u16>>,
    cv: u16,
    cc: u16,
    lim: HashMap<OpId, [Option<u16>; D]>,
    nest: Vec<(OpId, OpId, u8)>,
    maxdepth: usize,
    cur: usize,
}

fn weight(c: &Cfg, t: &Tree) -> u128 {
    match t {
        Tree::Var(f) => match &c.vc { Some(v) if (*f as usize) < v.len() => v[*f as usize] as u128, _ => c.cv as u128 },
        Tree::Const(_) => c.cc as u128,
        Tree::Op(a, o, _) => c.over.get(&OpId { arity: *a, id: *o }).copied().unwrap_or(1) as u128,
    }
}
fn cx(c: &Cfg, t: &Tree) -> u128 {
    weight(c, t) + match t { Tree::Op(_, _, ch) => ch.iter().map(|x| cx(c, x)).sum(), _ => 0 }
}
fn nest(t: &Tree, target: OpId) -> usize {
    match t {
        Tree::Op(a, o, ch) => ch.iter().map(|x| nest(x, target)).max().unwrap_or(0) + (OpId { arity: *a, id: *o } == target) as usize,
        _ => 0,
    }
}
fn local_ok(c: &Cfg, t: &Tree) -> bool {
    let Tree::Op(a, o, ch) = t else { return true };
    let id = OpId { arity: *a, id: *o };
    if let Some(l) = c.lim.get(&id) {
        for (j, x) in ch.iter().enumerate() {
            if let Some(m) = l[j] {
                if cx(c, x) > m as u128 { return false; }
            }
        }
    }
    for (root, inner, max) in &c.nest {
        if *root == id && ch.iter().map(|x| nest(x, *inner)).max().unwrap_or(0) > *max as usize { return false; }
    }
    ch.iter().all(|x| local_ok(c, x))
}

fn options(c: &Cfg) -> Options<f64, D> {
    let mut o: Options<f64, D> = Options::default();
    o.maxdepth = c.maxdepth;
    o.complexity_of_constants = c.cc;
    o.complexity_of_variables = c.cv;
    o.variable_complexities = c.vc.clone();
    o.operator_complexity_overrides = c.over.clone();
    for (k, v) in &c.lim {
        for (j, m) in v.iter().enumerate() {
            if let Some(m) = m {
                o.op_constraints.set_op_arg_constraint(*k, j, *m);
            }
        }
    }
    for (a, b, m) in &c.nest {
        o.nested_constraints.add_nested_constraint(*a, *b, *m);
    }
    o
}

fn check(c: &Cfg, t: &Tree) -> Result<(), String> {
    let want = cx(c, t) <= c.cur as u128 && t.depth() <= c.maxdepth && local_ok(c, t);
    let expr = expr_of::<ModOps, D>(t.nodes(), vec![1.0; 3]);
    let o = options(c);
    for k in 0..2 {
        let got = check_constraints(&expr, &o, c.cur);
        if got != want {
            return Err(format!("call {k}: check says {got}, reference says {want} (complexity {}, depth {}, local {})", cx(c, t), t.depth(), local_ok(c, t)));
        }
    }
    Ok(())
}

fn gen_cfg(rng: &mut Rng, t: &Tree) -> Cfg {
    let ids: Vec<OpId> = vec![OpId { arity: 1, id: 0 }, OpId { arity: 1, id: 1 }, OpId { arity: 2, id: 0 }, OpId { arity: 2, id: 1 }, OpId { arity: 3, id: 0 }, OpId { arity: 3, id: 1 }];
    let mut c = Cfg { over: HashMap::new(), vc: None, cv: 1, cc: 1, lim: HashMap::new(), nest: vec![], maxdepth: 1000, cur: 1000 };
    match rng.u8(0..4) {
        0 => {
            for id in &ids { if rng.bool() { c.over.insert(*id, rng.u16(0..4)); } }
            if rng.bool() { c.vc = Some((0..rng.usize(0..4)).map(|_| rng.u16(0..5)).collect()); }
            c.cv = rng.u16(0..4);
            c.cc = rng.u16(0..4);
        }
        1 => match rng.u8(0..4) {
            // exactly one deviation from the defaults
            0 => { c.over.insert(ids[rng.usize(0..ids.len())], rng.u16(0..3)); }
            1 => c.vc = Some((0..rng.usize(0..4)).map(|_| rng.u16(0..5)).collect()),
            2 => c.cv = rng.u16(0..4),
            _ => c.cc = rng.u16(0..4),
        },
        _ => {}
    }
    if rng.bool() {
        for id in &ids {
            if rng.u8(0..3) == 0 {
                let mut l = [None; D];
                for x in l.iter_mut().take(id.arity as usize) { if rng.bool() { *x = Some(rng.u16(0..8)); } }
                c.lim.insert(*id, l);
            }
        }
    }
    if rng.bool() {
        for _ in 0..1 + rng.usize(0..3) {
            c.nest.push((ids[rng.usize(0..ids.len())], ids[rng.usize(0..ids.len())], rng.u8(0..3)));
        }
    }
    if rng.bool() {
        let w = cx(&c, t) as usize;
        c.cur = [w, w.saturating_sub(1), w + 1, t.size(), t.depth()][rng.usize(0..5)];
    }
    if rng.bool() {
        let d = t.depth();
        c.maxdepth = [d, d - 1, d + 1, c.cur][rng.usize(0..4)];
    }
    c
}

fn show(c: &Cfg, t: &Tree) -> String {
    let mut l: Vec<_> = c.lim.iter().collect();
    l.sort_by_key(|x| (x.0.arity, x.0.id));
    let mut w: Vec<_> = c.over.iter().collect();
    w.sort_by_key(|x| (x.0.arity, x.0.id));
    format!("tree={t:?} curmaxsize={} maxdepth={} op weights={w:?} variables={:?}/{} constants={} arg limits={l:?} nested={:?}", c.cur, c.maxdepth, c.vc, c.cv, c.cc, c.nest)
}

fn main() {
    let r = Runner::new("one evaluation = one tree with one configuration of weights, limits and bounds, check_constraints compared with a recursive reference; distinct = distinct (tree, configuration)");
    let leaves = [Tree::Var(0), Tree::Var(1), Tree::Const(0)];
    let fam: Family = vec![vec![0, 1], vec![0], vec![0]];
    let mut rng = r.rng("p14");
    for n in 1..=5 {
        for t in all_trees(n, &leaves, &fam) {
            if n == 5 && rng.u8(0..4) != 0 && !r.thorough { continue; }
            let c = gen_cfg(&mut rng, &t);
            let s = show(&c, &t);
            r.case("small", &s, || s.clone(), || check(&c, &t));
        }
    }
    let fam: Family = vec![vec![0, 1], vec![0, 1], vec![0, 1]];
    while r.time_left() {
        let n = 1 + if rng.u8(0..10) == 0 { rng.usize(0..300) } else { rng.usize(0..30) };
        let t = gen_tree(&mut rng, n, &fam, 4, 3);
        let c = gen_cfg(&mut rng, &t);
        let s = show(&c, &t);
        r.case("random", &s, || s.clone(), || check(&c, &t));
    }
    // deep nests: counting past 255 and 65535 occurrences
    for n in [254usize, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 70000] {
        let op = OpId { arity: 1, id: 0 };
        let mut nodes = vec![harness::de::node::PNode::Var { feature: 0 }];
        nodes.extend(std::iter::repeat(harness::de::node::PNode::Op { arity: 1, op: 0 }).take(n));
        for max in [0u8, 1, 254, 255] {
            r.case("deep", &(n, max), || format!("unary chain of {n}, itself nested at most {max}"), || {
                let mut o: Options<f64, D> = Options::default();
                o.maxdepth = 1 << 20;
                o.nested_constraints.add_nested_constraint(op, op, max);
                let e = expr_of::<ModOps, D>(nodes.clone(), vec![]);
                let got = check_constraints(&e, &o, 1 << 20);
                if got != (n - 1 <= max as usize) { return Err(format!("check says {got}")); }
                Ok(())
            });
        }
    }
    r.finish();
}
