//! P07: validity test, subtree sizes and ranges, depth and counts against reference trees.
use harness::de::node::PNode;
use harness::de::node_utils as nu;
use harness::*;

/// Reference stack reading, zero-argument operators allowed: (tree, size) per position; None when malformed.
fn read0(nodes: &[PNode]) -> Option<Vec<Tree>> {
    let mut st: Vec<Tree> = vec![];
    let mut at = vec![];
    for n in nodes {
        let t = match *n {
            PNode::Var { feature } => Tree::Var(feature),
            PNode::Const { idx } => Tree::Const(idx),
            PNode::Op { arity, op } => {
                let a = arity as usize;
                if st.len() < a {
                    return None;
                }
                Tree::Op(arity, op, st.split_off(st.len() - a))
            }
        };
        at.push(t.clone());
        st.push(t);
    }
    if st.len() == 1 { Some(at) } else { None }
}

fn is(n: &PNode, k: u8) -> bool {
    match n {
        PNode::Var { .. } => k == 0,
        PNode::Const { .. } => k == 1,
        PNode::Op { .. } => k == 2,
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, want {want:?}")) }
}

fn check(nodes: &[PNode]) -> Result<(), String> {
    let at = read0(nodes);
    let tree = parse(nodes);
    eq("is_valid_postfix", nu::is_valid_postfix(nodes), tree.is_some())?;
    for (k, name, has, cnt) in [
        (0u8, "variables", nu::has_variables(nodes), nu::count_variable_nodes(nodes)),
        (1, "constants", nu::has_constants(nodes), nu::count_constant_nodes(nodes)),
        (2, "operators", nu::has_operators(nodes), nu::count_operator_nodes(nodes)),
    ] {
        let c = nodes.iter().filter(|n| is(n, k)).count();
        eq(&format!("count of {name}"), cnt, c)?;
        eq(&format!("has {name}"), has, c > 0)?;
    }
    eq("count_nodes", nu::count_nodes(nodes), nodes.len())?;
    let ma = nodes.iter().map(|n| match n { PNode::Op { arity, .. } => *arity, _ => 0 }).max().unwrap_or(0);
    eq("max_arity", nu::max_arity(nodes), ma)?;
    eq("is_leaf", nu::is_leaf(nodes), nodes.len() == 1 && !is(&nodes[0], 2))?;
    let sizes = guarded(|| nu::subtree_sizes(nodes));
    let depth = guarded(|| nu::count_depth(nodes));
    let built = guarded(|| {
        nu::tree_mapreduce(
            nodes,
            |n| match *n { PNode::Var { feature } => Tree::Var(feature), PNode::Const { idx } => Tree::Const(idx), _ => Tree::Const(u16::MAX) },
            |n| match *n { PNode::Op { arity, op } => (arity, op), _ => (0, u16::MAX) },
            |(a, o), ch: &[Tree]| Tree::Op(a, o, ch.to_vec()),
        )
    });
    match at {
        None => {
            if let Ok(s) = sizes { return Err(format!("subtree_sizes of a malformed sequence returned {s:?}")); }
            if let Ok(d) = depth { return Err(format!("count_depth of a malformed sequence returned {d}")); }
            if let Ok(t) = built { return Err(format!("tree_mapreduce of a malformed sequence returned {t:?}")); }
        }
        Some(at) => {
            let sizes = sizes.map_err(|e| format!("subtree_sizes panicked: {e}"))?;
            eq("subtree_sizes", sizes.clone(), at.iter().map(|t| t.size()).collect())?;
            eq("count_depth", depth.map_err(|e| format!("count_depth panicked: {e}"))?, at.last().unwrap().depth())?;
            eq("tree_mapreduce", &built.map_err(|e| format!("tree_mapreduce panicked: {e}"))?, at.last().unwrap())?;
            for (i, t) in at.iter().enumerate() {
                let (a, b) = nu::subtree_range(&sizes, i);
                eq("subtree_range", &nodes[a..=b], &t.nodes()[..])?;
            }
        }
    }
    Ok(())
}

fn all_seqs(len: usize, alpha: &[PNode], f: &mut impl FnMut(&[PNode])) {
    let mut idx = vec![0usize; len];
    loop {
        let v: Vec<PNode> = idx.iter().map(|&i| alpha[i]).collect();
        f(&v);
        let mut k = 0;
        while k < len {
            idx[k] += 1;
            if idx[k] < alpha.len() { break; }
            idx[k] = 0;
            k += 1;
        }
        if k == len { return; }
    }
}

fn main() {
    let r = Runner::new("one evaluation = one node sequence, every query of node_utils compared with a reference tree reading; distinct = distinct sequences");
    let v = PNode::Var { feature: 0 };
    let alpha = [v, PNode::Const { idx: 0 }, PNode::Op { arity: 0, op: 0 }, PNode::Op { arity: 1, op: 0 }, PNode::Op { arity: 2, op: 1 }, PNode::Op { arity: 3, op: 0 }];
    for len in 0..=(if r.thorough { 7 } else { 6 }) {
        all_seqs(len, &alpha, &mut |s| { r.case("exhaustive", &s, || format!("{s:?}"), || check(s)); });
    }
    // wide and deep shapes, every arity up to 255
    for a in [1usize, 2, 5, 31, 32, 33, 127, 128, 200, 255] {
        for extra in [0usize, 1, 3] {
            let mut s = vec![v; a + extra];
            s.push(PNode::Op { arity: a as u8, op: 0 });
            for _ in 0..extra { s.push(PNode::Op { arity: 2, op: 0 }); }
            r.case("wide", &s, || format!("{s:?}"), || check(&s));
        }
    }
    for n in [255usize, 256, 257, 1000, 3000] {
        let mut s = vec![v];
        s.extend(std::iter::repeat(PNode::Op { arity: 1, op: 0 }).take(n));
        r.case("chain", &s, || format!("unary chain of {n}"), || guard_depth(&s, n + 1));
        let mut s = vec![v; n + 1];
        s.extend(std::iter::repeat(PNode::Op { arity: 2, op: 0 }).take(n));
        r.case("spine", &s, || format!("right spine of {n}"), || guard_depth(&s, n + 1));
        let mut s = vec![v];
        for _ in 0..n { s.push(v); s.push(PNode::Op { arity: 2, op: 0 }); }
        r.case("spine", &s, || format!("left spine of {n}"), || guard_depth(&s, n + 1));
    }
    let mut rng = r.rng("p07");
    let fam = vec![vec![0, 1], vec![0, 1], vec![0], vec![0], vec![0]];
    while r.time_left() {
        let n = 1 + if rng.u8(0..60) == 0 { rng.usize(200..700) } else if rng.u8(0..8) == 0 { rng.usize(0..200) } else { rng.usize(0..24) };
        let mut s = gen_tree(&mut rng, n, &fam, 3, 3).nodes();
        if rng.bool() {
            for _ in 0..1 + rng.usize(0..2) {
                if s.is_empty() { break; }
                let i = rng.usize(0..s.len());
                match rng.u8(0..6) {
                    0 => { s.remove(i); }
                    1 => { let x = s[i]; s.insert(i, x); }
                    2 => { let j = rng.usize(0..s.len()); s.swap(i, j); }
                    3 => s[i] = PNode::Op { arity: rng.u8(0..7), op: 0 },
                    4 => s.truncate(i),
                    _ => s.push(PNode::Op { arity: rng.u8(0..4), op: 0 }),
                }
            }
        }
        r.case("random", &s, || format!("{s:?}"), || check(&s));
    }
    r.finish();
}

fn guard_depth(s: &[PNode], want: usize) -> Result<(), String> {
    eq("count_depth", nu::count_depth(s), want)?;
    let sz = nu::subtree_sizes(s);
    eq("root size", sz[s.len() - 1], s.len())?;
    eq("is_valid_postfix", nu::is_valid_postfix(s), true)?;
    eq("is_valid_postfix of a prefix", nu::is_valid_postfix(&s[..s.len() - 1]), s.len() > 2 && matches!(s[1], PNode::Op { arity: 1, .. }))
}
