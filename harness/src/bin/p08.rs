//! P08: compress_constants against the tree with constants replaced by their values.
use harness::de::node::PNode;
use harness::de::{compress_constants, get_scalar_constants, set_scalar_constants};
use harness::*;

fn check(nodes: &[PNode], consts: &[f64]) -> Result<(), String> {
    let mut e = expr_of::<ModOps, 4>(nodes.to_vec(), consts.to_vec());
    let changed = compress_constants(&mut e);
    if e.nodes.len() != nodes.len() {
        return Err(format!("{} nodes became {}", nodes.len(), e.nodes.len()));
    }
    let mut used = vec![false; e.consts.len()];
    let mut map: std::collections::HashMap<u16, u16> = Default::default();
    let mut back: std::collections::HashMap<u16, u16> = Default::default();
    for (i, (a, b)) in nodes.iter().zip(&e.nodes).enumerate() {
        match (*a, *b) {
            (PNode::Const { idx: x }, PNode::Const { idx: y }) => {
                let Some(v) = e.consts.get(y as usize) else { return Err(format!("node {i} reads constant {y} of {}", e.consts.len())) };
                if !same_bits(*v, consts[x as usize]) {
                    return Err(format!("node {i} read {} before and {v} after", consts[x as usize]));
                }
                used[y as usize] = true;
                if *map.entry(x).or_insert(y) != y || *back.entry(y).or_insert(x) != x {
                    return Err(format!("constant {x} and constant {y} are not one to one at node {i}"));
                }
            }
            (a, b) if a == b => {}
            (a, b) => return Err(format!("node {i} was {a:?}, became {b:?}")),
        }
    }
    if let Some(k) = used.iter().position(|u| !u) {
        return Err(format!("constant {k} is unused after compression"));
    }
    let same = e.nodes == nodes && bits(&e.consts) == bits(consts);
    if changed == same {
        return Err(format!("reported changed={changed}, but the expression is {}", if same { "the same" } else { "different" }));
    }
    let (n1, c1) = (e.nodes.clone(), bits(&e.consts));
    if compress_constants(&mut e) || e.nodes != n1 || bits(&e.consts) != c1 {
        return Err("a second compression changed something".into());
    }
    // reading and writing back the constants
    let (vals, cref) = get_scalar_constants(&e);
    if bits(&vals) != c1 {
        return Err("get_scalar_constants does not return the constants".into());
    }
    let new: Vec<f64> = (0..vals.len()).map(|i| 100.0 + i as f64).collect();
    set_scalar_constants(&mut e, &new, &cref);
    if bits(&e.consts) != bits(&new) || e.nodes != n1 {
        return Err("set_scalar_constants does not store the constants".into());
    }
    Ok(())
}

fn main() {
    let r = Runner::new("one evaluation = one node list with one constant table, compressed, compared node by node and compressed again; distinct = distinct (nodes, table)");
    // exhaustive: all index sequences over small tables
    for n in 0..=6usize {
        for nc in 1..=4usize {
            let mut k = vec![0usize; n];
            loop {
                let nodes: Vec<PNode> = k.iter().map(|&i| if i == nc { PNode::Var { feature: 7 } } else { PNode::Const { idx: i as u16 } }).collect();
                let consts: Vec<f64> = (0..nc).map(|i| if i == 3 { 0.0 } else { i as f64 }).collect();
                r.case("exhaustive", &(&k, nc), || format!("{nodes:?} consts={consts:?}"), || check(&nodes, &consts));
                let mut j = 0;
                while j < n {
                    k[j] += 1;
                    if k[j] <= nc { break; }
                    k[j] = 0;
                    j += 1;
                }
                if j == n { break; }
            }
        }
    }
    let mut rng = r.rng("p08");
    // tables near the 16-bit limit
    for (nc, take) in [(65535usize, 65535usize), (65536, 65535), (70000, 65535), (65536, 10)] {
        for rev in [false, true] {
            let lim = nc.min(65536);
            let mut nodes: Vec<PNode> = (0..take).map(|i| PNode::Const { idx: if rev { (lim - 1 - i) as u16 } else { i as u16 } }).collect();
            nodes.push(nodes[0]);
            let consts: Vec<f64> = (0..nc).map(|i| i as f64 * 0.5).collect();
            r.case("large", &(nc, take, rev), || format!("{take} of {nc} constants, reversed={rev}"), || check(&nodes, &consts));
        }
    }
    {
        let nodes: Vec<PNode> = (0..=u16::MAX).map(|i| PNode::Const { idx: i }).collect();
        r.case("large", &0, || "65536 distinct constants (one more than an index can name besides the marker)".into(), || {
            match guarded(|| check(&nodes, &vec![1.5; 65536])) {
                Err(_) | Ok(Ok(())) => Ok(()),
                Ok(Err(m)) => Err(m),
            }
        });
    }
    let fam = mod_family();
    while r.time_left() {
        let (n, nc) = if rng.u8(0..40) == 0 { (1 + rng.usize(0..1200), 1 + rng.usize(0..900)) } else { (1 + rng.usize(0..40), 1 + rng.usize(0..12)) };
        let hi = 1 + rng.usize(0..nc);
        let nodes = gen_tree(&mut rng, n, &fam, 3, hi).nodes();
        let mut nodes = nodes;
        let shift = rng.usize(0..=nc - hi) as u16;
        for x in nodes.iter_mut() { if let PNode::Const { idx } = x { *idx += shift; } }
        let consts: Vec<f64> = (0..nc).map(|_| gen_val(&mut rng, true)).collect();
        let key = format!("{nodes:?}{consts:?}");
        r.case("random", &key, || format!("{nodes:?} consts={consts:?}"), || check(&nodes, &consts));
    }
    r.finish();
}
