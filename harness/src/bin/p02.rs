//! P02: compilation accepts exactly the well-formed programs, and accepted plans are in range.
use harness::de::node::{PNode, Src};
use harness::de::{compile_plan, eval_tree_array, EvalOptions};
use harness::*;
use ndarray::Array2;

fn acceptable(nodes: &[PNode], nf: usize, nc: usize, d: usize) -> bool {
    if nf > 65535 || nc > 65535 {
        return false;
    }
    let mut h = 0usize;
    for n in nodes {
        match *n {
            PNode::Var { feature } => {
                if feature as usize >= nf {
                    return false;
                }
                h += 1;
            }
            PNode::Const { idx } => {
                if idx as usize >= nc {
                    return false;
                }
                h += 1;
            }
            PNode::Op { arity, .. } => {
                let a = arity as usize;
                if a == 0 || a > d || h < a {
                    return false;
                }
                h = h - a + 1;
            }
        }
    }
    h == 1
}

fn check<const D: usize>(nodes: &[PNode], nf: usize, nc: usize) -> Result<(), String> {
    let want = acceptable(nodes, nf, nc, D);
    match guarded(|| compile_plan::<D>(nodes, nf, nc)) {
        Err(_) if want => Err(format!("D={D}: well-formed program refused")),
        Ok(_) if !want => Err(format!("D={D}: malformed program accepted")),
        Err(_) => Ok(()),
        Ok(p) => {
            let n = p.n_slots;
            let ok = |s: Src| match s {
                Src::Slot(k) => (k as usize) < n,
                Src::Var(f) => (f as usize) < nf,
                Src::Const(c) => (c as usize) < nc,
            };
            for i in &p.instrs {
                if i.dst as usize >= n {
                    return Err(format!("instruction writes slot {} of {n}", i.dst));
                }
                for j in 0..i.arity as usize {
                    if !ok(i.args[j]) {
                        return Err(format!("instruction reads {:?} (slots {n}, features {nf}, constants {nc})", i.args[j]));
                    }
                    if i.args[j] == Src::Slot(i.dst) {
                        return Err(format!("instruction reads the slot {} it writes", i.dst));
                    }
                }
            }
            if !ok(p.root) {
                return Err(format!("root {:?} out of range", p.root));
            }
            Ok(())
        }
    }
}

/// the evaluator refuses too, and never returns a value, for malformed programs
fn check_eval(nodes: &[PNode], nf: usize, nc: usize) -> Result<(), String> {
    let want = acceptable(nodes, nf, nc, 4);
    let expr = expr_of::<ModOps, 4>(nodes.to_vec(), vec![1.0; nc]);
    let x = Array2::from_elem((nf, 2), 3.0);
    let r = guarded(|| eval_tree_array::<f64, ModOps, 4>(&expr, x.view(), &EvalOptions { check_finite: true, early_exit: true }));
    match r {
        Ok(_) if !want => Err("evaluation of a malformed program returned".into()),
        Err(m) if want => Err(format!("evaluation of a well-formed program panicked: {m}")),
        _ => Ok(()),
    }
}

fn gen_nodes(rng: &mut Rng, nf: usize, nc: usize) -> Vec<PNode> {
    let fam = mod_family();
    let size = 1 + rng.usize(0..14);
    let mut v = gen_tree(rng, size, &fam, nf.max(1), nc).nodes();
    for _ in 0..rng.usize(0..3) {
        if v.is_empty() {
            break;
        }
        let i = rng.usize(0..v.len());
        match rng.u8(0..9) {
            0 => { v.remove(i); }
            1 => { let n = v[i]; v.insert(i, n); }
            2 => v[i] = PNode::Var { feature: nf as u16 },
            3 => v[i] = PNode::Const { idx: nc as u16 },
            4 => { let j = rng.usize(0..v.len()); v.swap(i, j); }
            5 => v[i] = PNode::Op { arity: rng.u8(0..6), op: 0 },
            6 => v.truncate(i),
            7 => { v.push(PNode::Op { arity: rng.u8(1..4), op: 0 }); }
            _ => v[i] = PNode::Var { feature: u16::MAX },
        }
    }
    v
}

fn all_seqs(len: usize, alpha: &[PNode], f: &mut impl FnMut(&[PNode]) -> bool) {
    let mut idx = vec![0usize; len];
    loop {
        let v: Vec<PNode> = idx.iter().map(|&i| alpha[i]).collect();
        if !f(&v) {
            return;
        }
        let mut k = 0;
        while k < len {
            idx[k] += 1;
            if idx[k] < alpha.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == len {
            return;
        }
    }
}

fn main() {
    let r = Runner::new(
        "one evaluation = one node list with feature/constant counts compiled with one maximum arity, acceptance compared with a stack-height \
         reference, accepted plans range-checked; distinct = distinct (node list, counts)",
    );
    let alpha = [
        PNode::Var { feature: 0 },
        PNode::Var { feature: 1 },
        PNode::Const { idx: 0 },
        PNode::Op { arity: 0, op: 0 },
        PNode::Op { arity: 1, op: 0 },
        PNode::Op { arity: 2, op: 0 },
        PNode::Op { arity: 3, op: 0 },
    ];
    for len in 0..=(if r.thorough { 6 } else { 5 }) {
        all_seqs(len, &alpha, &mut |v| {
            r.case("exhaustive", &v, || format!("{v:?} n_features=1 n_consts=1"), || {
                check::<2>(v, 1, 1)?;
                check::<3>(v, 2, 0)?;
                if len < 5 { check_eval(v, 2, 1) } else { Ok(()) }
            });
            r.time_left() && r.used() < 0.6
        });
    }
    for (nf, nc) in [(65535usize, 65535usize), (65536, 1), (1, 65536), (70000, 70000), (65535, 0), (0, 65535)] {
        for n in [PNode::Var { feature: 65534 }, PNode::Var { feature: 65535 }, PNode::Const { idx: 65534 }, PNode::Const { idx: 65535 }, PNode::Var { feature: 0 }, PNode::Const { idx: 0 }] {
            r.case("limits", &(nf, nc, n), || format!("[{n:?}] n_features={nf} n_consts={nc}"), || check::<2>(&[n], nf, nc));
        }
    }
    let mut rng = r.rng("p02");
    while r.time_left() {
        let (nf, nc) = (rng.usize(0..5), rng.usize(0..5));
        let v = gen_nodes(&mut rng, nf, nc);
        r.case("mutated", &(&v, nf, nc), || format!("{v:?} n_features={nf} n_consts={nc}"), || {
            check::<1>(&v, nf, nc)?;
            check::<2>(&v, nf, nc)?;
            check::<4>(&v, nf, nc)?;
            check_eval(&v, nf, nc)
        });
    }
    r.finish();
}
