=== raw
/// position of the root of child k of a subtree rooted at `root`, from the subtree sizes
pub open spec fn cend(sizes: Seq<usize>, root: int, arity: int, k: int) -> int
    decreases arity - k,
{ if k >= arity - 1 { root - 1 } else { let e = cend(sizes, root, arity, k + 1); e - sizes[e] } }
pub open spec fn sizes_ok(sizes: Seq<usize>, nodes: Seq<PNode>) -> bool { sizes.len() == nodes.len() && forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] sizes[i]) == tsize(sub_at(nodes, i)) }
pub proof fn cend_cpos(nodes: Seq<PNode>, sizes: Seq<usize>, i: int, k: int)
    requires parse(nodes) is Some, sizes_ok(sizes, nodes), 0 <= i < nodes.len(), nodes[i] is Op, 0 <= k < nodes[i]->arity,
    ensures ({ let e = cend(sizes, i, nodes[i]->arity as int, k); e == cpos(sub_at(nodes, i)->Op_2, i, k) && 0 <= e < i && 1 <= sizes[e] <= e + 1 && sub_at(nodes, e) == sub_at(nodes, i)->Op_2[k] && e + 1 - sizes[e] == sub_lo(nodes, e)
        && nodes.subrange(sub_lo(nodes, e), e + 1) == flatten(sub_at(nodes, e)) && proper(sub_at(nodes, e)) && sub_lo(nodes, i) <= sub_lo(nodes, e) }),
    decreases nodes[i]->arity - k,
{
    child_at(nodes, i, k);
    let e = cpos(sub_at(nodes, i)->Op_2, i, k);
    sub_facts(nodes, e);
    if k < nodes[i]->arity - 1 {
        cend_cpos(nodes, sizes, i, k + 1);
        child_at(nodes, i, k + 1);
    }
}
pub proof fn cends(nodes: Seq<PNode>, sizes: Seq<usize>, i: int)
    requires parse(nodes) is Some, sizes_ok(sizes, nodes), 0 <= i < nodes.len(), nodes[i] is Op,
    ensures forall|k: int| 0 <= k < nodes[i]->arity ==> ({ let e = #[trigger] cend(sizes, i, nodes[i]->arity as int, k); e == cpos(sub_at(nodes, i)->Op_2, i, k) && 0 <= e < i && 1 <= sizes[e] <= e + 1 && sub_at(nodes, e) == sub_at(nodes, i)->Op_2[k] && e + 1 - sizes[e] == sub_lo(nodes, e)
        && nodes.subrange(sub_lo(nodes, e), e + 1) == flatten(sub_at(nodes, e)) && proper(sub_at(nodes, e)) && sub_lo(nodes, i) <= sub_lo(nodes, e) }),
        ({ let t = sub_at(nodes, i); t is Op && t->Op_0 == nodes[i]->arity && t->Op_1 == nodes[i]->op && t->Op_2.len() == nodes[i]->arity && proper_all(t->Op_2) && proper(t) && 1 <= tsize(t) <= i + 1 }),
{
    assert forall|k: int| 0 <= k < nodes[i]->arity implies ({ let e = #[trigger] cend(sizes, i, nodes[i]->arity as int, k); e == cpos(sub_at(nodes, i)->Op_2, i, k) && 0 <= e < i && 1 <= sizes[e] <= e + 1 && sub_at(nodes, e) == sub_at(nodes, i)->Op_2[k] && e + 1 - sizes[e] == sub_lo(nodes, e)
        && nodes.subrange(sub_lo(nodes, e), e + 1) == flatten(sub_at(nodes, e)) && proper(sub_at(nodes, e)) && sub_lo(nodes, i) <= sub_lo(nodes, e) }) by { cend_cpos(nodes, sizes, i, k); }
    sub_facts(nodes, i);
}
=== fn symbolic_regression/src/mutation_functions.rs child_ranges
--- ret r
--- opt results
--- panics false
--- spec
requires root_idx <= isize::MAX, root_idx < sizes@.len(), forall|k: int| 0 <= k < arity ==> 0 <= (#[trigger] cend(sizes@, root_idx as int, arity as int, k)) < sizes@.len() && 1 <= sizes@[cend(sizes@, root_idx as int, arity as int, k)] <= cend(sizes@, root_idx as int, arity as int, k) + 1 && cend(sizes@, root_idx as int, arity as int, k) < root_idx,
ensures r@.len() == arity,
    forall|k: int| 0 <= k < arity ==> ({ let e = #[trigger] cend(sizes@, root_idx as int, arity as int, k); r@[k].1 == e && r@[k].0 == e + 1 - sizes@[e] }),
    forall|k: int| 0 <= k < arity ==> ({ let e = cend(sizes@, root_idx as int, arity as int, k); (#[trigger] r@[k]).1 == e && r@[k].0 == e + 1 - sizes@[e] }),
--- loop 0
invariant
    root_idx <= isize::MAX, root_idx < sizes@.len(), forall|k: int| 0 <= k < arity ==> 0 <= (#[trigger] cend(sizes@, root_idx as int, arity as int, k)) < sizes@.len() && 1 <= sizes@[cend(sizes@, root_idx as int, arity as int, k)] <= cend(sizes@, root_idx as int, arity as int, k) + 1 && cend(sizes@, root_idx as int, arity as int, k) < root_idx,
    __n0 == 0, __k0 <= arity, out@.len() == arity, __k0 > 0 ==> end == cend(sizes@, root_idx as int, arity as int, __k0 - 1),
    forall|k: int| __k0 <= k < arity ==> ({ let e = #[trigger] cend(sizes@, root_idx as int, arity as int, k); out@[k].1 == e && out@[k].0 == e + 1 - sizes@[e] }),
decreases __k0,
--- head 0
proof { assert(cend(sizes@, root_idx as int, arity as int, __k0 as int) >= 0); if __k0 > 0 { assert(cend(sizes@, root_idx as int, arity as int, __k0 - 1) >= 0); } }
