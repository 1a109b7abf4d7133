=== type dynamic_expressions/src/expression.rs PostfixExpr
drop meta
=== fn dynamic_expressions/src/expression.rs PostfixExpr::new
--- ret r
--- subst meta: Metadata =>
--- subst meta, =>
--- spec
ensures r.nodes == nodes, r.consts == consts,
=== raw
pub proof fn one_leaf(n: PNode)
    requires !(n is Op),
    ensures well_formed(seq![n]), tree_of(seq![n]) == leaf_term(n),
{ leaf_flat(n); parse_flatten(leaf_term(n)); }
pub proof fn all_push<const D: usize>(a: Seq<PNode>, n: PNode, nc: int, nf: int, o: Operators<D>)
    requires all_ok(a, nc, nf, o), node_ok(n, nc, nf, o),
    ensures all_ok(a.push(n), nc, nf, o),
{ assert forall|j: int| 0 <= j < a.len() + 1 implies node_ok(#[trigger] a.push(n)[j], nc, nf, o) by { if j < a.len() { assert(a.push(n)[j] == a[j]); } } }
