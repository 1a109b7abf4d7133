=== raw
/// a random number: any value
#[verifier::external_body]
pub fn standard_normal(rng: &mut Rng) -> Fx { unimplemented!() }
pub open spec fn leaf_term(n: PNode) -> Term { match n { PNode::Var { feature } => Term::Var(feature), PNode::Const { idx } => Term::Const(idx), PNode::Op { arity, op } => Term::Var(0) } }
/// a fresh leaf: a feature that exists, or a constant appended to the table
pub open spec fn fresh_leaf<T>(n: PNode, c0: Seq<T>, c1: Seq<T>, nf: int) -> bool {
    match n { PNode::Var { feature } => feature < nf && c1 == c0, PNode::Const { idx } => idx == c0.len() && c1.len() == c0.len() + 1 && c1.drop_last() == c0, _ => false }
}
pub proof fn leaf_flat(n: PNode)
    requires !(n is Op),
    ensures flatten(leaf_term(n)) == seq![n], proper(leaf_term(n)),
{ }
/// appending a leaf to a row of trees
pub proof fn row_leaf(ts: Seq<Term>, n: PNode)
    requires proper_all(ts), !(n is Op),
    ensures flatten_all(ts.push(leaf_term(n))) == flatten_all(ts).push(n), proper_all(ts.push(leaf_term(n))),
{ assert(ts.push(leaf_term(n)).drop_last() =~= ts); leaf_flat(n); assert(flatten_all(ts) + seq![n] =~= flatten_all(ts).push(n)); }
pub proof fn first_is_leaf(nodes: Seq<PNode>)
    requires well_formed(nodes),
    ensures nodes.len() >= 1, !(nodes[0] is Op),
{
    if nodes.len() > 0 { parse_prefix(nodes, 1); parse_step(nodes, 0); assert(nodes.take(0) =~= Seq::<PNode>::empty()); }
}
pub open spec fn leaves_at(ps: Seq<usize>, nodes: Seq<PNode>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]) < nodes.len() && !(nodes[ps[j] as int] is Op) }
