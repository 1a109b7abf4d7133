=== raw
// ---- what the structural constraints mean ----
pub open spec fn cx<T: Float, const D: usize>(o: Options<T, D>, t: Term) -> int { wsum(o, flatten(t)) }
// ---- per-operator, per-argument limits ----
pub open spec fn limit_ok_at<T: Float, const D: usize>(o: Options<T, D>, m: Map<OpId, [Option<u16>; D]>, nodes: Seq<PNode>, i: int) -> bool {
    match nodes[i] {
        PNode::Op { arity, op } => m.contains_key(OpId { arity: arity, id: op }) ==> forall|j: int| 0 <= j < arity ==>
            match (#[trigger] m[OpId { arity: arity, id: op }]@[j]) { Some(l) => cx(o, sub_at(nodes, i)->Op_2[j]) <= l, None => true },
        _ => true,
    }
}
pub open spec fn limits_ok<T: Float, const D: usize>(o: Options<T, D>, m: Map<OpId, [Option<u16>; D]>, nodes: Seq<PNode>) -> bool {
    forall|i: int| 0 <= i < nodes.len() ==> #[trigger] limit_ok_at(o, m, nodes, i)
}
pub open spec fn is_target(arity: u8, op: u16, target: OpId) -> int { if arity == target.arity && op == target.id { 1 } else { 0 } }
pub open spec fn nest(t: Term, target: OpId) -> int
    decreases t,
{ match t { Term::Op(a, op, ch) => max_nest(ch, target) + is_target(a, op, target), _ => 0 } }
pub open spec fn max_nest(ts: Seq<Term>, target: OpId) -> int
    decreases ts,
{ if ts.len() == 0 { 0 } else { let m = max_nest(ts.drop_last(), target); let d = nest(ts.last(), target); if d >= m { d } else { m } } }
pub proof fn nest_pos(t: Term, target: OpId)
    ensures nest(t, target) >= 0,
    decreases t,
{ match t { Term::Op(a, op, ch) => { max_nest_pos(ch, target); }, _ => {} } }
pub proof fn max_nest_pos(ts: Seq<Term>, target: OpId)
    ensures max_nest(ts, target) >= 0, forall|i: int| 0 <= i < ts.len() ==> nest(#[trigger] ts[i], target) >= 0,
    decreases ts,
{ if ts.len() > 0 {
    max_nest_pos(ts.drop_last(), target); nest_pos(ts.last(), target);
    assert forall|i: int| 0 <= i < ts.len() implies nest(#[trigger] ts[i], target) >= 0 by { if i < ts.len() - 1 { assert(ts[i] == ts.drop_last()[i]); } }
} }
pub open spec fn rule_ok(nodes: Seq<PNode>, i: int, rule: (OpId, u8)) -> bool { max_nest(sub_at(nodes, i)->Op_2, rule.0) <= rule.1 }
pub open spec fn nested_ok_at(m: Map<OpId, Vec<(OpId, u8)>>, nodes: Seq<PNode>, i: int) -> bool {
    match nodes[i] {
        PNode::Op { arity, op } => { let id = OpId { arity: arity, id: op }; m.contains_key(id) ==> forall|r: int| 0 <= r < m[id]@.len() ==> #[trigger] rule_ok(nodes, i, m[id]@[r]) },
        _ => true,
    }
}
pub open spec fn nested_ok(m: Map<OpId, Vec<(OpId, u8)>>, nodes: Seq<PNode>) -> bool { forall|i: int| 0 <= i < nodes.len() ==> #[trigger] nested_ok_at(m, nodes, i) }
/// the expression may be kept: size, depth, per-argument and nesting limits all hold
pub open spec fn admissible<T: Float, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>, o: Options<T, D>, curmaxsize: usize) -> bool {
    &&& sat(wsum(o, e.nodes@)) <= curmaxsize
    &&& tdepth(parse0(e.nodes@)->0[0]) <= o.maxdepth
    &&& limits_ok(o, o.op_constraints.limits@, e.nodes@)
    &&& nested_ok(o.nested_constraints.limits@, e.nodes@)
}
/// a well-formed expression whose operators fit the library's maximum arity
pub open spec fn sound_expr<T, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>) -> bool { arity_le(e.nodes@, D as int) && reduces(e.nodes@) && e.nodes.len() <= isize::MAX }
