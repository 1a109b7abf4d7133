=== raw
use std::collections::HashMap;
use std::marker::PhantomData;
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone, Hash, Eq
=== raw
impl PartialEqSpecImpl for OpId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OpId) -> bool { *self == *o } }
// #[derive(PartialEq)] on OpId: structural equality
impl PartialEq for OpId { fn eq(&self, o: &OpId) -> (r: bool) { self.arity == o.arity && self.id == o.id } }
// #[derive(Hash)] on OpId is consistent with equality (std HashMap then behaves as a map)
#[verifier::external_body]
pub proof fn opid_key()
    ensures vstd::std_specs::hash::obeys_key_model::<OpId>(),
{ }
/// std HashMap::entry(k).or_insert(v)
#[verifier::external_body]
pub fn vx_entry_or<V>(m: &mut HashMap<OpId, V>, k: OpId, v: V) -> (r: &mut V)
    ensures *r == (if old(m)@.contains_key(k) { old(m)@[k] } else { v }), final(m)@ == old(m)@.insert(k, *final(r)),
{ m.entry(k).or_insert(v) }
/// `Arc<dyn LossFn<T> + Send + Sync>`: some loss function (user code; assumed a function of its arguments)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxLoss<T> { x: PhantomData<T> }
pub fn vx_default<X>() -> (r: Vec<X>)
    ensures r@.len() == 0,
{ Vec::new() }
=== type dynamic_expressions/src/expression.rs PostfixExpr
drop meta
=== type symbolic_regression/src/check_constraints.rs OpConstraints
=== type symbolic_regression/src/check_constraints.rs NestedConstraints
=== type @symbolic_regression MutationWeights
subst f64 => Fx
=== raw
// #[derive(Clone)]
impl Clone for MutationWeights { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
=== type @symbolic_regression Options
drop operators, output_style
subst LossObject<T> => VxLoss<T>
subst std::collections::HashMap => HashMap
subst dynamic_expressions::OpId => OpId
subst f64 => Fx
subst f32 => Fx
=== raw
// ---- the configured weight of a node and of a tree ----
pub open spec fn sat(x: int) -> int { if x <= usize::MAX { x } else { usize::MAX as int } }
pub open spec fn weight<T: Float, const D: usize>(o: Options<T, D>, n: PNode) -> int {
    match n {
        PNode::Var { feature } => match o.variable_complexities {
            Some(v) => if feature < v@.len() { v@[feature as int] as int } else { o.complexity_of_variables as int },
            None => o.complexity_of_variables as int,
        },
        PNode::Const { .. } => o.complexity_of_constants as int,
        PNode::Op { arity, op } => { let id = OpId { arity: arity, id: op }; if o.operator_complexity_overrides@.contains_key(id) { o.operator_complexity_overrides@[id] as int } else { 1 } },
    }
}
pub open spec fn wsum<T: Float, const D: usize>(o: Options<T, D>, nodes: Seq<PNode>) -> int
    decreases nodes.len(),
{ if nodes.len() == 0 { 0 } else { wsum(o, nodes.drop_last()) + weight(o, nodes.last()) } }
/// what `uses_default_complexity` decides
pub open spec fn plain_weights<T: Float, const D: usize>(o: Options<T, D>) -> bool {
    o.complexity_of_constants == 1 && o.complexity_of_variables == 1 && o.variable_complexities is None && o.operator_complexity_overrides@.dom().is_empty()
}
pub open spec fn arity_le(nodes: Seq<PNode>, d: int) -> bool { forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Op ==> nodes[i]->arity <= d }
pub proof fn wsum_app<T: Float, const D: usize>(o: Options<T, D>, a: Seq<PNode>, b: Seq<PNode>)
    ensures wsum(o, a + b) == wsum(o, a) + wsum(o, b), wsum(o, b) >= 0,
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { wsum_app(o, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn wsum_plain<T: Float, const D: usize>(o: Options<T, D>, nodes: Seq<PNode>)
    requires plain_weights(o),
    ensures wsum(o, nodes) == nodes.len(),
    decreases nodes.len(),
{ if nodes.len() > 0 {
    wsum_plain(o, nodes.drop_last());
    if let PNode::Op { arity, op } = nodes.last() { assert(!o.operator_complexity_overrides@.dom().contains(OpId { arity: arity, id: op })); }
} }
