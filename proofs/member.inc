=== type dynamic_expressions/src/compile.rs EvalPlan
=== type dynamic_expressions/src/compile.rs Instr
=== type symbolic_regression/src/pop_member.rs MemberId
derive Copy, Clone
=== type symbolic_regression/src/pop_member.rs PopMember
=== type symbolic_regression/src/population.rs Population
=== raw
// #[derive(Clone)] / the hand-written Clone of these owned data types yields an equal value
impl<const D: usize> Clone for EvalPlan<D> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Clone, Ops, const D: usize> Clone for PostfixExpr<T, Ops, D> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
=== fn symbolic_regression/src/pop_member.rs PopMember@Clone::clone
--- ret r
--- spec
ensures r == *self,
