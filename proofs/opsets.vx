# dynamic_expressions: the built-in operator sets dispatch every identifier to the kernel of the operator it names
=== include prelude.inc
=== include float.inc
=== include kernelspec.inc
=== include ring.inc
=== include gradspec.inc
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== type dynamic_expressions/src/dispatch.rs EvalKernelCtx
=== type dynamic_expressions/src/dispatch.rs DiffKernelCtx
=== uses kernels.vx eval_nary
=== uses gradkernels.vx diff_nary
=== uses gradkernels.vx grad_nary
=== raw
/// value and partial derivative of built-in operator number k (what they are is the subject of unit builtins)
pub uninterp spec fn bev<T>(k: int, args: Seq<T>) -> T;
pub uninterp spec fn bpa<T>(k: int, args: Seq<T>, idx: int) -> T;
pub open spec fn bchain<T: Float>(k: int, vals: Seq<T>, ds: Seq<T>, m: int) -> T
    decreases m,
{
    if m <= 0 { T::s_zero() } else { bchain::<T>(k, vals, ds, m - 1).add_spec(bpa(k, vals, m - 1).mul_spec(ds[m - 1])) }
}
pub proof fn chain_is<T: Float, const A: usize, Op: Operator<T, A>>(k: int, vals: Seq<T>, ds: Seq<T>, m: int)
    requires forall|v: Seq<T>, i: int| Op::pa(v, i) == #[trigger] bpa::<T>(k, v, i),
    ensures chain::<T, A, Op>(vals, ds, m) == bchain::<T>(k, vals, ds, m),
    decreases m,
{ if m > 0 { chain_is::<T, A, Op>(k, vals, ds, m - 1); } }
pub proof fn fin_is<T: Float, const A: usize, Op: Operator<T, A>>(k: int, args: Seq<SrcRef<'_, T>>, n: int)
    requires forall|v: Seq<T>| Op::ev(v) == #[trigger] bev::<T>(k, v),
    ensures op_fin::<A, T, Op>(args, n) == bfin::<T>(k, args, n),
{
    assert forall|row: int| #[trigger] op_row::<A, T, Op>(args, row) == bev::<T>(k, row_of(args, row)) by { }
    if bfin::<T>(k, args, n) { assert forall|row: int| 0 <= row < n implies (#[trigger] op_row::<A, T, Op>(args, row)).fin() by { assert(bev::<T>(k, row_of(args, row)).fin()); } }
    if op_fin::<A, T, Op>(args, n) { assert forall|row: int| 0 <= row < n implies (#[trigger] bev::<T>(k, row_of(args, row))).fin() by { assert(op_row::<A, T, Op>(args, row).fin()); } }
}
pub open spec fn bfin<T: Float>(k: int, args: Seq<SrcRef<'_, T>>, n: int) -> bool { forall|row: int| 0 <= row < n ==> (#[trigger] bev::<T>(k, row_of(args, row))).fin() }
=== type @dynamic_expressions Abs
=== type @dynamic_expressions Abs2
=== type @dynamic_expressions Acos
=== type @dynamic_expressions Acosh
=== type @dynamic_expressions Asin
=== type @dynamic_expressions Asinh
=== type @dynamic_expressions Atan
=== type @dynamic_expressions Atanh
=== type @dynamic_expressions Cbrt
=== type @dynamic_expressions Cos
=== type @dynamic_expressions Cosh
=== type @dynamic_expressions Cot
=== type @dynamic_expressions Csc
=== type @dynamic_expressions Exp
=== type @dynamic_expressions Exp2
=== type @dynamic_expressions Expm1
=== type @dynamic_expressions Identity
=== type @dynamic_expressions Inv
=== type @dynamic_expressions Log
=== type @dynamic_expressions Log1p
=== type @dynamic_expressions Log2
=== type @dynamic_expressions Log10
=== type @dynamic_expressions Neg
=== type @dynamic_expressions Sec
=== type @dynamic_expressions Sign
=== type @dynamic_expressions Sin
=== type @dynamic_expressions Sinh
=== type @dynamic_expressions Sqrt
=== type @dynamic_expressions Tan
=== type @dynamic_expressions Tanh
=== type @dynamic_expressions Add
=== type @dynamic_expressions Atan2
=== type @dynamic_expressions Div
=== type @dynamic_expressions Max
=== type @dynamic_expressions Min
=== type @dynamic_expressions Mul
=== type @dynamic_expressions Pow
=== type @dynamic_expressions Sub
=== type @dynamic_expressions Clamp
=== type @dynamic_expressions Fma
=== raw
impl<T: Float> Operator<T, 1> for Abs {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(0, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(0, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Abs2 {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(1, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(1, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Acos {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(2, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(2, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Acosh {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(3, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(3, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Asin {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(4, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(4, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Asinh {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(5, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(5, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Atan {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(6, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(6, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Atanh {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(7, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(7, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Cbrt {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(8, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(8, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Cos {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(9, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(9, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Cosh {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(10, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(10, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Cot {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(11, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(11, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Csc {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(12, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(12, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Exp {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(13, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(13, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Exp2 {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(14, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(14, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Expm1 {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(15, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(15, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Identity {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(16, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(16, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Inv {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(17, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(17, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Log {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(18, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(18, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Log1p {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(19, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(19, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Log2 {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(20, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(20, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Log10 {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(21, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(21, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Neg {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(22, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(22, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Sec {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(23, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(23, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Sign {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(24, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(24, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Sin {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(25, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(25, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Sinh {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(26, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(26, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Sqrt {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(27, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(27, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Tan {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(28, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(28, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 1> for Tanh {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(29, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(29, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 1]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 1], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Add {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(30, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(30, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Atan2 {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(31, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(31, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Div {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(32, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(32, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Max {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(33, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(33, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Min {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(34, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(34, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Mul {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(35, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(35, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Pow {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(36, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(36, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 2> for Sub {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(37, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(37, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 2]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 2], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 3> for Clamp {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(38, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(38, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 3]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 3], idx: usize) -> (r: T) { unimplemented!() }
}
impl<T: Float> Operator<T, 3> for Fma {
    open spec fn ev(args: Seq<T>) -> T { bev::<T>(39, args) }
    open spec fn pa(args: Seq<T>, idx: int) -> T { bpa::<T>(39, args, idx) }
    #[verifier::external_body] fn eval(args: &[T; 3]) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn partial(args: &[T; 3], idx: usize) -> (r: T) { unimplemented!() }
}
=== type @dynamic_expressions UOpsF32
derive Clone, Copy
=== type @dynamic_expressions BOpsF32
derive Clone, Copy
=== type @dynamic_expressions TOpsF32
derive Clone, Copy
=== raw
/// the operator an identifier of the set names
pub open spec fn tagF32(op: OpId) -> int {
    if op.arity == 1 && op.id == UOpsF32::Abs as u16 { 0 } else
    if op.arity == 1 && op.id == UOpsF32::Abs2 as u16 { 1 } else
    if op.arity == 1 && op.id == UOpsF32::Acos as u16 { 2 } else
    if op.arity == 1 && op.id == UOpsF32::Acosh as u16 { 3 } else
    if op.arity == 1 && op.id == UOpsF32::Asin as u16 { 4 } else
    if op.arity == 1 && op.id == UOpsF32::Asinh as u16 { 5 } else
    if op.arity == 1 && op.id == UOpsF32::Atan as u16 { 6 } else
    if op.arity == 1 && op.id == UOpsF32::Atanh as u16 { 7 } else
    if op.arity == 1 && op.id == UOpsF32::Cbrt as u16 { 8 } else
    if op.arity == 1 && op.id == UOpsF32::Cos as u16 { 9 } else
    if op.arity == 1 && op.id == UOpsF32::Cosh as u16 { 10 } else
    if op.arity == 1 && op.id == UOpsF32::Cot as u16 { 11 } else
    if op.arity == 1 && op.id == UOpsF32::Csc as u16 { 12 } else
    if op.arity == 1 && op.id == UOpsF32::Exp as u16 { 13 } else
    if op.arity == 1 && op.id == UOpsF32::Exp2 as u16 { 14 } else
    if op.arity == 1 && op.id == UOpsF32::Expm1 as u16 { 15 } else
    if op.arity == 1 && op.id == UOpsF32::Identity as u16 { 16 } else
    if op.arity == 1 && op.id == UOpsF32::Inv as u16 { 17 } else
    if op.arity == 1 && op.id == UOpsF32::Log as u16 { 18 } else
    if op.arity == 1 && op.id == UOpsF32::Log1p as u16 { 19 } else
    if op.arity == 1 && op.id == UOpsF32::Log2 as u16 { 20 } else
    if op.arity == 1 && op.id == UOpsF32::Log10 as u16 { 21 } else
    if op.arity == 1 && op.id == UOpsF32::Neg as u16 { 22 } else
    if op.arity == 1 && op.id == UOpsF32::Sec as u16 { 23 } else
    if op.arity == 1 && op.id == UOpsF32::Sign as u16 { 24 } else
    if op.arity == 1 && op.id == UOpsF32::Sin as u16 { 25 } else
    if op.arity == 1 && op.id == UOpsF32::Sinh as u16 { 26 } else
    if op.arity == 1 && op.id == UOpsF32::Sqrt as u16 { 27 } else
    if op.arity == 1 && op.id == UOpsF32::Tan as u16 { 28 } else
    if op.arity == 1 && op.id == UOpsF32::Tanh as u16 { 29 } else
    if op.arity == 2 && op.id == BOpsF32::Add as u16 { 30 } else
    if op.arity == 2 && op.id == BOpsF32::Atan2 as u16 { 31 } else
    if op.arity == 2 && op.id == BOpsF32::Div as u16 { 32 } else
    if op.arity == 2 && op.id == BOpsF32::Max as u16 { 33 } else
    if op.arity == 2 && op.id == BOpsF32::Min as u16 { 34 } else
    if op.arity == 2 && op.id == BOpsF32::Mul as u16 { 35 } else
    if op.arity == 2 && op.id == BOpsF32::Pow as u16 { 36 } else
    if op.arity == 2 && op.id == BOpsF32::Sub as u16 { 37 } else
    if op.arity == 3 && op.id == TOpsF32::Clamp as u16 { 38 } else
    if op.arity == 3 && op.id == TOpsF32::Fma as u16 { 39 } else
    { -1 }
}
pub proof fn listedF32(op: OpId)
    ensures tagF32(op) >= 0 <==> (op.arity == 1 && op.id < 30) || (op.arity == 2 && op.id < 8) || (op.arity == 3 && op.id < 2),
{ }
=== fn @dynamic_expressions BuiltinOpsF32@OperatorSet::ops_with_arity
--- opt free
--- rename listed_ids_f32
--- ret r
--- spec
ensures
    forall|i: int| 0 <= i < r@.len() ==> tagF32(OpId { arity, id: #[trigger] r@[i] }) >= 0,
    forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] != r@[j],
    r@.len() == (if arity == 1 { 30int } else if arity == 2 { 8int } else if arity == 3 { 2int } else { 0int }),
=== fn @dynamic_expressions BuiltinOpsF32@OperatorSet::eval
--- opt free
--- rename eval_x
--- subst fn eval_x( => fn eval_set_a<T: Float>(
--- subst f32 => T
--- ret r
--- spec
requires
    tagF32(op) >= 0, ctx.args@.len() == op.arity,
    forall|j: int| 0 <= j < ctx.args@.len() ==> sref_ok(#[trigger] ctx.args@[j], old(ctx.out)@.len() as int),
ensures
    final(ctx.out)@.len() == old(ctx.out)@.len(),
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out)@.len() ==> #[trigger] final(ctx.out)@[row] == bev(tagF32(op), row_of(ctx.args@, row)),
    !ctx.opts.check_finite ==> r,
    ctx.opts.check_finite && final(ctx.out)@.len() > 0 ==> (r <==> bfin(tagF32(op), ctx.args@, final(ctx.out)@.len() as int)),
--- entry
proof {
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs>(z, n) == bfin::<T>(0, z, n) by { fin_is::<T, 1, Abs>(0, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs2>(z, n) == bfin::<T>(1, z, n) by { fin_is::<T, 1, Abs2>(1, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acos>(z, n) == bfin::<T>(2, z, n) by { fin_is::<T, 1, Acos>(2, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acosh>(z, n) == bfin::<T>(3, z, n) by { fin_is::<T, 1, Acosh>(3, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asin>(z, n) == bfin::<T>(4, z, n) by { fin_is::<T, 1, Asin>(4, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asinh>(z, n) == bfin::<T>(5, z, n) by { fin_is::<T, 1, Asinh>(5, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atan>(z, n) == bfin::<T>(6, z, n) by { fin_is::<T, 1, Atan>(6, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atanh>(z, n) == bfin::<T>(7, z, n) by { fin_is::<T, 1, Atanh>(7, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cbrt>(z, n) == bfin::<T>(8, z, n) by { fin_is::<T, 1, Cbrt>(8, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cos>(z, n) == bfin::<T>(9, z, n) by { fin_is::<T, 1, Cos>(9, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cosh>(z, n) == bfin::<T>(10, z, n) by { fin_is::<T, 1, Cosh>(10, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cot>(z, n) == bfin::<T>(11, z, n) by { fin_is::<T, 1, Cot>(11, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Csc>(z, n) == bfin::<T>(12, z, n) by { fin_is::<T, 1, Csc>(12, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp>(z, n) == bfin::<T>(13, z, n) by { fin_is::<T, 1, Exp>(13, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp2>(z, n) == bfin::<T>(14, z, n) by { fin_is::<T, 1, Exp2>(14, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Expm1>(z, n) == bfin::<T>(15, z, n) by { fin_is::<T, 1, Expm1>(15, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Identity>(z, n) == bfin::<T>(16, z, n) by { fin_is::<T, 1, Identity>(16, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Inv>(z, n) == bfin::<T>(17, z, n) by { fin_is::<T, 1, Inv>(17, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log>(z, n) == bfin::<T>(18, z, n) by { fin_is::<T, 1, Log>(18, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log1p>(z, n) == bfin::<T>(19, z, n) by { fin_is::<T, 1, Log1p>(19, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log2>(z, n) == bfin::<T>(20, z, n) by { fin_is::<T, 1, Log2>(20, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log10>(z, n) == bfin::<T>(21, z, n) by { fin_is::<T, 1, Log10>(21, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Neg>(z, n) == bfin::<T>(22, z, n) by { fin_is::<T, 1, Neg>(22, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sec>(z, n) == bfin::<T>(23, z, n) by { fin_is::<T, 1, Sec>(23, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sign>(z, n) == bfin::<T>(24, z, n) by { fin_is::<T, 1, Sign>(24, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sin>(z, n) == bfin::<T>(25, z, n) by { fin_is::<T, 1, Sin>(25, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sinh>(z, n) == bfin::<T>(26, z, n) by { fin_is::<T, 1, Sinh>(26, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sqrt>(z, n) == bfin::<T>(27, z, n) by { fin_is::<T, 1, Sqrt>(27, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tan>(z, n) == bfin::<T>(28, z, n) by { fin_is::<T, 1, Tan>(28, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tanh>(z, n) == bfin::<T>(29, z, n) by { fin_is::<T, 1, Tanh>(29, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Add>(z, n) == bfin::<T>(30, z, n) by { fin_is::<T, 2, Add>(30, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Atan2>(z, n) == bfin::<T>(31, z, n) by { fin_is::<T, 2, Atan2>(31, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Div>(z, n) == bfin::<T>(32, z, n) by { fin_is::<T, 2, Div>(32, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Max>(z, n) == bfin::<T>(33, z, n) by { fin_is::<T, 2, Max>(33, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Min>(z, n) == bfin::<T>(34, z, n) by { fin_is::<T, 2, Min>(34, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Mul>(z, n) == bfin::<T>(35, z, n) by { fin_is::<T, 2, Mul>(35, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Pow>(z, n) == bfin::<T>(36, z, n) by { fin_is::<T, 2, Pow>(36, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Sub>(z, n) == bfin::<T>(37, z, n) by { fin_is::<T, 2, Sub>(37, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Clamp>(z, n) == bfin::<T>(38, z, n) by { fin_is::<T, 3, Clamp>(38, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Fma>(z, n) == bfin::<T>(39, z, n) by { fin_is::<T, 3, Fma>(39, z, n); }
}
=== fn @dynamic_expressions BuiltinOpsF32@OperatorSet::diff
--- opt free
--- rename diff_x
--- subst fn diff_x( => fn diff_set_a<T: RingFloat>(
--- subst f32 => T
--- ret r
--- spec
requires
    tagF32(op) >= 0, ctx.args@.len() == op.arity, ctx.dargs@.len() == op.arity, old(ctx.out_der)@.len() == old(ctx.out_val)@.len(),
    forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.args@[j], old(ctx.out_val)@.len() as int),
    forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.dargs@[j], old(ctx.out_val)@.len() as int),
    forall|j: int| 0 <= j < op.arity ==> (#[trigger] ctx.dargs@[j] is Slice ==> ctx.args@[j] is Slice),
ensures
    final(ctx.out_val)@.len() == old(ctx.out_val)@.len(), final(ctx.out_der)@.len() == old(ctx.out_val)@.len(),
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out_val)@.len() ==> #[trigger] final(ctx.out_val)@[row] == bev(tagF32(op), row_of(ctx.args@, row)),
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out_val)@.len() ==> #[trigger] final(ctx.out_der)@[row] == bchain(tagF32(op), row_of(ctx.args@, row), row_of(ctx.dargs@, row), op.arity as int),
    !ctx.opts.check_finite ==> r,
    ctx.opts.check_finite && r ==> bfin(tagF32(op), ctx.args@, final(ctx.out_val)@.len() as int),
    ctx.opts.check_finite && op.arity <= 2 ==> (r <==> bfin(tagF32(op), ctx.args@, final(ctx.out_val)@.len() as int)),
--- entry
proof {
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs>(z, n) == bfin::<T>(0, z, n) by { fin_is::<T, 1, Abs>(0, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs2>(z, n) == bfin::<T>(1, z, n) by { fin_is::<T, 1, Abs2>(1, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acos>(z, n) == bfin::<T>(2, z, n) by { fin_is::<T, 1, Acos>(2, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acosh>(z, n) == bfin::<T>(3, z, n) by { fin_is::<T, 1, Acosh>(3, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asin>(z, n) == bfin::<T>(4, z, n) by { fin_is::<T, 1, Asin>(4, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asinh>(z, n) == bfin::<T>(5, z, n) by { fin_is::<T, 1, Asinh>(5, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atan>(z, n) == bfin::<T>(6, z, n) by { fin_is::<T, 1, Atan>(6, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atanh>(z, n) == bfin::<T>(7, z, n) by { fin_is::<T, 1, Atanh>(7, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cbrt>(z, n) == bfin::<T>(8, z, n) by { fin_is::<T, 1, Cbrt>(8, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cos>(z, n) == bfin::<T>(9, z, n) by { fin_is::<T, 1, Cos>(9, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cosh>(z, n) == bfin::<T>(10, z, n) by { fin_is::<T, 1, Cosh>(10, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cot>(z, n) == bfin::<T>(11, z, n) by { fin_is::<T, 1, Cot>(11, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Csc>(z, n) == bfin::<T>(12, z, n) by { fin_is::<T, 1, Csc>(12, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp>(z, n) == bfin::<T>(13, z, n) by { fin_is::<T, 1, Exp>(13, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp2>(z, n) == bfin::<T>(14, z, n) by { fin_is::<T, 1, Exp2>(14, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Expm1>(z, n) == bfin::<T>(15, z, n) by { fin_is::<T, 1, Expm1>(15, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Identity>(z, n) == bfin::<T>(16, z, n) by { fin_is::<T, 1, Identity>(16, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Inv>(z, n) == bfin::<T>(17, z, n) by { fin_is::<T, 1, Inv>(17, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log>(z, n) == bfin::<T>(18, z, n) by { fin_is::<T, 1, Log>(18, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log1p>(z, n) == bfin::<T>(19, z, n) by { fin_is::<T, 1, Log1p>(19, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log2>(z, n) == bfin::<T>(20, z, n) by { fin_is::<T, 1, Log2>(20, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log10>(z, n) == bfin::<T>(21, z, n) by { fin_is::<T, 1, Log10>(21, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Neg>(z, n) == bfin::<T>(22, z, n) by { fin_is::<T, 1, Neg>(22, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sec>(z, n) == bfin::<T>(23, z, n) by { fin_is::<T, 1, Sec>(23, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sign>(z, n) == bfin::<T>(24, z, n) by { fin_is::<T, 1, Sign>(24, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sin>(z, n) == bfin::<T>(25, z, n) by { fin_is::<T, 1, Sin>(25, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sinh>(z, n) == bfin::<T>(26, z, n) by { fin_is::<T, 1, Sinh>(26, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sqrt>(z, n) == bfin::<T>(27, z, n) by { fin_is::<T, 1, Sqrt>(27, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tan>(z, n) == bfin::<T>(28, z, n) by { fin_is::<T, 1, Tan>(28, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tanh>(z, n) == bfin::<T>(29, z, n) by { fin_is::<T, 1, Tanh>(29, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Add>(z, n) == bfin::<T>(30, z, n) by { fin_is::<T, 2, Add>(30, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Atan2>(z, n) == bfin::<T>(31, z, n) by { fin_is::<T, 2, Atan2>(31, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Div>(z, n) == bfin::<T>(32, z, n) by { fin_is::<T, 2, Div>(32, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Max>(z, n) == bfin::<T>(33, z, n) by { fin_is::<T, 2, Max>(33, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Min>(z, n) == bfin::<T>(34, z, n) by { fin_is::<T, 2, Min>(34, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Mul>(z, n) == bfin::<T>(35, z, n) by { fin_is::<T, 2, Mul>(35, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Pow>(z, n) == bfin::<T>(36, z, n) by { fin_is::<T, 2, Pow>(36, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Sub>(z, n) == bfin::<T>(37, z, n) by { fin_is::<T, 2, Sub>(37, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Clamp>(z, n) == bfin::<T>(38, z, n) by { fin_is::<T, 3, Clamp>(38, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Fma>(z, n) == bfin::<T>(39, z, n) by { fin_is::<T, 3, Fma>(39, z, n); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs>(v, d, m) == bchain::<T>(0, v, d, m) by { chain_is::<T, 1, Abs>(0, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs2>(v, d, m) == bchain::<T>(1, v, d, m) by { chain_is::<T, 1, Abs2>(1, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acos>(v, d, m) == bchain::<T>(2, v, d, m) by { chain_is::<T, 1, Acos>(2, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acosh>(v, d, m) == bchain::<T>(3, v, d, m) by { chain_is::<T, 1, Acosh>(3, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asin>(v, d, m) == bchain::<T>(4, v, d, m) by { chain_is::<T, 1, Asin>(4, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asinh>(v, d, m) == bchain::<T>(5, v, d, m) by { chain_is::<T, 1, Asinh>(5, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atan>(v, d, m) == bchain::<T>(6, v, d, m) by { chain_is::<T, 1, Atan>(6, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atanh>(v, d, m) == bchain::<T>(7, v, d, m) by { chain_is::<T, 1, Atanh>(7, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cbrt>(v, d, m) == bchain::<T>(8, v, d, m) by { chain_is::<T, 1, Cbrt>(8, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cos>(v, d, m) == bchain::<T>(9, v, d, m) by { chain_is::<T, 1, Cos>(9, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cosh>(v, d, m) == bchain::<T>(10, v, d, m) by { chain_is::<T, 1, Cosh>(10, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cot>(v, d, m) == bchain::<T>(11, v, d, m) by { chain_is::<T, 1, Cot>(11, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Csc>(v, d, m) == bchain::<T>(12, v, d, m) by { chain_is::<T, 1, Csc>(12, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp>(v, d, m) == bchain::<T>(13, v, d, m) by { chain_is::<T, 1, Exp>(13, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp2>(v, d, m) == bchain::<T>(14, v, d, m) by { chain_is::<T, 1, Exp2>(14, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Expm1>(v, d, m) == bchain::<T>(15, v, d, m) by { chain_is::<T, 1, Expm1>(15, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Identity>(v, d, m) == bchain::<T>(16, v, d, m) by { chain_is::<T, 1, Identity>(16, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Inv>(v, d, m) == bchain::<T>(17, v, d, m) by { chain_is::<T, 1, Inv>(17, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log>(v, d, m) == bchain::<T>(18, v, d, m) by { chain_is::<T, 1, Log>(18, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log1p>(v, d, m) == bchain::<T>(19, v, d, m) by { chain_is::<T, 1, Log1p>(19, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log2>(v, d, m) == bchain::<T>(20, v, d, m) by { chain_is::<T, 1, Log2>(20, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log10>(v, d, m) == bchain::<T>(21, v, d, m) by { chain_is::<T, 1, Log10>(21, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Neg>(v, d, m) == bchain::<T>(22, v, d, m) by { chain_is::<T, 1, Neg>(22, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sec>(v, d, m) == bchain::<T>(23, v, d, m) by { chain_is::<T, 1, Sec>(23, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sign>(v, d, m) == bchain::<T>(24, v, d, m) by { chain_is::<T, 1, Sign>(24, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sin>(v, d, m) == bchain::<T>(25, v, d, m) by { chain_is::<T, 1, Sin>(25, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sinh>(v, d, m) == bchain::<T>(26, v, d, m) by { chain_is::<T, 1, Sinh>(26, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sqrt>(v, d, m) == bchain::<T>(27, v, d, m) by { chain_is::<T, 1, Sqrt>(27, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tan>(v, d, m) == bchain::<T>(28, v, d, m) by { chain_is::<T, 1, Tan>(28, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tanh>(v, d, m) == bchain::<T>(29, v, d, m) by { chain_is::<T, 1, Tanh>(29, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Add>(v, d, m) == bchain::<T>(30, v, d, m) by { chain_is::<T, 2, Add>(30, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Atan2>(v, d, m) == bchain::<T>(31, v, d, m) by { chain_is::<T, 2, Atan2>(31, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Div>(v, d, m) == bchain::<T>(32, v, d, m) by { chain_is::<T, 2, Div>(32, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Max>(v, d, m) == bchain::<T>(33, v, d, m) by { chain_is::<T, 2, Max>(33, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Min>(v, d, m) == bchain::<T>(34, v, d, m) by { chain_is::<T, 2, Min>(34, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Mul>(v, d, m) == bchain::<T>(35, v, d, m) by { chain_is::<T, 2, Mul>(35, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Pow>(v, d, m) == bchain::<T>(36, v, d, m) by { chain_is::<T, 2, Pow>(36, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Sub>(v, d, m) == bchain::<T>(37, v, d, m) by { chain_is::<T, 2, Sub>(37, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Clamp>(v, d, m) == bchain::<T>(38, v, d, m) by { chain_is::<T, 3, Clamp>(38, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Fma>(v, d, m) == bchain::<T>(39, v, d, m) by { chain_is::<T, 3, Fma>(39, v, d, m); }
}
=== fn @dynamic_expressions BuiltinOpsF32@OperatorSet::grad
--- opt free
--- rename grad_x
--- subst fn grad_x( => fn grad_set_a<T: RingFloat>(
--- subst f32 => T
--- ret r
--- spec
requires
    tagF32(op) >= 0, ctx.args@.len() == op.arity, ctx.arg_grads@.len() == op.arity,
    old(ctx.out_val)@.len() == ctx.n_rows, old(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
    forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.args@[j], ctx.n_rows as int),
    forall|j: int| 0 <= j < op.arity ==> gref_ok(#[trigger] ctx.arg_grads@[j], ctx.n_dir as int, ctx.n_rows as int),
    forall|j: int| 0 <= j < op.arity ==> (#[trigger] ctx.arg_grads@[j] is Slice ==> ctx.args@[j] is Slice),
ensures
    final(ctx.out_val)@.len() == ctx.n_rows, final(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < ctx.n_rows ==> #[trigger] final(ctx.out_val)@[row] == bev(tagF32(op), row_of(ctx.args@, row)),
    r || !ctx.opts.early_exit ==> forall|dir: int, row: int| 0 <= dir < ctx.n_dir && 0 <= row < ctx.n_rows ==>
        final(ctx.out_grad)@[#[trigger] at(dir, row, ctx.n_rows as int)] == bchain(tagF32(op), row_of(ctx.args@, row), grow(ctx.arg_grads@, dir, row, ctx.n_rows as int), op.arity as int),
    !ctx.opts.check_finite ==> r,
    ctx.opts.check_finite ==> (r <==> bfin(tagF32(op), ctx.args@, ctx.n_rows as int)),
--- entry
proof {
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs>(z, n) == bfin::<T>(0, z, n) by { fin_is::<T, 1, Abs>(0, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs2>(z, n) == bfin::<T>(1, z, n) by { fin_is::<T, 1, Abs2>(1, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acos>(z, n) == bfin::<T>(2, z, n) by { fin_is::<T, 1, Acos>(2, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acosh>(z, n) == bfin::<T>(3, z, n) by { fin_is::<T, 1, Acosh>(3, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asin>(z, n) == bfin::<T>(4, z, n) by { fin_is::<T, 1, Asin>(4, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asinh>(z, n) == bfin::<T>(5, z, n) by { fin_is::<T, 1, Asinh>(5, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atan>(z, n) == bfin::<T>(6, z, n) by { fin_is::<T, 1, Atan>(6, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atanh>(z, n) == bfin::<T>(7, z, n) by { fin_is::<T, 1, Atanh>(7, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cbrt>(z, n) == bfin::<T>(8, z, n) by { fin_is::<T, 1, Cbrt>(8, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cos>(z, n) == bfin::<T>(9, z, n) by { fin_is::<T, 1, Cos>(9, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cosh>(z, n) == bfin::<T>(10, z, n) by { fin_is::<T, 1, Cosh>(10, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cot>(z, n) == bfin::<T>(11, z, n) by { fin_is::<T, 1, Cot>(11, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Csc>(z, n) == bfin::<T>(12, z, n) by { fin_is::<T, 1, Csc>(12, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp>(z, n) == bfin::<T>(13, z, n) by { fin_is::<T, 1, Exp>(13, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp2>(z, n) == bfin::<T>(14, z, n) by { fin_is::<T, 1, Exp2>(14, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Expm1>(z, n) == bfin::<T>(15, z, n) by { fin_is::<T, 1, Expm1>(15, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Identity>(z, n) == bfin::<T>(16, z, n) by { fin_is::<T, 1, Identity>(16, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Inv>(z, n) == bfin::<T>(17, z, n) by { fin_is::<T, 1, Inv>(17, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log>(z, n) == bfin::<T>(18, z, n) by { fin_is::<T, 1, Log>(18, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log1p>(z, n) == bfin::<T>(19, z, n) by { fin_is::<T, 1, Log1p>(19, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log2>(z, n) == bfin::<T>(20, z, n) by { fin_is::<T, 1, Log2>(20, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log10>(z, n) == bfin::<T>(21, z, n) by { fin_is::<T, 1, Log10>(21, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Neg>(z, n) == bfin::<T>(22, z, n) by { fin_is::<T, 1, Neg>(22, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sec>(z, n) == bfin::<T>(23, z, n) by { fin_is::<T, 1, Sec>(23, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sign>(z, n) == bfin::<T>(24, z, n) by { fin_is::<T, 1, Sign>(24, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sin>(z, n) == bfin::<T>(25, z, n) by { fin_is::<T, 1, Sin>(25, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sinh>(z, n) == bfin::<T>(26, z, n) by { fin_is::<T, 1, Sinh>(26, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sqrt>(z, n) == bfin::<T>(27, z, n) by { fin_is::<T, 1, Sqrt>(27, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tan>(z, n) == bfin::<T>(28, z, n) by { fin_is::<T, 1, Tan>(28, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tanh>(z, n) == bfin::<T>(29, z, n) by { fin_is::<T, 1, Tanh>(29, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Add>(z, n) == bfin::<T>(30, z, n) by { fin_is::<T, 2, Add>(30, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Atan2>(z, n) == bfin::<T>(31, z, n) by { fin_is::<T, 2, Atan2>(31, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Div>(z, n) == bfin::<T>(32, z, n) by { fin_is::<T, 2, Div>(32, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Max>(z, n) == bfin::<T>(33, z, n) by { fin_is::<T, 2, Max>(33, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Min>(z, n) == bfin::<T>(34, z, n) by { fin_is::<T, 2, Min>(34, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Mul>(z, n) == bfin::<T>(35, z, n) by { fin_is::<T, 2, Mul>(35, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Pow>(z, n) == bfin::<T>(36, z, n) by { fin_is::<T, 2, Pow>(36, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Sub>(z, n) == bfin::<T>(37, z, n) by { fin_is::<T, 2, Sub>(37, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Clamp>(z, n) == bfin::<T>(38, z, n) by { fin_is::<T, 3, Clamp>(38, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Fma>(z, n) == bfin::<T>(39, z, n) by { fin_is::<T, 3, Fma>(39, z, n); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs>(v, d, m) == bchain::<T>(0, v, d, m) by { chain_is::<T, 1, Abs>(0, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs2>(v, d, m) == bchain::<T>(1, v, d, m) by { chain_is::<T, 1, Abs2>(1, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acos>(v, d, m) == bchain::<T>(2, v, d, m) by { chain_is::<T, 1, Acos>(2, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acosh>(v, d, m) == bchain::<T>(3, v, d, m) by { chain_is::<T, 1, Acosh>(3, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asin>(v, d, m) == bchain::<T>(4, v, d, m) by { chain_is::<T, 1, Asin>(4, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asinh>(v, d, m) == bchain::<T>(5, v, d, m) by { chain_is::<T, 1, Asinh>(5, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atan>(v, d, m) == bchain::<T>(6, v, d, m) by { chain_is::<T, 1, Atan>(6, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atanh>(v, d, m) == bchain::<T>(7, v, d, m) by { chain_is::<T, 1, Atanh>(7, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cbrt>(v, d, m) == bchain::<T>(8, v, d, m) by { chain_is::<T, 1, Cbrt>(8, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cos>(v, d, m) == bchain::<T>(9, v, d, m) by { chain_is::<T, 1, Cos>(9, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cosh>(v, d, m) == bchain::<T>(10, v, d, m) by { chain_is::<T, 1, Cosh>(10, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cot>(v, d, m) == bchain::<T>(11, v, d, m) by { chain_is::<T, 1, Cot>(11, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Csc>(v, d, m) == bchain::<T>(12, v, d, m) by { chain_is::<T, 1, Csc>(12, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp>(v, d, m) == bchain::<T>(13, v, d, m) by { chain_is::<T, 1, Exp>(13, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp2>(v, d, m) == bchain::<T>(14, v, d, m) by { chain_is::<T, 1, Exp2>(14, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Expm1>(v, d, m) == bchain::<T>(15, v, d, m) by { chain_is::<T, 1, Expm1>(15, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Identity>(v, d, m) == bchain::<T>(16, v, d, m) by { chain_is::<T, 1, Identity>(16, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Inv>(v, d, m) == bchain::<T>(17, v, d, m) by { chain_is::<T, 1, Inv>(17, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log>(v, d, m) == bchain::<T>(18, v, d, m) by { chain_is::<T, 1, Log>(18, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log1p>(v, d, m) == bchain::<T>(19, v, d, m) by { chain_is::<T, 1, Log1p>(19, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log2>(v, d, m) == bchain::<T>(20, v, d, m) by { chain_is::<T, 1, Log2>(20, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log10>(v, d, m) == bchain::<T>(21, v, d, m) by { chain_is::<T, 1, Log10>(21, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Neg>(v, d, m) == bchain::<T>(22, v, d, m) by { chain_is::<T, 1, Neg>(22, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sec>(v, d, m) == bchain::<T>(23, v, d, m) by { chain_is::<T, 1, Sec>(23, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sign>(v, d, m) == bchain::<T>(24, v, d, m) by { chain_is::<T, 1, Sign>(24, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sin>(v, d, m) == bchain::<T>(25, v, d, m) by { chain_is::<T, 1, Sin>(25, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sinh>(v, d, m) == bchain::<T>(26, v, d, m) by { chain_is::<T, 1, Sinh>(26, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sqrt>(v, d, m) == bchain::<T>(27, v, d, m) by { chain_is::<T, 1, Sqrt>(27, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tan>(v, d, m) == bchain::<T>(28, v, d, m) by { chain_is::<T, 1, Tan>(28, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tanh>(v, d, m) == bchain::<T>(29, v, d, m) by { chain_is::<T, 1, Tanh>(29, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Add>(v, d, m) == bchain::<T>(30, v, d, m) by { chain_is::<T, 2, Add>(30, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Atan2>(v, d, m) == bchain::<T>(31, v, d, m) by { chain_is::<T, 2, Atan2>(31, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Div>(v, d, m) == bchain::<T>(32, v, d, m) by { chain_is::<T, 2, Div>(32, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Max>(v, d, m) == bchain::<T>(33, v, d, m) by { chain_is::<T, 2, Max>(33, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Min>(v, d, m) == bchain::<T>(34, v, d, m) by { chain_is::<T, 2, Min>(34, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Mul>(v, d, m) == bchain::<T>(35, v, d, m) by { chain_is::<T, 2, Mul>(35, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Pow>(v, d, m) == bchain::<T>(36, v, d, m) by { chain_is::<T, 2, Pow>(36, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Sub>(v, d, m) == bchain::<T>(37, v, d, m) by { chain_is::<T, 2, Sub>(37, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Clamp>(v, d, m) == bchain::<T>(38, v, d, m) by { chain_is::<T, 3, Clamp>(38, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Fma>(v, d, m) == bchain::<T>(39, v, d, m) by { chain_is::<T, 3, Fma>(39, v, d, m); }
}
=== type @dynamic_expressions UOpsF64
derive Clone, Copy
=== type @dynamic_expressions BOpsF64
derive Clone, Copy
=== type @dynamic_expressions TOpsF64
derive Clone, Copy
=== raw
/// the operator an identifier of the set names
pub open spec fn tagF64(op: OpId) -> int {
    if op.arity == 1 && op.id == UOpsF64::Abs as u16 { 0 } else
    if op.arity == 1 && op.id == UOpsF64::Abs2 as u16 { 1 } else
    if op.arity == 1 && op.id == UOpsF64::Acos as u16 { 2 } else
    if op.arity == 1 && op.id == UOpsF64::Acosh as u16 { 3 } else
    if op.arity == 1 && op.id == UOpsF64::Asin as u16 { 4 } else
    if op.arity == 1 && op.id == UOpsF64::Asinh as u16 { 5 } else
    if op.arity == 1 && op.id == UOpsF64::Atan as u16 { 6 } else
    if op.arity == 1 && op.id == UOpsF64::Atanh as u16 { 7 } else
    if op.arity == 1 && op.id == UOpsF64::Cbrt as u16 { 8 } else
    if op.arity == 1 && op.id == UOpsF64::Cos as u16 { 9 } else
    if op.arity == 1 && op.id == UOpsF64::Cosh as u16 { 10 } else
    if op.arity == 1 && op.id == UOpsF64::Cot as u16 { 11 } else
    if op.arity == 1 && op.id == UOpsF64::Csc as u16 { 12 } else
    if op.arity == 1 && op.id == UOpsF64::Exp as u16 { 13 } else
    if op.arity == 1 && op.id == UOpsF64::Exp2 as u16 { 14 } else
    if op.arity == 1 && op.id == UOpsF64::Expm1 as u16 { 15 } else
    if op.arity == 1 && op.id == UOpsF64::Identity as u16 { 16 } else
    if op.arity == 1 && op.id == UOpsF64::Inv as u16 { 17 } else
    if op.arity == 1 && op.id == UOpsF64::Log as u16 { 18 } else
    if op.arity == 1 && op.id == UOpsF64::Log1p as u16 { 19 } else
    if op.arity == 1 && op.id == UOpsF64::Log2 as u16 { 20 } else
    if op.arity == 1 && op.id == UOpsF64::Log10 as u16 { 21 } else
    if op.arity == 1 && op.id == UOpsF64::Neg as u16 { 22 } else
    if op.arity == 1 && op.id == UOpsF64::Sec as u16 { 23 } else
    if op.arity == 1 && op.id == UOpsF64::Sign as u16 { 24 } else
    if op.arity == 1 && op.id == UOpsF64::Sin as u16 { 25 } else
    if op.arity == 1 && op.id == UOpsF64::Sinh as u16 { 26 } else
    if op.arity == 1 && op.id == UOpsF64::Sqrt as u16 { 27 } else
    if op.arity == 1 && op.id == UOpsF64::Tan as u16 { 28 } else
    if op.arity == 1 && op.id == UOpsF64::Tanh as u16 { 29 } else
    if op.arity == 2 && op.id == BOpsF64::Add as u16 { 30 } else
    if op.arity == 2 && op.id == BOpsF64::Atan2 as u16 { 31 } else
    if op.arity == 2 && op.id == BOpsF64::Div as u16 { 32 } else
    if op.arity == 2 && op.id == BOpsF64::Max as u16 { 33 } else
    if op.arity == 2 && op.id == BOpsF64::Min as u16 { 34 } else
    if op.arity == 2 && op.id == BOpsF64::Mul as u16 { 35 } else
    if op.arity == 2 && op.id == BOpsF64::Pow as u16 { 36 } else
    if op.arity == 2 && op.id == BOpsF64::Sub as u16 { 37 } else
    if op.arity == 3 && op.id == TOpsF64::Clamp as u16 { 38 } else
    if op.arity == 3 && op.id == TOpsF64::Fma as u16 { 39 } else
    { -1 }
}
pub proof fn listedF64(op: OpId)
    ensures tagF64(op) >= 0 <==> (op.arity == 1 && op.id < 30) || (op.arity == 2 && op.id < 8) || (op.arity == 3 && op.id < 2),
{ }
=== fn @dynamic_expressions BuiltinOpsF64@OperatorSet::ops_with_arity
--- opt free
--- rename listed_ids_f64
--- ret r
--- spec
ensures
    forall|i: int| 0 <= i < r@.len() ==> tagF64(OpId { arity, id: #[trigger] r@[i] }) >= 0,
    forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] != r@[j],
    r@.len() == (if arity == 1 { 30int } else if arity == 2 { 8int } else if arity == 3 { 2int } else { 0int }),
=== fn @dynamic_expressions BuiltinOpsF64@OperatorSet::eval
--- opt free
--- rename eval_x
--- subst fn eval_x( => fn eval_set_b<T: Float>(
--- subst f64 => T
--- ret r
--- spec
requires
    tagF64(op) >= 0, ctx.args@.len() == op.arity,
    forall|j: int| 0 <= j < ctx.args@.len() ==> sref_ok(#[trigger] ctx.args@[j], old(ctx.out)@.len() as int),
ensures
    final(ctx.out)@.len() == old(ctx.out)@.len(),
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out)@.len() ==> #[trigger] final(ctx.out)@[row] == bev(tagF64(op), row_of(ctx.args@, row)),
    !ctx.opts.check_finite ==> r,
    ctx.opts.check_finite && final(ctx.out)@.len() > 0 ==> (r <==> bfin(tagF64(op), ctx.args@, final(ctx.out)@.len() as int)),
--- entry
proof {
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs>(z, n) == bfin::<T>(0, z, n) by { fin_is::<T, 1, Abs>(0, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs2>(z, n) == bfin::<T>(1, z, n) by { fin_is::<T, 1, Abs2>(1, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acos>(z, n) == bfin::<T>(2, z, n) by { fin_is::<T, 1, Acos>(2, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acosh>(z, n) == bfin::<T>(3, z, n) by { fin_is::<T, 1, Acosh>(3, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asin>(z, n) == bfin::<T>(4, z, n) by { fin_is::<T, 1, Asin>(4, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asinh>(z, n) == bfin::<T>(5, z, n) by { fin_is::<T, 1, Asinh>(5, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atan>(z, n) == bfin::<T>(6, z, n) by { fin_is::<T, 1, Atan>(6, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atanh>(z, n) == bfin::<T>(7, z, n) by { fin_is::<T, 1, Atanh>(7, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cbrt>(z, n) == bfin::<T>(8, z, n) by { fin_is::<T, 1, Cbrt>(8, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cos>(z, n) == bfin::<T>(9, z, n) by { fin_is::<T, 1, Cos>(9, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cosh>(z, n) == bfin::<T>(10, z, n) by { fin_is::<T, 1, Cosh>(10, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cot>(z, n) == bfin::<T>(11, z, n) by { fin_is::<T, 1, Cot>(11, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Csc>(z, n) == bfin::<T>(12, z, n) by { fin_is::<T, 1, Csc>(12, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp>(z, n) == bfin::<T>(13, z, n) by { fin_is::<T, 1, Exp>(13, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp2>(z, n) == bfin::<T>(14, z, n) by { fin_is::<T, 1, Exp2>(14, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Expm1>(z, n) == bfin::<T>(15, z, n) by { fin_is::<T, 1, Expm1>(15, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Identity>(z, n) == bfin::<T>(16, z, n) by { fin_is::<T, 1, Identity>(16, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Inv>(z, n) == bfin::<T>(17, z, n) by { fin_is::<T, 1, Inv>(17, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log>(z, n) == bfin::<T>(18, z, n) by { fin_is::<T, 1, Log>(18, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log1p>(z, n) == bfin::<T>(19, z, n) by { fin_is::<T, 1, Log1p>(19, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log2>(z, n) == bfin::<T>(20, z, n) by { fin_is::<T, 1, Log2>(20, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log10>(z, n) == bfin::<T>(21, z, n) by { fin_is::<T, 1, Log10>(21, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Neg>(z, n) == bfin::<T>(22, z, n) by { fin_is::<T, 1, Neg>(22, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sec>(z, n) == bfin::<T>(23, z, n) by { fin_is::<T, 1, Sec>(23, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sign>(z, n) == bfin::<T>(24, z, n) by { fin_is::<T, 1, Sign>(24, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sin>(z, n) == bfin::<T>(25, z, n) by { fin_is::<T, 1, Sin>(25, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sinh>(z, n) == bfin::<T>(26, z, n) by { fin_is::<T, 1, Sinh>(26, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sqrt>(z, n) == bfin::<T>(27, z, n) by { fin_is::<T, 1, Sqrt>(27, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tan>(z, n) == bfin::<T>(28, z, n) by { fin_is::<T, 1, Tan>(28, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tanh>(z, n) == bfin::<T>(29, z, n) by { fin_is::<T, 1, Tanh>(29, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Add>(z, n) == bfin::<T>(30, z, n) by { fin_is::<T, 2, Add>(30, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Atan2>(z, n) == bfin::<T>(31, z, n) by { fin_is::<T, 2, Atan2>(31, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Div>(z, n) == bfin::<T>(32, z, n) by { fin_is::<T, 2, Div>(32, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Max>(z, n) == bfin::<T>(33, z, n) by { fin_is::<T, 2, Max>(33, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Min>(z, n) == bfin::<T>(34, z, n) by { fin_is::<T, 2, Min>(34, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Mul>(z, n) == bfin::<T>(35, z, n) by { fin_is::<T, 2, Mul>(35, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Pow>(z, n) == bfin::<T>(36, z, n) by { fin_is::<T, 2, Pow>(36, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Sub>(z, n) == bfin::<T>(37, z, n) by { fin_is::<T, 2, Sub>(37, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Clamp>(z, n) == bfin::<T>(38, z, n) by { fin_is::<T, 3, Clamp>(38, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Fma>(z, n) == bfin::<T>(39, z, n) by { fin_is::<T, 3, Fma>(39, z, n); }
}
=== fn @dynamic_expressions BuiltinOpsF64@OperatorSet::diff
--- opt free
--- rename diff_x
--- subst fn diff_x( => fn diff_set_b<T: RingFloat>(
--- subst f64 => T
--- ret r
--- spec
requires
    tagF64(op) >= 0, ctx.args@.len() == op.arity, ctx.dargs@.len() == op.arity, old(ctx.out_der)@.len() == old(ctx.out_val)@.len(),
    forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.args@[j], old(ctx.out_val)@.len() as int),
    forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.dargs@[j], old(ctx.out_val)@.len() as int),
    forall|j: int| 0 <= j < op.arity ==> (#[trigger] ctx.dargs@[j] is Slice ==> ctx.args@[j] is Slice),
ensures
    final(ctx.out_val)@.len() == old(ctx.out_val)@.len(), final(ctx.out_der)@.len() == old(ctx.out_val)@.len(),
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out_val)@.len() ==> #[trigger] final(ctx.out_val)@[row] == bev(tagF64(op), row_of(ctx.args@, row)),
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out_val)@.len() ==> #[trigger] final(ctx.out_der)@[row] == bchain(tagF64(op), row_of(ctx.args@, row), row_of(ctx.dargs@, row), op.arity as int),
    !ctx.opts.check_finite ==> r,
    ctx.opts.check_finite && r ==> bfin(tagF64(op), ctx.args@, final(ctx.out_val)@.len() as int),
    ctx.opts.check_finite && op.arity <= 2 ==> (r <==> bfin(tagF64(op), ctx.args@, final(ctx.out_val)@.len() as int)),
--- entry
proof {
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs>(z, n) == bfin::<T>(0, z, n) by { fin_is::<T, 1, Abs>(0, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs2>(z, n) == bfin::<T>(1, z, n) by { fin_is::<T, 1, Abs2>(1, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acos>(z, n) == bfin::<T>(2, z, n) by { fin_is::<T, 1, Acos>(2, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acosh>(z, n) == bfin::<T>(3, z, n) by { fin_is::<T, 1, Acosh>(3, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asin>(z, n) == bfin::<T>(4, z, n) by { fin_is::<T, 1, Asin>(4, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asinh>(z, n) == bfin::<T>(5, z, n) by { fin_is::<T, 1, Asinh>(5, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atan>(z, n) == bfin::<T>(6, z, n) by { fin_is::<T, 1, Atan>(6, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atanh>(z, n) == bfin::<T>(7, z, n) by { fin_is::<T, 1, Atanh>(7, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cbrt>(z, n) == bfin::<T>(8, z, n) by { fin_is::<T, 1, Cbrt>(8, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cos>(z, n) == bfin::<T>(9, z, n) by { fin_is::<T, 1, Cos>(9, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cosh>(z, n) == bfin::<T>(10, z, n) by { fin_is::<T, 1, Cosh>(10, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cot>(z, n) == bfin::<T>(11, z, n) by { fin_is::<T, 1, Cot>(11, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Csc>(z, n) == bfin::<T>(12, z, n) by { fin_is::<T, 1, Csc>(12, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp>(z, n) == bfin::<T>(13, z, n) by { fin_is::<T, 1, Exp>(13, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp2>(z, n) == bfin::<T>(14, z, n) by { fin_is::<T, 1, Exp2>(14, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Expm1>(z, n) == bfin::<T>(15, z, n) by { fin_is::<T, 1, Expm1>(15, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Identity>(z, n) == bfin::<T>(16, z, n) by { fin_is::<T, 1, Identity>(16, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Inv>(z, n) == bfin::<T>(17, z, n) by { fin_is::<T, 1, Inv>(17, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log>(z, n) == bfin::<T>(18, z, n) by { fin_is::<T, 1, Log>(18, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log1p>(z, n) == bfin::<T>(19, z, n) by { fin_is::<T, 1, Log1p>(19, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log2>(z, n) == bfin::<T>(20, z, n) by { fin_is::<T, 1, Log2>(20, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log10>(z, n) == bfin::<T>(21, z, n) by { fin_is::<T, 1, Log10>(21, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Neg>(z, n) == bfin::<T>(22, z, n) by { fin_is::<T, 1, Neg>(22, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sec>(z, n) == bfin::<T>(23, z, n) by { fin_is::<T, 1, Sec>(23, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sign>(z, n) == bfin::<T>(24, z, n) by { fin_is::<T, 1, Sign>(24, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sin>(z, n) == bfin::<T>(25, z, n) by { fin_is::<T, 1, Sin>(25, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sinh>(z, n) == bfin::<T>(26, z, n) by { fin_is::<T, 1, Sinh>(26, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sqrt>(z, n) == bfin::<T>(27, z, n) by { fin_is::<T, 1, Sqrt>(27, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tan>(z, n) == bfin::<T>(28, z, n) by { fin_is::<T, 1, Tan>(28, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tanh>(z, n) == bfin::<T>(29, z, n) by { fin_is::<T, 1, Tanh>(29, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Add>(z, n) == bfin::<T>(30, z, n) by { fin_is::<T, 2, Add>(30, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Atan2>(z, n) == bfin::<T>(31, z, n) by { fin_is::<T, 2, Atan2>(31, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Div>(z, n) == bfin::<T>(32, z, n) by { fin_is::<T, 2, Div>(32, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Max>(z, n) == bfin::<T>(33, z, n) by { fin_is::<T, 2, Max>(33, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Min>(z, n) == bfin::<T>(34, z, n) by { fin_is::<T, 2, Min>(34, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Mul>(z, n) == bfin::<T>(35, z, n) by { fin_is::<T, 2, Mul>(35, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Pow>(z, n) == bfin::<T>(36, z, n) by { fin_is::<T, 2, Pow>(36, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Sub>(z, n) == bfin::<T>(37, z, n) by { fin_is::<T, 2, Sub>(37, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Clamp>(z, n) == bfin::<T>(38, z, n) by { fin_is::<T, 3, Clamp>(38, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Fma>(z, n) == bfin::<T>(39, z, n) by { fin_is::<T, 3, Fma>(39, z, n); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs>(v, d, m) == bchain::<T>(0, v, d, m) by { chain_is::<T, 1, Abs>(0, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs2>(v, d, m) == bchain::<T>(1, v, d, m) by { chain_is::<T, 1, Abs2>(1, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acos>(v, d, m) == bchain::<T>(2, v, d, m) by { chain_is::<T, 1, Acos>(2, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acosh>(v, d, m) == bchain::<T>(3, v, d, m) by { chain_is::<T, 1, Acosh>(3, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asin>(v, d, m) == bchain::<T>(4, v, d, m) by { chain_is::<T, 1, Asin>(4, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asinh>(v, d, m) == bchain::<T>(5, v, d, m) by { chain_is::<T, 1, Asinh>(5, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atan>(v, d, m) == bchain::<T>(6, v, d, m) by { chain_is::<T, 1, Atan>(6, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atanh>(v, d, m) == bchain::<T>(7, v, d, m) by { chain_is::<T, 1, Atanh>(7, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cbrt>(v, d, m) == bchain::<T>(8, v, d, m) by { chain_is::<T, 1, Cbrt>(8, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cos>(v, d, m) == bchain::<T>(9, v, d, m) by { chain_is::<T, 1, Cos>(9, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cosh>(v, d, m) == bchain::<T>(10, v, d, m) by { chain_is::<T, 1, Cosh>(10, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cot>(v, d, m) == bchain::<T>(11, v, d, m) by { chain_is::<T, 1, Cot>(11, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Csc>(v, d, m) == bchain::<T>(12, v, d, m) by { chain_is::<T, 1, Csc>(12, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp>(v, d, m) == bchain::<T>(13, v, d, m) by { chain_is::<T, 1, Exp>(13, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp2>(v, d, m) == bchain::<T>(14, v, d, m) by { chain_is::<T, 1, Exp2>(14, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Expm1>(v, d, m) == bchain::<T>(15, v, d, m) by { chain_is::<T, 1, Expm1>(15, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Identity>(v, d, m) == bchain::<T>(16, v, d, m) by { chain_is::<T, 1, Identity>(16, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Inv>(v, d, m) == bchain::<T>(17, v, d, m) by { chain_is::<T, 1, Inv>(17, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log>(v, d, m) == bchain::<T>(18, v, d, m) by { chain_is::<T, 1, Log>(18, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log1p>(v, d, m) == bchain::<T>(19, v, d, m) by { chain_is::<T, 1, Log1p>(19, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log2>(v, d, m) == bchain::<T>(20, v, d, m) by { chain_is::<T, 1, Log2>(20, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log10>(v, d, m) == bchain::<T>(21, v, d, m) by { chain_is::<T, 1, Log10>(21, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Neg>(v, d, m) == bchain::<T>(22, v, d, m) by { chain_is::<T, 1, Neg>(22, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sec>(v, d, m) == bchain::<T>(23, v, d, m) by { chain_is::<T, 1, Sec>(23, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sign>(v, d, m) == bchain::<T>(24, v, d, m) by { chain_is::<T, 1, Sign>(24, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sin>(v, d, m) == bchain::<T>(25, v, d, m) by { chain_is::<T, 1, Sin>(25, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sinh>(v, d, m) == bchain::<T>(26, v, d, m) by { chain_is::<T, 1, Sinh>(26, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sqrt>(v, d, m) == bchain::<T>(27, v, d, m) by { chain_is::<T, 1, Sqrt>(27, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tan>(v, d, m) == bchain::<T>(28, v, d, m) by { chain_is::<T, 1, Tan>(28, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tanh>(v, d, m) == bchain::<T>(29, v, d, m) by { chain_is::<T, 1, Tanh>(29, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Add>(v, d, m) == bchain::<T>(30, v, d, m) by { chain_is::<T, 2, Add>(30, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Atan2>(v, d, m) == bchain::<T>(31, v, d, m) by { chain_is::<T, 2, Atan2>(31, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Div>(v, d, m) == bchain::<T>(32, v, d, m) by { chain_is::<T, 2, Div>(32, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Max>(v, d, m) == bchain::<T>(33, v, d, m) by { chain_is::<T, 2, Max>(33, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Min>(v, d, m) == bchain::<T>(34, v, d, m) by { chain_is::<T, 2, Min>(34, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Mul>(v, d, m) == bchain::<T>(35, v, d, m) by { chain_is::<T, 2, Mul>(35, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Pow>(v, d, m) == bchain::<T>(36, v, d, m) by { chain_is::<T, 2, Pow>(36, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Sub>(v, d, m) == bchain::<T>(37, v, d, m) by { chain_is::<T, 2, Sub>(37, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Clamp>(v, d, m) == bchain::<T>(38, v, d, m) by { chain_is::<T, 3, Clamp>(38, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Fma>(v, d, m) == bchain::<T>(39, v, d, m) by { chain_is::<T, 3, Fma>(39, v, d, m); }
}
=== fn @dynamic_expressions BuiltinOpsF64@OperatorSet::grad
--- opt free
--- rename grad_x
--- subst fn grad_x( => fn grad_set_b<T: RingFloat>(
--- subst f64 => T
--- ret r
--- spec
requires
    tagF64(op) >= 0, ctx.args@.len() == op.arity, ctx.arg_grads@.len() == op.arity,
    old(ctx.out_val)@.len() == ctx.n_rows, old(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
    forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.args@[j], ctx.n_rows as int),
    forall|j: int| 0 <= j < op.arity ==> gref_ok(#[trigger] ctx.arg_grads@[j], ctx.n_dir as int, ctx.n_rows as int),
    forall|j: int| 0 <= j < op.arity ==> (#[trigger] ctx.arg_grads@[j] is Slice ==> ctx.args@[j] is Slice),
ensures
    final(ctx.out_val)@.len() == ctx.n_rows, final(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < ctx.n_rows ==> #[trigger] final(ctx.out_val)@[row] == bev(tagF64(op), row_of(ctx.args@, row)),
    r || !ctx.opts.early_exit ==> forall|dir: int, row: int| 0 <= dir < ctx.n_dir && 0 <= row < ctx.n_rows ==>
        final(ctx.out_grad)@[#[trigger] at(dir, row, ctx.n_rows as int)] == bchain(tagF64(op), row_of(ctx.args@, row), grow(ctx.arg_grads@, dir, row, ctx.n_rows as int), op.arity as int),
    !ctx.opts.check_finite ==> r,
    ctx.opts.check_finite ==> (r <==> bfin(tagF64(op), ctx.args@, ctx.n_rows as int)),
--- entry
proof {
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs>(z, n) == bfin::<T>(0, z, n) by { fin_is::<T, 1, Abs>(0, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Abs2>(z, n) == bfin::<T>(1, z, n) by { fin_is::<T, 1, Abs2>(1, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acos>(z, n) == bfin::<T>(2, z, n) by { fin_is::<T, 1, Acos>(2, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Acosh>(z, n) == bfin::<T>(3, z, n) by { fin_is::<T, 1, Acosh>(3, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asin>(z, n) == bfin::<T>(4, z, n) by { fin_is::<T, 1, Asin>(4, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Asinh>(z, n) == bfin::<T>(5, z, n) by { fin_is::<T, 1, Asinh>(5, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atan>(z, n) == bfin::<T>(6, z, n) by { fin_is::<T, 1, Atan>(6, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Atanh>(z, n) == bfin::<T>(7, z, n) by { fin_is::<T, 1, Atanh>(7, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cbrt>(z, n) == bfin::<T>(8, z, n) by { fin_is::<T, 1, Cbrt>(8, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cos>(z, n) == bfin::<T>(9, z, n) by { fin_is::<T, 1, Cos>(9, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cosh>(z, n) == bfin::<T>(10, z, n) by { fin_is::<T, 1, Cosh>(10, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Cot>(z, n) == bfin::<T>(11, z, n) by { fin_is::<T, 1, Cot>(11, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Csc>(z, n) == bfin::<T>(12, z, n) by { fin_is::<T, 1, Csc>(12, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp>(z, n) == bfin::<T>(13, z, n) by { fin_is::<T, 1, Exp>(13, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Exp2>(z, n) == bfin::<T>(14, z, n) by { fin_is::<T, 1, Exp2>(14, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Expm1>(z, n) == bfin::<T>(15, z, n) by { fin_is::<T, 1, Expm1>(15, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Identity>(z, n) == bfin::<T>(16, z, n) by { fin_is::<T, 1, Identity>(16, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Inv>(z, n) == bfin::<T>(17, z, n) by { fin_is::<T, 1, Inv>(17, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log>(z, n) == bfin::<T>(18, z, n) by { fin_is::<T, 1, Log>(18, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log1p>(z, n) == bfin::<T>(19, z, n) by { fin_is::<T, 1, Log1p>(19, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log2>(z, n) == bfin::<T>(20, z, n) by { fin_is::<T, 1, Log2>(20, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Log10>(z, n) == bfin::<T>(21, z, n) by { fin_is::<T, 1, Log10>(21, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Neg>(z, n) == bfin::<T>(22, z, n) by { fin_is::<T, 1, Neg>(22, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sec>(z, n) == bfin::<T>(23, z, n) by { fin_is::<T, 1, Sec>(23, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sign>(z, n) == bfin::<T>(24, z, n) by { fin_is::<T, 1, Sign>(24, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sin>(z, n) == bfin::<T>(25, z, n) by { fin_is::<T, 1, Sin>(25, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sinh>(z, n) == bfin::<T>(26, z, n) by { fin_is::<T, 1, Sinh>(26, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Sqrt>(z, n) == bfin::<T>(27, z, n) by { fin_is::<T, 1, Sqrt>(27, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tan>(z, n) == bfin::<T>(28, z, n) by { fin_is::<T, 1, Tan>(28, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<1, T, Tanh>(z, n) == bfin::<T>(29, z, n) by { fin_is::<T, 1, Tanh>(29, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Add>(z, n) == bfin::<T>(30, z, n) by { fin_is::<T, 2, Add>(30, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Atan2>(z, n) == bfin::<T>(31, z, n) by { fin_is::<T, 2, Atan2>(31, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Div>(z, n) == bfin::<T>(32, z, n) by { fin_is::<T, 2, Div>(32, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Max>(z, n) == bfin::<T>(33, z, n) by { fin_is::<T, 2, Max>(33, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Min>(z, n) == bfin::<T>(34, z, n) by { fin_is::<T, 2, Min>(34, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Mul>(z, n) == bfin::<T>(35, z, n) by { fin_is::<T, 2, Mul>(35, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Pow>(z, n) == bfin::<T>(36, z, n) by { fin_is::<T, 2, Pow>(36, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<2, T, Sub>(z, n) == bfin::<T>(37, z, n) by { fin_is::<T, 2, Sub>(37, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Clamp>(z, n) == bfin::<T>(38, z, n) by { fin_is::<T, 3, Clamp>(38, z, n); }
    assert forall|z: Seq<SrcRef<'_, T>>, n: int| #[trigger] op_fin::<3, T, Fma>(z, n) == bfin::<T>(39, z, n) by { fin_is::<T, 3, Fma>(39, z, n); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs>(v, d, m) == bchain::<T>(0, v, d, m) by { chain_is::<T, 1, Abs>(0, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Abs2>(v, d, m) == bchain::<T>(1, v, d, m) by { chain_is::<T, 1, Abs2>(1, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acos>(v, d, m) == bchain::<T>(2, v, d, m) by { chain_is::<T, 1, Acos>(2, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Acosh>(v, d, m) == bchain::<T>(3, v, d, m) by { chain_is::<T, 1, Acosh>(3, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asin>(v, d, m) == bchain::<T>(4, v, d, m) by { chain_is::<T, 1, Asin>(4, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Asinh>(v, d, m) == bchain::<T>(5, v, d, m) by { chain_is::<T, 1, Asinh>(5, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atan>(v, d, m) == bchain::<T>(6, v, d, m) by { chain_is::<T, 1, Atan>(6, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Atanh>(v, d, m) == bchain::<T>(7, v, d, m) by { chain_is::<T, 1, Atanh>(7, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cbrt>(v, d, m) == bchain::<T>(8, v, d, m) by { chain_is::<T, 1, Cbrt>(8, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cos>(v, d, m) == bchain::<T>(9, v, d, m) by { chain_is::<T, 1, Cos>(9, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cosh>(v, d, m) == bchain::<T>(10, v, d, m) by { chain_is::<T, 1, Cosh>(10, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Cot>(v, d, m) == bchain::<T>(11, v, d, m) by { chain_is::<T, 1, Cot>(11, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Csc>(v, d, m) == bchain::<T>(12, v, d, m) by { chain_is::<T, 1, Csc>(12, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp>(v, d, m) == bchain::<T>(13, v, d, m) by { chain_is::<T, 1, Exp>(13, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Exp2>(v, d, m) == bchain::<T>(14, v, d, m) by { chain_is::<T, 1, Exp2>(14, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Expm1>(v, d, m) == bchain::<T>(15, v, d, m) by { chain_is::<T, 1, Expm1>(15, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Identity>(v, d, m) == bchain::<T>(16, v, d, m) by { chain_is::<T, 1, Identity>(16, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Inv>(v, d, m) == bchain::<T>(17, v, d, m) by { chain_is::<T, 1, Inv>(17, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log>(v, d, m) == bchain::<T>(18, v, d, m) by { chain_is::<T, 1, Log>(18, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log1p>(v, d, m) == bchain::<T>(19, v, d, m) by { chain_is::<T, 1, Log1p>(19, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log2>(v, d, m) == bchain::<T>(20, v, d, m) by { chain_is::<T, 1, Log2>(20, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Log10>(v, d, m) == bchain::<T>(21, v, d, m) by { chain_is::<T, 1, Log10>(21, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Neg>(v, d, m) == bchain::<T>(22, v, d, m) by { chain_is::<T, 1, Neg>(22, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sec>(v, d, m) == bchain::<T>(23, v, d, m) by { chain_is::<T, 1, Sec>(23, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sign>(v, d, m) == bchain::<T>(24, v, d, m) by { chain_is::<T, 1, Sign>(24, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sin>(v, d, m) == bchain::<T>(25, v, d, m) by { chain_is::<T, 1, Sin>(25, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sinh>(v, d, m) == bchain::<T>(26, v, d, m) by { chain_is::<T, 1, Sinh>(26, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Sqrt>(v, d, m) == bchain::<T>(27, v, d, m) by { chain_is::<T, 1, Sqrt>(27, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tan>(v, d, m) == bchain::<T>(28, v, d, m) by { chain_is::<T, 1, Tan>(28, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 1, Tanh>(v, d, m) == bchain::<T>(29, v, d, m) by { chain_is::<T, 1, Tanh>(29, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Add>(v, d, m) == bchain::<T>(30, v, d, m) by { chain_is::<T, 2, Add>(30, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Atan2>(v, d, m) == bchain::<T>(31, v, d, m) by { chain_is::<T, 2, Atan2>(31, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Div>(v, d, m) == bchain::<T>(32, v, d, m) by { chain_is::<T, 2, Div>(32, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Max>(v, d, m) == bchain::<T>(33, v, d, m) by { chain_is::<T, 2, Max>(33, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Min>(v, d, m) == bchain::<T>(34, v, d, m) by { chain_is::<T, 2, Min>(34, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Mul>(v, d, m) == bchain::<T>(35, v, d, m) by { chain_is::<T, 2, Mul>(35, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Pow>(v, d, m) == bchain::<T>(36, v, d, m) by { chain_is::<T, 2, Pow>(36, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 2, Sub>(v, d, m) == bchain::<T>(37, v, d, m) by { chain_is::<T, 2, Sub>(37, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Clamp>(v, d, m) == bchain::<T>(38, v, d, m) by { chain_is::<T, 3, Clamp>(38, v, d, m); }
    assert forall|v: Seq<T>, d: Seq<T>, m: int| #[trigger] chain::<T, 3, Fma>(v, d, m) == bchain::<T>(39, v, d, m) by { chain_is::<T, 3, Fma>(39, v, d, m); }
}
