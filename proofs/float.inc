=== raw
// ---- machine floats: an opaque type with uninterpreted, total operations ----
use vstd::std_specs::ops::*;
use core::marker::PhantomData;
pub trait Float: Copy + core::ops::Add<Output = Self> + core::ops::Mul<Output = Self> + core::ops::Sub<Output = Self> + AddSpec<Self> + MulSpec<Self> + SubSpec<Self> {
    spec fn fin(self) -> bool;
    spec fn s_zero() -> Self;
    spec fn s_one() -> Self;
    spec fn s_nan() -> Self;
    proof fn ops_total()
        ensures
            Self::obeys_add_spec(), Self::obeys_mul_spec(), Self::obeys_sub_spec(),
            forall|a: Self, b: Self| #[trigger] a.add_req(b),
            forall|a: Self, b: Self| #[trigger] a.mul_req(b),
            forall|a: Self, b: Self| #[trigger] a.sub_req(b);
    /// a clone of a (Copy) number is that number
    proof fn clones()
        ensures forall|a: Self, b: Self| #[trigger] cloned(a, b) ==> a == b;
    fn is_finite(self) -> (r: bool) ensures r == self.fin();
    fn is_zero(self) -> (r: bool) ensures r == (self == Self::s_zero());
    fn zero() -> (r: Self) ensures r == Self::s_zero();
    fn one() -> (r: Self) ensures r == Self::s_one();
    fn nan() -> (r: Self) ensures r == Self::s_nan();
}
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| v);
// An operator is a function of its argument values (user-supplied code; assumed pure and total).
pub trait Operator<T: Float, const A: usize> {
    spec fn ev(args: Seq<T>) -> T;
    spec fn pa(args: Seq<T>, idx: int) -> T;
    fn eval(args: &[T; A]) -> (r: T) ensures r == Self::ev(args@);
    fn partial(args: &[T; A], idx: usize) -> (r: T) requires idx < A ensures r == Self::pa(args@, idx as int);
}
// [x0, .., x(N-1)] from a vector of exactly N items (the tail of `core::array::from_fn`)
#[verifier::external_body]
pub fn vx_vec_to_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N])
    requires v.len() == N, ensures r@ == v@,
{ unimplemented!() }
=== type dynamic_expressions/src/evaluate.rs EvalOptions
derive Copy, Clone
=== type dynamic_expressions/src/dispatch.rs SrcRef
derive Copy, Clone
=== type dynamic_expressions/src/dispatch.rs GradRef
derive Copy, Clone
=== raw
pub open spec fn sref<T>(s: SrcRef<'_, T>, row: int) -> T {
    match s { SrcRef::Slice(x) => x@[row], SrcRef::Const(c) => c }
}
pub open spec fn sref_ok<T>(s: SrcRef<'_, T>, n: int) -> bool {
    match s { SrcRef::Slice(x) => x@.len() == n, SrcRef::Const(_) => true }
}
pub open spec fn row_of<T>(args: Seq<SrcRef<'_, T>>, row: int) -> Seq<T> { Seq::new(args.len(), |j: int| sref(args[j], row)) }
