=== raw
// Idealised arithmetic used only for derivatives: 0 absorbs and is neutral (machine floats violate this for NaN/inf partials
// and for the sign of zero; stated as an assumption in the evidence).
pub trait RingFloat: Float {
    proof fn ring_laws()
        ensures
            forall|a: Self| #[trigger] a.mul_spec(Self::s_zero()) == Self::s_zero(),
            forall|a: Self| #[trigger] Self::s_zero().add_spec(a) == a;
}
pub open spec fn chain<T: Float, const A: usize, Op: Operator<T, A>>(vals: Seq<T>, ds: Seq<T>, k: int) -> T
    decreases k,
{
    if k <= 0 { T::s_zero() } else { chain::<T, A, Op>(vals, ds, k - 1).add_spec(Op::pa(vals, k - 1).mul_spec(ds[k - 1])) }
}
/// value of a gradient reference in one direction
pub open spec fn gref<T: Float>(g: GradRef<'_, T>, dir: int, row: int, n: int) -> T {
    match g {
        GradRef::Slice(s) => s@[dir * n + row],
        GradRef::Basis(k) => if dir == k { T::s_one() } else { T::s_zero() },
        GradRef::Zero => T::s_zero(),
    }
}
