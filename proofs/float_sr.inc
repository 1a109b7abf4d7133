=== raw
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use core::ops::{Add, Mul, Sub, Div, Neg};
=== include fx.inc
=== raw
// ---- the scalar type of the search crate: opaque, with the order of IEEE floats ----
pub trait Float: Copy + PartialOrd + PartialOrdSpec + Add<Output = Self> + Mul<Output = Self> + Sub<Output = Self> + Div<Output = Self>
    + AddSpec<Self> + MulSpec<Self> + SubSpec<Self> + DivSpec<Self> {
    spec fn fin(self) -> bool;
    spec fn nan(self) -> bool;
    spec fn s_zero() -> Self;
    spec fn s_one() -> Self;
    spec fn s_inf() -> Self;
    spec fn s_of_f64(x: Fx) -> Self;
    spec fn s_to_f64(self) -> Option<Fx>;
    spec fn s_of_prim(x: Fx) -> Option<Self>;
    /// the order is the order of some real number (or infinity) attached to the value; NaN is unordered
    spec fn key(self) -> real;
    proof fn laws()
        ensures
            Self::obeys_partial_cmp_spec(),
            forall|a: Self, b: Self| #[trigger] a.partial_cmp_spec(&b) == (if a.nan() || b.nan() { None } else if a.key() < b.key() { Some(Ordering::Less) } else if a.key() > b.key() { Some(Ordering::Greater) } else { Some(Ordering::Equal) }),
            forall|a: Self| #[trigger] a.fin() ==> !a.nan(),
            !Self::s_inf().nan(), forall|a: Self| !a.nan() ==> #[trigger] a.key() <= Self::s_inf().key(),
            forall|a: Self| #[trigger] a.fin() ==> a.key() < Self::s_inf().key(),
            forall|a: Self| (#[trigger] a.s_to_f64()) is Some ==> a.nan() == (a.s_to_f64()->0).isnan() && (!a.nan() ==> a.key() == (a.s_to_f64()->0).k()),
            Self::obeys_add_spec(), Self::obeys_mul_spec(), Self::obeys_sub_spec(), Self::obeys_div_spec(),
            forall|a: Self, b: Self| #[trigger] a.add_req(b),
            forall|a: Self, b: Self| #[trigger] a.mul_req(b),
            forall|a: Self, b: Self| #[trigger] a.sub_req(b),
            forall|a: Self, b: Self| #[trigger] a.div_req(b);
    /// a clone of a (Copy) number is that number
    proof fn clones()
        ensures forall|a: Self, b: Self| #[trigger] cloned(a, b) ==> a == b;
    /// num_traits::FromPrimitive
    fn from_f64(x: Fx) -> (r: Option<Self>) ensures r == Self::s_of_prim(x);
    fn is_finite(self) -> (r: bool) ensures r == self.fin();
    fn is_nan(self) -> (r: bool) ensures r == self.nan();
    fn zero() -> (r: Self) ensures r == Self::s_zero();
    fn one() -> (r: Self) ensures r == Self::s_one();
    fn to_f64(self) -> (r: Option<Fx>) ensures r == self.s_to_f64();
    fn infinity() -> (r: Self) ensures r == Self::s_inf();
    /// num_traits' conversion from f64 to a float type always yields a value (possibly infinite)
    fn from(x: Fx) -> (r: Option<Self>) ensures r == Some(Self::s_of_f64(x));
}
/// strictly smaller, as numbers
pub open spec fn below<T: Float>(a: T, b: T) -> bool { !a.nan() && !b.nan() && a.key() < b.key() }
