=== raw
// ---- T as the real numbers: rounding, overflow and NaN are left out (stated in DESIGN.md); everything else is exact ----
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fx { x: f64 }
/// the decimal literal n/d of the source
pub uninterp spec fn fx_num(x: Fx) -> real;
impl Fx {
    #[verifier::external_body]
    pub fn lit(n: u64, d: u64) -> (r: Fx) requires d > 0 ensures fx_num(r) * (d as real) == n as real { unimplemented!() }
}
pub trait VxNum: Sized { spec fn num(self) -> real; }
impl VxNum for Fx { open spec fn num(self) -> real { fx_num(self) } }
impl VxNum for usize { open spec fn num(self) -> real { self as real } }
pub uninterp spec fn rsqrt(x: real) -> real;
pub uninterp spec fn rpow(x: real, p: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rcosh(x: real) -> real;
pub uninterp spec fn rtanh(x: real) -> real;
pub uninterp spec fn rsinh(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rasin(x: real) -> real;
pub uninterp spec fn racos(x: real) -> real;
pub uninterp spec fn ratan(x: real) -> real;
pub uninterp spec fn ratan2(y: real, x: real) -> real;
pub uninterp spec fn rasinh(x: real) -> real;
pub uninterp spec fn racosh(x: real) -> real;
pub uninterp spec fn ratanh(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rcbrt(x: real) -> real;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
#[verifier::external_body]
pub proof fn sqrt_law(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x, x == 0real ==> rsqrt(x) == 0real { }
pub trait Float: Copy + PartialOrd + PartialOrdSpec + PartialEq + PartialEqSpec + core::ops::Add<Output = Self> + core::ops::Mul<Output = Self> + core::ops::Sub<Output = Self> + core::ops::Div<Output = Self> + core::ops::Neg<Output = Self>
    + AddSpec<Self> + MulSpec<Self> + SubSpec<Self> + DivSpec<Self> + NegSpec {
    spec fn r(self) -> real;
    proof fn laws()
        ensures
            Self::obeys_partial_cmp_spec(), Self::obeys_eq_spec(),
            forall|a: Self, b: Self| #[trigger] a.partial_cmp_spec(&b) == (if a.r() < b.r() { Some(Ordering::Less) } else if a.r() > b.r() { Some(Ordering::Greater) } else { Some(Ordering::Equal) }),
            forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == (a.r() == b.r()),
            Self::obeys_add_spec(), Self::obeys_mul_spec(), Self::obeys_sub_spec(), Self::obeys_div_spec(), Self::obeys_neg_spec(),
            forall|a: Self, b: Self| #[trigger] a.add_req(b),
            forall|a: Self, b: Self| #[trigger] a.mul_req(b),
            forall|a: Self, b: Self| #[trigger] a.sub_req(b),
            forall|a: Self, b: Self| #[trigger] a.div_req(b),
            forall|a: Self| #[trigger] a.neg_req(),
            forall|a: Self, b: Self| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
            forall|a: Self, b: Self| (#[trigger] a.sub_spec(b)).r() == a.r() - b.r(),
            forall|a: Self, b: Self| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
            forall|a: Self, b: Self| b.r() != 0real ==> (#[trigger] a.div_spec(b)).r() == a.r() / b.r(),
            forall|a: Self| (#[trigger] a.neg_spec()).r() == -a.r();
    fn zero() -> (r: Self) ensures r.r() == 0real;
    fn one() -> (r: Self) ensures r.r() == 1real;
    fn is_finite(self) -> (r: bool) ensures r;
    fn is_zero(self) -> (r: bool) ensures r == (self.r() == 0real);
    fn abs(self) -> (r: Self) ensures r.r() == rabs(self.r());
    fn sqrt(self) -> (r: Self) ensures self.r() >= 0real ==> r.r() == rsqrt(self.r());
    fn recip(self) -> (r: Self) ensures self.r() != 0real ==> r.r() == 1real / self.r();
    fn powf(self, p: Self) -> (r: Self) ensures r.r() == rpow(self.r(), p.r());
    fn powi(self, p: i32) -> (r: Self) ensures p == 2 ==> r.r() == self.r() * self.r();
    fn cosh(self) -> (r: Self) ensures r.r() == rcosh(self.r());
    fn ln(self) -> (r: Self) ensures r.r() == rln(self.r());
    fn tanh(self) -> (r: Self) ensures r.r() == rtanh(self.r());
    fn signum(self) -> (r: Self) ensures self.r() != 0real ==> r.r() == (if self.r() < 0real { -1real } else { 1real });
    fn max(self, o: Self) -> (r: Self) ensures r.r() == (if self.r() < o.r() { o.r() } else { self.r() });
    fn min(self, o: Self) -> (r: Self) ensures r.r() == (if self.r() < o.r() { self.r() } else { o.r() });
    fn sin(self) -> (r: Self) ensures r.r() == rsin(self.r());
    fn cos(self) -> (r: Self) ensures r.r() == rcos(self.r());
    fn tan(self) -> (r: Self) ensures rcos(self.r()) != 0real ==> r.r() == rsin(self.r()) / rcos(self.r());
    fn asin(self) -> (r: Self) ensures -1real <= self.r() <= 1real ==> r.r() == rasin(self.r());
    fn acos(self) -> (r: Self) ensures -1real <= self.r() <= 1real ==> r.r() == racos(self.r());
    fn atan(self) -> (r: Self) ensures r.r() == ratan(self.r());
    fn atan2(self, x: Self) -> (r: Self) ensures self.r() != 0real || x.r() != 0real ==> r.r() == ratan2(self.r(), x.r());
    fn sinh(self) -> (r: Self) ensures r.r() == rsinh(self.r());
    fn asinh(self) -> (r: Self) ensures r.r() == rasinh(self.r());
    fn acosh(self) -> (r: Self) ensures self.r() >= 1real ==> r.r() == racosh(self.r());
    fn atanh(self) -> (r: Self) ensures -1real < self.r() < 1real ==> r.r() == ratanh(self.r());
    fn exp(self) -> (r: Self) ensures r.r() == rexp(self.r());
    fn exp2(self) -> (r: Self) ensures r.r() == rexp(self.r() * rln(2real));
    fn exp_m1(self) -> (r: Self) ensures r.r() == rexp(self.r()) - 1real;
    fn log2(self) -> (r: Self) ensures self.r() > 0real ==> r.r() == rln(self.r()) / rln(2real);
    fn log10(self) -> (r: Self) ensures self.r() > 0real ==> r.r() == rln(self.r()) / rln(10real);
    fn ln_1p(self) -> (r: Self) ensures self.r() > -1real ==> r.r() == rln(1real + self.r());
    fn cbrt(self) -> (r: Self) ensures r.r() == rcbrt(self.r());
    fn mul_add(self, a: Self, b: Self) -> (r: Self) ensures r.r() == self.r() * a.r() + b.r();
    fn clamp(self, lo: Self, hi: Self) -> (r: Self) requires lo.r() <= hi.r() ensures r.r() == (if self.r() < lo.r() { lo.r() } else if self.r() > hi.r() { hi.r() } else { self.r() });
    fn is_nan(self) -> (r: bool) ensures !r;
    fn from<N: VxNum>(n: N) -> (r: Option<Self>) ensures r is Some && r->0.r() == n.num();
}
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| v);
/// d is the derivative of f at x, with a quadratic error bound near x
pub open spec fn err(f: spec_fn(real) -> real, x: real, d: real, h: real) -> real { f(x + h) - f(x) - h * d }
pub open spec fn near(f: spec_fn(real) -> real, x: real, d: real, c: real, delta: real) -> bool {
    delta > 0real && forall|h: real| -delta < h < delta ==> rabs(#[trigger] err(f, x, d, h)) <= c * (h * h)
}
pub open spec fn is_deriv(f: spec_fn(real) -> real, x: real, d: real) -> bool {
    exists|c: real, delta: real| near(f, x, d, c, delta)
}
pub open spec fn reals<T: Float>(s: Seq<T>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].r()) }
pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
