=== raw
// ---- the source's f64 as the real numbers with one infinity and NaN: rounding and overflow are left out (stated in DESIGN.md) ----
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Mul, Sub, Div};
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fx { x: f64 }
pub enum Kind { Number, Infinite, Nan }
pub uninterp spec fn rsqrt(x: real) -> real;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
#[verifier::external_body]
pub proof fn sqrt_law(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x, (x == 0real) == (rsqrt(x) == 0real) { }
pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
pub uninterp spec fn real_fx(x: real) -> Fx;
impl Fx {
    pub uninterp spec fn r(self) -> real;
    pub uninterp spec fn kind(self) -> Kind;
    pub open spec fn num(self) -> bool { self.kind() is Number }
    pub uninterp spec fn s_add(self, o: Fx) -> Fx;
    pub uninterp spec fn s_sub(self, o: Fx) -> Fx;
    pub uninterp spec fn s_mul(self, o: Fx) -> Fx;
    pub uninterp spec fn s_div(self, o: Fx) -> Fx;
    #[verifier::external_body]
    pub fn lit(n: u64, d: u64) -> (r: Fx) requires d > 0 ensures r.num(), r.r() * (d as real) == n as real { unimplemented!() }
    #[verifier::external_body]
    pub fn infinity() -> (r: Fx) ensures r.kind() is Infinite { unimplemented!() }
    #[verifier::external_body]
    pub fn nan() -> (r: Fx) ensures r.kind() is Nan { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.num() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == (self.kind() is Nan) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: Fx) ensures self.num() ==> r.num() && r.r() == rabs(self.r()) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: Fx) ensures self.num() && self.r() >= 0real ==> r.num() && r.r() == rsqrt(self.r()) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Fx) -> (r: Fx) ensures self.num() && o.num() ==> r.num() && r.r() == (if self.r() < o.r() { o.r() } else { self.r() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Fx) -> (r: Fx) ensures self.num() && o.num() ==> r.num() && r.r() == (if self.r() < o.r() { self.r() } else { o.r() }), self.kind() is Infinite && o.num() ==> r == o { unimplemented!() }
    /// no contract: any value
    #[verifier::external_body]
    pub fn powf(self, o: Fx) -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn powi(self, o: i32) -> (r: Fx) ensures self.num() && o == 2 ==> r.num() && r.r() == self.r() * self.r() { unimplemented!() }
}
#[verifier::external_body]
pub proof fn num_laws()
    ensures
        forall|a: Fx, b: Fx| a.num() && b.num() ==> (#[trigger] a.s_add(b)).num() && a.s_add(b).r() == a.r() + b.r(),
        forall|a: Fx, b: Fx| a.num() && b.num() ==> (#[trigger] a.s_sub(b)).num() && a.s_sub(b).r() == a.r() - b.r(),
        forall|a: Fx, b: Fx| a.num() && b.num() ==> (#[trigger] a.s_mul(b)).num() && a.s_mul(b).r() == a.r() * b.r(),
        forall|a: Fx, b: Fx| a.num() && b.num() && b.r() != 0real ==> (#[trigger] a.s_div(b)).num() && a.s_div(b).r() == a.r() / b.r(),
{ }
impl AddSpecImpl<Fx> for Fx { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fx) -> bool { true } open spec fn add_spec(self, o: Fx) -> Fx { self.s_add(o) } }
impl Add<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn add(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl SubSpecImpl<Fx> for Fx { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Fx) -> bool { true } open spec fn sub_spec(self, o: Fx) -> Fx { self.s_sub(o) } }
impl Sub<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn sub(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl MulSpecImpl<Fx> for Fx { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fx) -> bool { true } open spec fn mul_spec(self, o: Fx) -> Fx { self.s_mul(o) } }
impl Mul<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn mul(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl DivSpecImpl<Fx> for Fx { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Fx) -> bool { true } open spec fn div_spec(self, o: Fx) -> Fx { self.s_div(o) } }
impl Div<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn div(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl PartialEqSpecImpl for Fx { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fx) -> bool { !(self.kind() is Nan) && self.kind() == o.kind() && (self.num() ==> self.r() == o.r()) } }
impl PartialEq for Fx { #[verifier::external_body] fn eq(&self, o: &Fx) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Fx {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fx) -> Option<Ordering> {
        match (self.kind(), o.kind()) {
            (Kind::Number, Kind::Number) => if self.r() < o.r() { Some(Ordering::Less) } else if self.r() > o.r() { Some(Ordering::Greater) } else { Some(Ordering::Equal) },
            (Kind::Number, Kind::Infinite) => Some(Ordering::Less), (Kind::Infinite, Kind::Number) => Some(Ordering::Greater), (Kind::Infinite, Kind::Infinite) => Some(Ordering::Equal),
            _ => None,
        }
    }
}
impl PartialOrd for Fx { #[verifier::external_body] fn partial_cmp(&self, o: &Fx) -> (r: Option<Ordering>) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fx(n: usize) -> (r: Fx) ensures r.num(), r.r() == n as real { unimplemented!() }
pub trait Float: Copy { spec fn real(self) -> real; }
impl Float for Fx { open spec fn real(self) -> real { self.r() } }
pub open spec fn reals<T: Float>(s: Seq<T>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].real()) }
