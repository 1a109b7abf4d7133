=== raw
// ---- f64 / f32 of the source (the extraction writes both as Fx) ----
// A float is NaN or has a key: its real value when finite, and two reals beyond every finite value for the infinities.
// IEEE-754 round-to-nearest: the key of a result is rnd(exact result) for finite operands.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fx { x: f64 }
pub uninterp spec fn rnd(x: real) -> real;
pub uninterp spec fn fx_max() -> real;   // key of +infinity (2^1024: the first real that rounds to infinity)
pub uninterp spec fn fx_inf() -> Fx;
pub uninterp spec fn fx_lit(n: int, d: int) -> Fx;
pub uninterp spec fn fx_ninf() -> Fx;
pub uninterp spec fn fx_top() -> Fx;     // f64::MAX
pub uninterp spec fn fx_big() -> real;   // the greatest finite value
impl Fx {
    pub uninterp spec fn k(self) -> real;
    pub uninterp spec fn isnan(self) -> bool;
    pub uninterp spec fn s_add(self, o: Fx) -> Fx;
    pub uninterp spec fn s_sub(self, o: Fx) -> Fx;
    pub uninterp spec fn s_mul(self, o: Fx) -> Fx;
    pub uninterp spec fn s_div(self, o: Fx) -> Fx;
    pub uninterp spec fn s_neg(self) -> Fx;
    pub uninterp spec fn s_exp(self) -> Fx;
    pub uninterp spec fn s_floor(self) -> Fx;
    pub open spec fn isfin(self) -> bool { !self.isnan() && -fx_max() < self.k() < fx_max() }
    pub open spec fn s_min(self, o: Fx) -> Fx { if self.isnan() { o } else if o.isnan() { self } else if o.k() < self.k() { o } else { self } }
    pub open spec fn s_max(self, o: Fx) -> Fx { if self.isnan() { o } else if o.isnan() { self } else if o.k() > self.k() { o } else { self } }
}
/// x is the float nearest to the real v
pub open spec fn fx_is(x: Fx, v: real) -> bool { !x.isnan() && x.k() == rnd(v) }
pub open spec fn fx_round(v: real) -> real { if v >= 0real { (v + 1real / 2real).floor() as real } else { -((-v + 1real / 2real).floor() as real) } }
pub open spec fn fx_op(r: Fx, a: Fx, b: Fx, v: real) -> bool { a.isfin() && b.isfin() ==> fx_is(r, v) }
#[verifier::external_body]
pub proof fn fx_laws()
    ensures
        forall|a: real, b: real| a <= b ==> #[trigger] rnd(a) <= #[trigger] rnd(b),
        forall|a: real| -fx_max() <= #[trigger] rnd(a) <= fx_max(),
        fx_max() > 1000000000real,
        forall|x: Fx| #![trigger x.k()] !x.isnan() ==> -fx_max() <= x.k() <= fx_max() && rnd(x.k()) == x.k(),
        rnd(0real) == 0real, rnd(1real) == 1real,
        forall|n: int| -16777216 <= n <= 16777216 ==> #[trigger] rnd(n as real) == n as real,
        !fx_inf().isnan(), fx_inf().k() == fx_max(), !fx_ninf().isnan(), fx_ninf().k() == -fx_max(), !fx_top().isnan(), fx_top().k() == fx_big(),
        forall|a: Fx, b: Fx| #![trigger a.s_add(b)] fx_op(a.s_add(b), a, b, a.k() + b.k()),
        forall|a: Fx, b: Fx| #![trigger a.s_sub(b)] fx_op(a.s_sub(b), a, b, a.k() - b.k()),
        forall|a: Fx, b: Fx| #![trigger a.s_mul(b)] fx_op(a.s_mul(b), a, b, a.k() * b.k()),
        forall|a: Fx, b: Fx| #![trigger a.s_div(b)] b.k() != 0real ==> fx_op(a.s_div(b), a, b, a.k() / b.k()),
        forall|a: Fx, b: Fx| #![trigger a.s_div(b)] a.k() == 0real && b.k() == 0real ==> a.s_div(b).isnan(),
        forall|a: Fx| #![trigger a.s_neg()] a.s_neg().isnan() == a.isnan() && a.s_neg().k() == -a.k(),
        forall|a: Fx| #![trigger a.s_floor()] a.s_floor().isnan() == a.isnan() && (a.isfin() ==> a.s_floor().isfin() && a.s_floor().k() == a.k().floor() as real),
        // a finite step away from an infinity stays there
        forall|a: Fx, b: Fx| #![trigger a.s_add(b)] a.k() == fx_max() && !a.isnan() && b.isfin() ==> !a.s_add(b).isnan() && a.s_add(b).k() == fx_max(),
        forall|a: Fx, b: Fx| #![trigger a.s_sub(b)] a.k() == fx_max() && !a.isnan() && b.isfin() ==> !a.s_sub(b).isnan() && a.s_sub(b).k() == fx_max(),
        fx_lit(0, 1).isfin() && fx_lit(0, 1).k() == 0real, fx_lit(1, 1).isfin() && fx_lit(1, 1).k() == 1real,
        // the finite range; an infinity times a positive finite value; the exponential
        0real < fx_big() < fx_max(), forall|a: Fx| #![trigger a.k()] a.isfin() ==> -fx_big() <= a.k() <= fx_big(),
        forall|a: Fx, b: Fx| #![trigger a.s_mul(b)] !a.isnan() && !a.isfin() && b.isfin() && b.k() > 0real ==> !a.s_mul(b).isnan() && a.s_mul(b).k() == a.k(),
        forall|a: Fx, b: Fx| #![trigger a.s_mul(b)] !b.isnan() && !b.isfin() && a.isfin() && a.k() > 0real ==> !a.s_mul(b).isnan() && a.s_mul(b).k() == b.k(),
        forall|a: Fx| #![trigger a.s_exp()] !a.isnan() ==> !a.s_exp().isnan() && a.s_exp().k() >= 0real && (a.k() >= 0real ==> a.s_exp().k() >= 1real),
        // NaN operands give NaN
        forall|a: Fx, b: Fx| #![trigger a.s_add(b)] a.isnan() || b.isnan() ==> a.s_add(b).isnan(),
        forall|a: Fx, b: Fx| #![trigger a.s_sub(b)] a.isnan() || b.isnan() ==> a.s_sub(b).isnan(),
        forall|a: Fx, b: Fx| #![trigger a.s_mul(b)] a.isnan() || b.isnan() ==> a.s_mul(b).isnan(),
        forall|a: Fx, b: Fx| #![trigger a.s_div(b)] a.isnan() || b.isnan() ==> a.s_div(b).isnan(),
{ }
#[verifier::external_body]
pub proof fn rnd_int(n: int) requires -16777216 <= n <= 16777216 ensures rnd(n as real) == n as real { }
impl AddSpecImpl<Fx> for Fx { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fx) -> bool { true } open spec fn add_spec(self, o: Fx) -> Fx { self.s_add(o) } }
impl Add<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn add(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl SubSpecImpl<Fx> for Fx { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Fx) -> bool { true } open spec fn sub_spec(self, o: Fx) -> Fx { self.s_sub(o) } }
impl Sub<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn sub(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl MulSpecImpl<Fx> for Fx { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fx) -> bool { true } open spec fn mul_spec(self, o: Fx) -> Fx { self.s_mul(o) } }
impl Mul<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn mul(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl DivSpecImpl<Fx> for Fx { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Fx) -> bool { true } open spec fn div_spec(self, o: Fx) -> Fx { self.s_div(o) } }
impl Div<Fx> for Fx { type Output = Fx; #[verifier::external_body] fn div(self, o: Fx) -> (r: Fx) { unimplemented!() } }
impl NegSpecImpl for Fx { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fx { self.s_neg() } }
impl Neg for Fx { type Output = Fx; #[verifier::external_body] fn neg(self) -> (r: Fx) { unimplemented!() } }
impl PartialEqSpecImpl for Fx { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fx) -> bool { !self.isnan() && !o.isnan() && self.k() == o.k() } }
impl PartialEq for Fx { #[verifier::external_body] fn eq(&self, o: &Fx) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Fx {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fx) -> Option<Ordering> { if self.isnan() || o.isnan() { None } else if self.k() < o.k() { Some(Ordering::Less) } else if self.k() > o.k() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
}
impl PartialOrd for Fx { #[verifier::external_body] fn partial_cmp(&self, o: &Fx) -> (r: Option<Ordering>) { unimplemented!() } }
impl Fx {
    /// the literal n/d
    #[verifier::external_body]
    pub fn lit(n: u64, d: u64) -> (r: Fx) requires d > 0 ensures r == fx_lit(n as int, d as int), fx_is(r, (n as real) / (d as real)), r.isfin(), d == 1 && n <= 16777216 ==> r.k() == n as real { unimplemented!() }
    #[verifier::external_body]
    pub fn infinity() -> (r: Fx) ensures r == fx_inf() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: Fx) ensures r == fx_top(), r.isfin(), r.k() == fx_big() { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_infinity() -> (r: Fx) ensures r == fx_ninf() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.isfin() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.isnan() { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Fx) -> (r: Fx) ensures Self::is_min(self, o, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Fx) -> (r: Fx) ensures Self::is_max(self, o, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn exp(self) -> (r: Fx) ensures r == self.s_exp() { unimplemented!() }
    /// no contract: any value
    #[verifier::external_body]
    pub fn powf(self, o: Fx) -> Fx { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (r: Fx) ensures r == self.s_floor() { unimplemented!() }
    /// round half away from zero
    #[verifier::external_body]
    pub fn round(self) -> (r: Fx) ensures r.isnan() == self.isnan(), self.isfin() ==> r.isfin() && r.k() == fx_round(self.k()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clamp(self, lo: Fx, hi: Fx) -> (r: Fx) requires !lo.isnan(), !hi.isnan(), lo.k() <= hi.k() ensures r.isnan() == self.isnan(), !self.isnan() ==> r.k() == (if self.k() < lo.k() { lo.k() } else if self.k() > hi.k() { hi.k() } else { self.k() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn any() -> Fx { unimplemented!() }
}
/// `a.min(b)`, `a.max(b)`
pub trait VxOrd: Sized {
    spec fn is_min(a: Self, b: Self, r: Self) -> bool;
    spec fn is_max(a: Self, b: Self, r: Self) -> bool;
    fn vmin(a: Self, b: Self) -> (r: Self) ensures Self::is_min(a, b, r);
    fn vmax(a: Self, b: Self) -> (r: Self) ensures Self::is_max(a, b, r);
}
impl VxOrd for usize {
    open spec fn is_min(a: usize, b: usize, r: usize) -> bool { r == (if a < b { a } else { b }) }
    open spec fn is_max(a: usize, b: usize, r: usize) -> bool { r == (if a > b { a } else { b }) }
    fn vmin(a: usize, b: usize) -> (r: usize) { if a < b { a } else { b } }
    fn vmax(a: usize, b: usize) -> (r: usize) { if a > b { a } else { b } }
}
impl VxOrd for Fx {
    open spec fn is_min(a: Fx, b: Fx, r: Fx) -> bool { (r == a || r == b) && r.isnan() == (a.isnan() && b.isnan()) && r.k() == a.s_min(b).k() && (!r.isnan() && r.k() != 0real ==> r == a.s_min(b)) }
    open spec fn is_max(a: Fx, b: Fx, r: Fx) -> bool { (r == a || r == b) && r.isnan() == (a.isnan() && b.isnan()) && r.k() == a.s_max(b).k() && (!r.isnan() && r.k() != 0real ==> r == a.s_max(b)) }
    #[verifier::external_body]
    fn vmin(a: Fx, b: Fx) -> (r: Fx) { unimplemented!() }
    #[verifier::external_body]
    fn vmax(a: Fx, b: Fx) -> (r: Fx) { unimplemented!() }
}
pub fn vx_min<X: VxOrd>(a: X, b: X) -> (r: X) ensures X::is_min(a, b, r) { X::vmin(a, b) }
pub fn vx_max<X: VxOrd>(a: X, b: X) -> (r: X) ensures X::is_max(a, b, r) { X::vmax(a, b) }
/// `x as f64`, `x as f32`
pub trait VxFx: Sized { spec fn fx_of(self) -> Fx; fn vx_fx(self) -> (r: Fx) ensures r == self.fx_of(); }
pub uninterp spec fn fx_int(n: int) -> Fx;
#[verifier::external_body]
pub proof fn fx_int_law() ensures forall|n: int| #![trigger fx_int(n)] fx_is(fx_int(n), n as real) { }
impl VxFx for usize { open spec fn fx_of(self) -> Fx { fx_int(self as int) } #[verifier::external_body] fn vx_fx(self) -> (r: Fx) { unimplemented!() } }
impl VxFx for u64 { open spec fn fx_of(self) -> Fx { fx_int(self as int) } #[verifier::external_body] fn vx_fx(self) -> (r: Fx) { unimplemented!() } }
impl VxFx for u16 { open spec fn fx_of(self) -> Fx { fx_int(self as int) } #[verifier::external_body] fn vx_fx(self) -> (r: Fx) { unimplemented!() } }
impl VxFx for i64 { open spec fn fx_of(self) -> Fx { fx_int(self as int) } #[verifier::external_body] fn vx_fx(self) -> (r: Fx) { unimplemented!() } }
impl VxFx for Fx { open spec fn fx_of(self) -> Fx { self } fn vx_fx(self) -> (r: Fx) { self } }   // f32 to f64 is exact
pub fn vx_fx<X: VxFx>(x: X) -> (r: Fx) ensures r == x.fx_of() { x.vx_fx() }
/// `x as usize` (saturating, NaN gives 0)
#[verifier::external_body]
pub fn vx_to_usize(x: Fx) -> (r: usize)
    ensures x.isnan() ==> r == 0, !x.isnan() ==> r == (if x.k() < 0real { 0 } else if x.k() >= usize::MAX as real { usize::MAX as int } else { x.k().floor() }),
{ unimplemented!() }
