# symbolic_regression: built-in losses are weighted means of their per-row function, gradients are their derivatives
=== include prelude.inc
=== include realfloat.inc
=== include rsum.inc
=== raw
pub open spec fn res(p: Seq<real>, y: Seq<real>) -> Seq<real> { Seq::new(p.len(), |i: int| p[i] - y[i]) }
/// A loss of one row, as a function of the residual e = prediction - target.
pub trait PointwiseLoss<T: Float> {
    spec fn ok(&self) -> bool;
    spec fn pt(&self, e: real) -> real;
    spec fn dpt(&self, e: real) -> real;
    /// the per-row loss is differentiable here
    spec fn smooth(&self, e: real) -> bool;
    proof fn derivative(&self, e: real) requires self.ok(), self.smooth(e) ensures is_deriv(|x: real| self.pt(x), e, self.dpt(e));
    fn point_loss(&self, yhat: T, y: T) -> (r: T) ensures self.ok() ==> r.r() == self.pt(yhat.r() - y.r());
    fn point_dloss_dyhat(&self, yhat: T, y: T) -> (r: T) ensures self.ok() ==> r.r() == self.dpt(yhat.r() - y.r());
}
pub trait LossFn<T: Float> {
    spec fn total(&self, e: Seq<real>, w: Seq<real>) -> real;
    spec fn grad(&self, e: Seq<real>, w: Seq<real>, i: int) -> real;
    /// the loss is defined here (a root mean square needs a nonnegative mean square)
    spec fn defined(&self, e: Seq<real>, w: Seq<real>) -> bool;
    fn loss(&self, yhat: &[T], y: &[T], w: Option<&[T]>) -> (r: T)
        requires yhat@.len() == y@.len(), w is Some ==> w->0@.len() == y@.len(),
        ensures self.defined(res(reals(yhat@), reals(y@)), wts(w, y@.len() as int)) ==> r.r() == self.total(res(reals(yhat@), reals(y@)), wts(w, y@.len() as int));
    fn dloss_dyhat(&self, yhat: &[T], y: &[T], w: Option<&[T]>, out: &mut [T])
        requires yhat@.len() == y@.len(), w is Some ==> w->0@.len() == y@.len(), old(out)@.len() == y@.len(),
        ensures
            final(out)@.len() == old(out)@.len(),
            self.defined(res(reals(yhat@), reals(y@)), wts(w, y@.len() as int)) ==> forall|i: int| 0 <= i < y@.len() ==> (#[trigger] final(out)@[i]).r() == self.grad(res(reals(yhat@), reals(y@)), wts(w, y@.len() as int), i);
}
=== type symbolic_regression/src/loss_functions.rs MeanLoss
=== type symbolic_regression/src/loss_functions.rs SquaredLoss
=== type symbolic_regression/src/loss_functions.rs AbsLoss
=== type symbolic_regression/src/loss_functions.rs HuberLoss
=== type symbolic_regression/src/loss_functions.rs LogCoshLoss
=== type symbolic_regression/src/loss_functions.rs LpLoss
=== type symbolic_regression/src/loss_functions.rs QuantileLoss
=== type symbolic_regression/src/loss_functions.rs EpsilonInsensitiveLoss
=== type symbolic_regression/src/loss_functions.rs Rmse
=== raw
pub open spec fn mtotal<T: Float, L: PointwiseLoss<T>>(l: L, e: Seq<real>, w: Seq<real>) -> real { wmean(w, Seq::new(e.len(), |i: int| l.pt(e[i]))) }
pub open spec fn mgrad<T: Float, L: PointwiseLoss<T>>(l: L, e: Seq<real>, w: Seq<real>, i: int) -> real { if rsum(w) == 0real { 0real } else { w[i] * l.dpt(e[i]) / rsum(w) } }
/// the terms summed for the first k rows
pub open spec fn terms<T: Float, L: PointwiseLoss<T>>(l: L, e: Seq<real>, w: Seq<real>) -> Seq<real> { weighted(w, Seq::new(e.len(), |i: int| l.pt(e[i]))) }
=== fn symbolic_regression/src/loss_functions.rs MeanLoss@LossFn::loss
--- opt fx implopen
--- subst PointwiseLoss<T> + Send + Sync => PointwiseLoss<T>
--- implhead
open spec fn total(&self, e: Seq<real>, w: Seq<real>) -> real { mtotal(self.0, e, w) }
open spec fn grad(&self, e: Seq<real>, w: Seq<real>, i: int) -> real { mgrad(self.0, e, w, i) }
open spec fn defined(&self, e: Seq<real>, w: Seq<real>) -> bool { self.0.ok() }
--- entry
proof { T::laws(); rsum_ones(y@.len()); }
let ghost e = res(reals(yhat@), reals(y@));
let ghost wt = wts(w, y@.len() as int);
let ghost tm = terms(self.0, e, wt);
--- loop 0
invariant
    wt == ones(y@.len() as int), e == res(reals(yhat@), reals(y@)), tm == terms(self.0, e, wt), __n0 == yhat@.len() == y@.len(), __k0 <= __n0,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    self.0.ok() ==> __acc0.r() == rsum(tm.take(__k0 as int)),
decreases __n0 - __k0,
--- head 0
proof { let k = __k0 - 1; rsum_take(tm, k); assert(e[k] == yhat@[k].r() - y@[k].r()); assert(tm[k] == wt[k] * self.0.pt(e[k])); assert(wt[k] == 1real); }
--- after 0
proof { assert(tm.take(__n0 as int) =~= tm); }
--- loop 1
invariant
    wt == reals(w@), __n1 == w@.len(), __k1 <= __n1,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    __acc1.r() == rsum(wt.take(__k1 as int)),
decreases __n1 - __k1,
--- head 1
proof { let k = __k1 - 1; rsum_take(wt, k); assert(wt[k] == w@[k].r()); }
--- after 1
proof { assert(wt.take(__n1 as int) =~= wt); }
--- loop 2
invariant
    wt == reals(w@), e == res(reals(yhat@), reals(y@)), tm == terms(self.0, e, wt), __n2 == yhat@.len() == y@.len() == w@.len(), __k2 <= __n2,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
    self.0.ok() ==> __acc2.r() == rsum(tm.take(__k2 as int)),
decreases __n2 - __k2,
--- head 2
proof { let k = __k2 - 1; rsum_take(tm, k); assert(e[k] == yhat@[k].r() - y@[k].r()); assert(tm[k] == wt[k] * self.0.pt(e[k])); assert(wt[k] == w@[k].r()); }
--- after 2
proof { assert(tm.take(__n2 as int) =~= tm); }
=== fn symbolic_regression/src/loss_functions.rs MeanLoss@LossFn::dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); rsum_ones(y@.len()); }
let ghost e = res(reals(yhat@), reals(y@));
let ghost wt = wts(w, y@.len() as int);
--- loop 0
invariant
    wt == ones(y@.len() as int), e == res(reals(yhat@), reals(y@)), __n0 == yhat@.len() == y@.len() == out@.len() == old(out)@.len(), __k0 <= __n0, rsum(wt) == y@.len() as real, y@.len() > 0,
    inv.r() == 1real / (y@.len() as real),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
    self.0.ok() ==> forall|i: int| 0 <= i < __k0 ==> (#[trigger] out@[i]).r() == mgrad(self.0, e, wt, i),
decreases __n0 - __k0,
--- tail 0
proof {
    let i = __k0 - 1; assert(e[i] == yhat@[i].r() - y@[i].r()); assert(wt[i] == 1real);
    swap_div(1real, self.0.dpt(e[i]), rsum(wt));
}
--- loop 1
invariant
    wt == reals(w@), __n1 == w@.len(), __k1 <= __n1,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    __acc1.r() == rsum(wt.take(__k1 as int)),
decreases __n1 - __k1,
--- head 1
proof { let k = __k1 - 1; rsum_take(wt, k); assert(wt[k] == w@[k].r()); }
--- after 1
proof { assert(wt.take(__n1 as int) =~= wt); }
--- loop 2
invariant
    wt == reals(w@), e == res(reals(yhat@), reals(y@)), __n2 == yhat@.len() == y@.len() == out@.len() == old(out)@.len() == w@.len(), __k2 <= __n2, rsum(wt) != 0real,
    inv.r() == 1real / rsum(wt),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
    self.0.ok() ==> forall|i: int| 0 <= i < __k2 ==> (#[trigger] out@[i]).r() == mgrad(self.0, e, wt, i),
decreases __n2 - __k2,
--- tail 2
proof {
    let i = __k2 - 1; assert(e[i] == yhat@[i].r() - y@[i].r()); assert(wt[i] == w@[i].r());
    swap_div(wt[i], self.0.dpt(e[i]), rsum(wt));
}
=== raw
pub proof fn swap_div(a: real, d: real, s: real)
    requires s != 0real,
    ensures a * (1real / s) * d == a * d / s, (1real / s) * d == d / s, a * d * (1real / s) == a * d / s, d * (1real / s) * a == a * d / s, (1real / s) * a * d == a * d / s,
        a / s * d == a * d / s, a * (d / s) == a * d / s, (1real / s) * (a * d) == a * d / s, d * (a * (1real / s)) == a * d / s, d * a / s == a * d / s, (1real / s) == 1real / s, (d * (1real / s)) == d / s,
{
    let q = 1real / s;
    assert(q * s == 1real) by (nonlinear_arith) requires q == 1real / s, s != 0real;
    assert(a * d / s == a * d * q) by (nonlinear_arith) requires q * s == 1real, s != 0real;
    assert(d / s == d * q) by (nonlinear_arith) requires q * s == 1real, s != 0real;
    assert(a / s == a * q) by (nonlinear_arith) requires q * s == 1real, s != 0real;
    assert(a * q * d == a * d * q && q * d == d * q && d * q * a == a * d * q && q * a * d == a * d * q && a * (d * q) == a * d * q && q * (a * d) == a * d * q && d * (a * q) == a * d * q && d * a == a * d) by (nonlinear_arith);
}
pub proof fn scaled(r: real, wi: real, p1: real, p0: real, rs: real, h: real, d: real, c: real)
    requires rs != 0real, rabs(p1 - p0 - h * d) <= c * (h * h),
    ensures rabs((r + wi * p1 - wi * p0) / rs - (r + wi * p0 - wi * p0) / rs - h * (wi * d / rs)) <= rabs(wi / rs) * c * (h * h),
{
    let q = 1real / rs;
    assert(q * rs == 1real) by (nonlinear_arith) requires q == 1real / rs, rs != 0real;
    quot(r + wi * p1 - wi * p0, rs, q); quot(r + wi * p0 - wi * p0, rs, q); quot(wi * d, rs, q); quot(wi, rs, q);
    scaled_q(r, wi, p1, p0, q, h, d);
    scaled_abs(wi * q, p1 - p0 - h * d, c, h * h);
}
pub proof fn scaled_q(r: real, wi: real, p1: real, p0: real, q: real, h: real, d: real)
    ensures (r + wi * p1 - wi * p0) * q - (r + wi * p0 - wi * p0) * q - h * (wi * d * q) == (wi * q) * (p1 - p0 - h * d),
{
    let a = wi * q; let z = h * d;
    assert((r + wi * p1 - wi * p0) * q == r * q + (wi * p1) * q - (wi * p0) * q) by (nonlinear_arith);
    assert((wi * p1) * q == a * p1) by (nonlinear_arith) requires a == wi * q;
    assert((wi * p0) * q == a * p0) by (nonlinear_arith) requires a == wi * q;
    assert(r + wi * p0 - wi * p0 == r);
    assert(h * (wi * d * q) == a * z) by (nonlinear_arith) requires a == wi * q, z == h * d;
    assert(a * (p1 - p0 - z) == a * p1 - a * p0 - a * z) by (nonlinear_arith);
}
pub proof fn scaled_abs(s: real, b: real, c: real, h2: real)
    requires rabs(b) <= c * h2,
    ensures rabs(s * b) <= rabs(s) * c * h2,
{
    let t = c * h2;
    assert(rabs(s * b) == rabs(s) * rabs(b)) by (nonlinear_arith);
    let (x, y) = (rabs(s), rabs(b));
    assert(x * y <= x * t) by (nonlinear_arith) requires x >= 0real, y <= t;
    assert(x * t == x * c * h2) by (nonlinear_arith) requires t == c * h2;
}
pub proof fn quot(n: real, s: real, q: real) requires q * s == 1real, s != 0real ensures n / s == n * q {
    assert(n / s == n * q) by (nonlinear_arith) requires q * s == 1real, s != 0real;
}
/// the derivative of the mean with respect to one prediction
pub proof fn mean_derivative<T: Float, L: PointwiseLoss<T>>(l: L, e: Seq<real>, w: Seq<real>, i: int)
    requires e.len() == w.len(), 0 <= i < e.len(), rsum(w) != 0real, l.ok(), l.smooth(e[i]),
    ensures is_deriv(|x: real| mtotal(l, e.update(i, x), w), e[i], mgrad(l, e, w, i)),
{
    l.derivative(e[i]);
    let f = |x: real| l.pt(x);
    let (x0, d) = (e[i], l.dpt(e[i]));
    let (c, delta) = choose|c: real, delta: real| near(f, x0, d, c, delta);
    let s = w[i] / rsum(w);
    let g = |x: real| mtotal(l, e.update(i, x), w);
    let cc = rabs(s) * c;
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(g, x0, mgrad(l, e, w, i), h)) <= cc * (h * h) by {
        assert(rabs(err(f, x0, d, h)) <= c * (h * h));
        let t0 = terms(l, e, w);
        assert forall|x: real| #[trigger] g(x) == (rsum(t0) + w[i] * l.pt(x) - t0[i]) / rsum(w) by {
            rsum_update(t0, i, w[i] * l.pt(x));
            assert(terms(l, e.update(i, x), w) =~= t0.update(i, w[i] * l.pt(x)));
        }
        assert(t0[i] == w[i] * l.pt(x0));
        scaled(rsum(t0), w[i], l.pt(x0 + h), l.pt(x0), rsum(w), h, d, c);
    }
    assert(near(g, x0, mgrad(l, e, w, i), cc, delta));
}
/// unit weights give the unweighted loss and gradient
pub proof fn unit_weights<T: Float, M: LossFn<T>>(m: M, w: &[T], y: &[T])
    requires w@.len() == y@.len(), forall|i: int| 0 <= i < w@.len() ==> (#[trigger] w@[i]).r() == 1real,
    ensures wts(Some(w), y@.len() as int) == wts(None::<&[T]>, y@.len() as int),
{ assert(reals(w@) =~= ones(y@.len() as int)); }
=== raw
// Calculus facts about the transcendental functions (trusted)
#[verifier::external_body]
pub proof fn log_cosh_derivative(e: real) ensures is_deriv(|x: real| rln(rcosh(x)), e, rtanh(e)) { }
#[verifier::external_body]
pub proof fn pow_derivative(a: real, p: real) requires a > 0real ensures is_deriv(|x: real| rpow(x, p), a, p * rpow(a, p - 1real)) { }
pub open spec fn half_of(x: real) -> bool { x * 10real == 5real }
pub proof fn huber_forms<T: Float>(e: real, d: real)
    ensures
        forall|x: T, y: T| half_of(x.r()) ==> (#[trigger] x.mul_spec(y)).r() == y.r() / 2real,
        forall|x: T, y: T| half_of(x.r()) ==> (#[trigger] y.mul_spec(x)).r() == y.r() / 2real,
        (e / 2real) * e == e * e / 2real,
{
    T::laws();
    assert forall|x: T, y: T| half_of(x.r()) implies (#[trigger] x.mul_spec(y)).r() == y.r() / 2real by { let (a, b) = (x.r(), y.r()); assert(a * b == b / 2real) by (nonlinear_arith) requires a == 0.5real; }
    assert forall|x: T, y: T| half_of(x.r()) implies (#[trigger] y.mul_spec(x)).r() == y.r() / 2real by { let (a, b) = (x.r(), y.r()); assert(b * a == b / 2real) by (nonlinear_arith) requires a == 0.5real; }
    assert((e / 2real) * e == e * e / 2real) by (nonlinear_arith);
}
pub open spec fn hub(d: real, e: real) -> real { if rabs(e) <= d { e * e / 2real } else { d * (rabs(e) - d / 2real) } }
pub open spec fn dhub(d: real, e: real) -> real { if rabs(e) <= d { e } else if e > 0real { d } else { -d } }
pub proof fn huber_bound(d: real, e: real, h: real)
    requires d >= 0real, d > 0real || e != 0real, e != 0real ==> rabs(h) < rabs(e), e == 0real ==> rabs(h) < d,
    ensures rabs(hub(d, e + h) - hub(d, e) - h * dhub(d, e)) <= 1real * (h * h),
{
    // reflect to e >= 0
    if e < 0real {
        huber_bound_pos(d, -e, -h);
        assert((e + h) * (e + h) == (-e + -h) * (-e + -h) && e * e == (-e) * (-e) && (-h) * (-h) == h * h) by (nonlinear_arith);
        assert(dhub(d, -e) == -dhub(d, e));
        assert((-h) * (-dhub(d, e)) == h * dhub(d, e)) by (nonlinear_arith);
        assert(hub(d, -e + -h) == hub(d, e + h));
    } else { huber_bound_pos(d, e, h); }
}
pub proof fn huber_bound_pos(d: real, e: real, h: real)
    requires d >= 0real, e >= 0real, d > 0real || e != 0real, e != 0real ==> rabs(h) < e, e == 0real ==> rabs(h) < d,
    ensures rabs(hub(d, e + h) - hub(d, e) - h * dhub(d, e)) <= 1real * (h * h),
{
    let x = e + h;
    assert(h * h >= 0real) by (nonlinear_arith);
    if e <= d {
        if rabs(x) <= d {
            assert(x * x / 2real - e * e / 2real - h * e == h * h / 2real) by (nonlinear_arith) requires x == e + h;
        } else {
            // x > d >= e
            assert(x > d);
            assert(d * (x - d / 2real) - e * e / 2real - h * e >= -(h * h) && d * (x - d / 2real) - e * e / 2real - h * e <= h * h) by (nonlinear_arith) requires x == e + h, x > d, d >= e, e >= 0real;
        }
    } else {
        assert(x > 0real);
        if x <= d {
            let v = x * x / 2real - d * (e - d / 2real) - h * d;
            assert(v == (x - d) * (x - d) / 2real) by (nonlinear_arith) requires v == x * x / 2real - d * (e - d / 2real) - h * d, x == e + h;
            assert(0real <= (x - d) * (x - d) && (x - d) * (x - d) <= h * h) by (nonlinear_arith) requires x == e + h, x <= d, d < e;
        } else {
            assert(d * (x - d / 2real) - d * (e - d / 2real) - h * d == 0real) by (nonlinear_arith) requires x == e + h;
        }
    }
}
=== fn symbolic_regression/src/loss_functions.rs SquaredLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { true }
open spec fn pt(&self, e: real) -> real { e * e }
open spec fn dpt(&self, e: real) -> real { 2real * e }
open spec fn smooth(&self, e: real) -> bool { true }
proof fn derivative(&self, e: real) {
    let f = |x: real| <SquaredLoss as PointwiseLoss<T>>::pt(self, x);
    let (c, delta, d) = (1real, 1real, 2real * e);
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, d, h)) <= c * (h * h) by { assert((e + h) * (e + h) - e * e - h * (2real * e) == h * h) by (nonlinear_arith); assert(h * h >= 0real) by (nonlinear_arith); }
    assert(near(f, e, d, c, delta));
}
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs SquaredLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs AbsLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { true }
open spec fn pt(&self, e: real) -> real { rabs(e) }
open spec fn dpt(&self, e: real) -> real { if e > 0real { 1real } else if e < 0real { -1real } else { 0real } }
open spec fn smooth(&self, e: real) -> bool { e != 0real }
proof fn derivative(&self, e: real) {
    let f = |x: real| <AbsLoss as PointwiseLoss<T>>::pt(self, x);
    let (c, delta, d) = (0real, rabs(e), if e > 0real { 1real } else { -1real });
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, d, h)) <= c * (h * h) by { assert(0real * (h * h) == 0real) by (nonlinear_arith); assert(h * 1real == h && h * (-1real) == -h); }
    assert(near(f, e, d, c, delta));
}
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs AbsLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs LogCoshLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { true }
open spec fn pt(&self, e: real) -> real { rln(rcosh(e)) }
open spec fn dpt(&self, e: real) -> real { rtanh(e) }
open spec fn smooth(&self, e: real) -> bool { true }
proof fn derivative(&self, e: real) {
    let f = |x: real| <LogCoshLoss as PointwiseLoss<T>>::pt(self, x);
    log_cosh_derivative(e);
    let g = |x: real| rln(rcosh(x));
    let (c, delta) = choose|c: real, delta: real| near(g, e, rtanh(e), c, delta);
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, rtanh(e), h)) <= c * (h * h) by { assert(rabs(err(g, e, rtanh(e), h)) <= c * (h * h)); }
    assert(near(f, e, rtanh(e), c, delta));
}
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs LogCoshLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs HuberLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { self.delta.r() >= 0real }
open spec fn pt(&self, e: real) -> real { if rabs(e) <= self.delta.r() { e * e / 2real } else { self.delta.r() * (rabs(e) - self.delta.r() / 2real) } }
open spec fn dpt(&self, e: real) -> real { if rabs(e) <= self.delta.r() { e } else if e > 0real { self.delta.r() } else { -self.delta.r() } }
open spec fn smooth(&self, e: real) -> bool { self.delta.r() > 0real || e != 0real }
proof fn derivative(&self, e: real) {
    let f = |x: real| <HuberLoss<T> as PointwiseLoss<T>>::pt(self, x);
    let (c, delta, d) = (1real, if rabs(e) > 0real { rabs(e) } else { self.delta.r() }, <Self as PointwiseLoss<T>>::dpt(self, e));
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, d, h)) <= c * (h * h) by { huber_bound(self.delta.r(), e, h); }
    assert(near(f, e, d, c, delta));
}
--- entry
proof { T::laws(); huber_forms::<T>(yhat.r() - y.r(), self.delta.r()); }

=== fn symbolic_regression/src/loss_functions.rs HuberLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs LpLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { true }
open spec fn pt(&self, e: real) -> real { rpow(rabs(e), self.p.r()) }
open spec fn dpt(&self, e: real) -> real { if e == 0real { 0real } else { self.p.r() * rpow(rabs(e), self.p.r() - 1real) * (if e > 0real { 1real } else { -1real }) } }
open spec fn smooth(&self, e: real) -> bool { e != 0real }
proof fn derivative(&self, e: real) {
    let f = |x: real| <LpLoss<T> as PointwiseLoss<T>>::pt(self, x);
    let p = self.p.r();
    let a = rabs(e);
    pow_derivative(a, p);
    let g = |x: real| rpow(x, p);
    let d = p * rpow(a, p - 1real);
    assert(is_deriv(g, a, d));
    let (c, delta0) = choose|c: real, delta: real| near(g, a, d, c, delta);
    let delta = if delta0 < a { delta0 } else { a };
    let s = if e > 0real { 1real } else { -1real };
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, d * s, h)) <= c * (h * h) by {
        let k = if e > 0real { h } else { -h };
        assert(near(g, a, d, c, delta0) && -delta0 < k < delta0);
        assert(rabs(err(g, a, d, k)) <= c * (k * k));
        assert(rabs(e + h) == a + k);
        assert(k * d == h * (d * s) && k * k == h * h) by (nonlinear_arith) requires (s == 1real && k == h) || (s == -1real && k == -h);
    }
    assert(near(f, e, d * s, c, delta));
}
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs LpLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs QuantileLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { true }
open spec fn pt(&self, e: real) -> real { if e <= 0real { self.tau.r() * -e } else { (self.tau.r() - 1real) * -e } }
open spec fn dpt(&self, e: real) -> real { if e < 0real { -self.tau.r() } else if e > 0real { 1real - self.tau.r() } else { 0real } }
open spec fn smooth(&self, e: real) -> bool { e != 0real }
proof fn derivative(&self, e: real) {
    let f = |x: real| <QuantileLoss<T> as PointwiseLoss<T>>::pt(self, x);
    let (c, delta, d) = (0real, rabs(e), <Self as PointwiseLoss<T>>::dpt(self, e));
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, d, h)) <= c * (h * h) by { let t = self.tau.r(); assert(0real * (h * h) == 0real) by (nonlinear_arith); assert(t * -(e + h) - t * -e - h * (-t) == 0real) by (nonlinear_arith); assert((t - 1real) * -(e + h) - (t - 1real) * -e - h * (1real - t) == 0real) by (nonlinear_arith); }
    assert(near(f, e, d, c, delta));
}
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs QuantileLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs EpsilonInsensitiveLoss@PointwiseLoss::point_loss
--- opt fx implopen
--- implhead
open spec fn ok(&self) -> bool { true }
open spec fn pt(&self, e: real) -> real { if rabs(e) > self.eps.r() { rabs(e) - self.eps.r() } else { 0real } }
open spec fn dpt(&self, e: real) -> real { if rabs(e) > self.eps.r() { if e > 0real { 1real } else if e < 0real { -1real } else { 0real } } else { 0real } }
open spec fn smooth(&self, e: real) -> bool { rabs(e) != self.eps.r() && (e != 0real || self.eps.r() > 0real) }
proof fn derivative(&self, e: real) {
    let f = |x: real| <EpsilonInsensitiveLoss<T> as PointwiseLoss<T>>::pt(self, x);
    let (c, delta, d) = (0real, if rabs(e) > self.eps.r() { if rabs(e) < rabs(e) - self.eps.r() { rabs(e) } else { rabs(e) - self.eps.r() } } else { self.eps.r() - rabs(e) }, <Self as PointwiseLoss<T>>::dpt(self, e));
    assert forall|h: real| -delta < h < delta implies rabs(#[trigger] err(f, e, d, h)) <= c * (h * h) by { assert(0real * (h * h) == 0real) by (nonlinear_arith); assert(h * 1real == h && h * (-1real) == -h && h * 0real == 0real); }
    assert(near(f, e, d, c, delta));
}
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs EpsilonInsensitiveLoss@PointwiseLoss::point_dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); }

=== fn symbolic_regression/src/loss_functions.rs mse
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<SquaredLoss>
--- subst Arc::new(MeanLoss(SquaredLoss)) => MeanLoss(SquaredLoss)
=== raw
pub fn vx_id<X>(x: X) -> (r: X) ensures r == x { x }
=== fn symbolic_regression/src/loss_functions.rs mae
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<AbsLoss>
--- subst Arc::new( => vx_id(
--- subst T: Float + Send + Sync + 'static => T: Float
=== fn symbolic_regression/src/loss_functions.rs log_cosh
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<LogCoshLoss>
--- subst Arc::new( => vx_id(
--- subst T: Float + Send + Sync + 'static => T: Float
=== fn symbolic_regression/src/loss_functions.rs huber
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<HuberLoss<T>>
--- subst Arc::new( => vx_id(
--- subst T: Float + Send + Sync + 'static => T: Float
--- spec
ensures m.0.delta.r() == fx_num(delta),
=== fn symbolic_regression/src/loss_functions.rs lp
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<LpLoss<T>>
--- subst Arc::new( => vx_id(
--- subst T: Float + Send + Sync + 'static => T: Float
--- spec
ensures m.0.p.r() == fx_num(p),
=== fn symbolic_regression/src/loss_functions.rs quantile
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<QuantileLoss<T>>
--- subst Arc::new( => vx_id(
--- subst T: Float + Send + Sync + 'static => T: Float
--- spec
ensures m.0.tau.r() == fx_num(tau),
=== fn symbolic_regression/src/loss_functions.rs epsilon_insensitive
--- opt fx
--- ret m
--- subst LossObject<T> => MeanLoss<EpsilonInsensitiveLoss<T>>
--- subst Arc::new( => vx_id(
--- subst T: Float + Send + Sync + 'static => T: Float
--- spec
ensures m.0.eps.r() == fx_num(eps),
=== fn symbolic_regression/src/loss_functions.rs rmse
--- opt fx
--- ret m
--- subst LossObject<T> => Rmse
--- subst Arc::new( => vx_id(
=== raw
pub open spec fn sq(e: Seq<real>, w: Seq<real>) -> real { wmean(w, Seq::new(e.len(), |i: int| e[i] * e[i])) }
pub proof fn sq_is<T: Float>(e: Seq<real>, w: Seq<real>) ensures mtotal::<T, SquaredLoss>(SquaredLoss, e, w) == sq(e, w) {
    assert(Seq::new(e.len(), |i: int| <SquaredLoss as PointwiseLoss<T>>::pt(&SquaredLoss, e[i])) =~= Seq::new(e.len(), |i: int| e[i] * e[i]));
}
=== fn symbolic_regression/src/loss_functions.rs Rmse@LossFn::loss
--- opt fx implopen
--- implhead
open spec fn total(&self, e: Seq<real>, w: Seq<real>) -> real { rsqrt(sq(e, w)) }
open spec fn grad(&self, e: Seq<real>, w: Seq<real>, i: int) -> real { if rsqrt(sq(e, w)) == 0real { 0real } else { w[i] * e[i] / (rsum(w) * rsqrt(sq(e, w))) } }
open spec fn defined(&self, e: Seq<real>, w: Seq<real>) -> bool { sq(e, w) >= 0real }
--- entry
proof { T::laws(); sq_is::<T>(res(reals(yhat@), reals(y@)), wts(w, y@.len() as int)); }
=== fn symbolic_regression/src/loss_functions.rs Rmse@LossFn::dloss_dyhat
--- opt fx implcont
--- entry
proof { T::laws(); rsum_ones(y@.len()); sqrt_law(0real); }
let ghost e = res(reals(yhat@), reals(y@));
let ghost wt = wts(w, y@.len() as int);
proof { sq_is::<T>(e, wt); }
--- loop 0
invariant
    wt == ones(y@.len() as int), e == res(reals(yhat@), reals(y@)), __n0 == yhat@.len() == y@.len() == out@.len() == old(out)@.len(), __k0 <= __n0, rsum(wt) == y@.len() as real,
    rmse.r() == rsqrt(sq(e, wt)) || sq(e, wt) < 0real, rmse.r() != 0real,
    y@.len() > 0 ==> scale.r() == 1real / (y@.len() as real) / rmse.r(),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
    forall|a: T, b: T| #[trigger] a.sub_req(b), T::obeys_sub_spec(), forall|a: T, b: T| (#[trigger] a.sub_spec(b)).r() == a.r() - b.r(),
    sq(e, wt) >= 0real ==> forall|i: int| 0 <= i < __k0 ==> (#[trigger] out@[i]).r() == <Rmse as LossFn<T>>::grad(&Rmse, e, wt, i),
decreases __n0 - __k0,
--- tail 0
proof {
    let i = __k0 - 1; assert(e[i] == yhat@[i].r() - y@[i].r()); assert(wt[i] == 1real);
    if sq(e, wt) >= 0real { rms_term(1real, e[i], rsum(wt), rmse.r()); }
}
--- loop 1
invariant
    wt == reals(w@), __n1 == w@.len(), __k1 <= __n1,
    forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(), forall|a: T, b: T| (#[trigger] a.add_spec(b)).r() == a.r() + b.r(),
    __acc1.r() == rsum(wt.take(__k1 as int)),
decreases __n1 - __k1,
--- head 1
proof { let k = __k1 - 1; rsum_take(wt, k); assert(wt[k] == w@[k].r()); }
--- after 1
proof { assert(wt.take(__n1 as int) =~= wt); }
--- loop 2
invariant
    wt == reals(w@), e == res(reals(yhat@), reals(y@)), __n2 == yhat@.len() == y@.len() == out@.len() == old(out)@.len() == w@.len(), __k2 <= __n2, rsum(wt) != 0real,
    rmse.r() == rsqrt(sq(e, wt)) || sq(e, wt) < 0real, rmse.r() != 0real,
    scale.r() == 1real / rsum(wt) / rmse.r(),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| (#[trigger] a.mul_spec(b)).r() == a.r() * b.r(),
    forall|a: T, b: T| #[trigger] a.sub_req(b), T::obeys_sub_spec(), forall|a: T, b: T| (#[trigger] a.sub_spec(b)).r() == a.r() - b.r(),
    sq(e, wt) >= 0real ==> forall|i: int| 0 <= i < __k2 ==> (#[trigger] out@[i]).r() == <Rmse as LossFn<T>>::grad(&Rmse, e, wt, i),
decreases __n2 - __k2,
--- tail 2
proof {
    let i = __k2 - 1; assert(e[i] == yhat@[i].r() - y@[i].r()); assert(wt[i] == w@[i].r());
    if sq(e, wt) >= 0real { rms_term(wt[i], e[i], rsum(wt), rmse.r()); }
}
=== raw
pub proof fn rms_term(w: real, e: real, s: real, m: real)
    requires s != 0real, m != 0real,
    ensures (1real / s / m) * w * e == w * e / (s * m), (1real / s / m) * e == e / (s * m), w * (1real / s / m) * e == w * e / (s * m), (1real / s / m) * (w * e) == w * e / (s * m),
{
    let q = 1real / s; let t = 1real / m;
    assert(q * s == 1real) by (nonlinear_arith) requires q == 1real / s, s != 0real;
    assert(t * m == 1real) by (nonlinear_arith) requires t == 1real / m, m != 0real;
    assert(q / m == q * t) by (nonlinear_arith) requires t * m == 1real, m != 0real;
    let g = s * m;
    assert((q * t) * g == 1real) by (nonlinear_arith) requires q * s == 1real, t * m == 1real, g == s * m;
    assert(w * e / g == w * e * (q * t) && e / g == e * (q * t)) by (nonlinear_arith) requires (q * t) * g == 1real;
    let u = q * t;
    assert(u * w * e == w * e * u && u * e == e * u && w * u * e == w * e * u && u * (w * e) == w * e * u) by (nonlinear_arith);
}
/// The gradient of the root: 2 * rms * grad is the gradient of the mean square, and rms * rms is the mean square.
pub proof fn rms_gradient<T: Float>(e: Seq<real>, w: Seq<real>, i: int)
    requires e.len() == w.len(), 0 <= i < e.len(), rsum(w) != 0real, sq(e, w) > 0real,
    ensures ({ let m = <Rmse as LossFn<T>>::total(&Rmse, e, w); m * m == sq(e, w) && 2real * m * <Rmse as LossFn<T>>::grad(&Rmse, e, w, i) == mgrad::<T, SquaredLoss>(SquaredLoss, e, w, i) }),
{
    sqrt_law(sq(e, w));
    let m = rsqrt(sq(e, w)); let s = rsum(w); let (wi, ei) = (w[i], e[i]);
    assert(m != 0real) by (nonlinear_arith) requires m * m > 0real;
    let g = s * m;
    assert(g != 0real) by (nonlinear_arith) requires g == s * m, s != 0real, m != 0real;
    let x = wi * ei / g; let q = 1real / s;
    assert(x * g == wi * ei) by (nonlinear_arith) requires x == wi * ei / g, g != 0real;
    assert(q * s == 1real) by (nonlinear_arith) requires q == 1real / s, s != 0real;
    let y = wi * (2real * ei) / s;
    assert(y == wi * (2real * ei) * q) by (nonlinear_arith) requires y == wi * (2real * ei) / s, q * s == 1real, s != 0real;
    assert((2real * m * x) * s == 2real * (x * g)) by (nonlinear_arith) requires g == s * m;
    assert(y * s == wi * (2real * ei)) by (nonlinear_arith) requires y == wi * (2real * ei) * q, q * s == 1real;
    assert(wi * (2real * ei) == 2real * (wi * ei)) by (nonlinear_arith);
    assert(2real * m * x == y) by (nonlinear_arith) requires (2real * m * x) * s == y * s, s != 0real;
}
