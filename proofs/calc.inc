=== raw
// ---- derivatives of the elementary functions (textbook table and rules, trusted) and what follows from them (proved) ----
#[verifier::external_body] pub proof fn d_sin(x: real) ensures is_deriv(|t: real| rsin(t), x, rcos(x)) { }
#[verifier::external_body] pub proof fn d_cos(x: real) ensures is_deriv(|t: real| rcos(t), x, -rsin(x)) { }
#[verifier::external_body] pub proof fn pythagoras(x: real) ensures rsin(x) * rsin(x) + rcos(x) * rcos(x) == 1real { }
#[verifier::external_body] pub proof fn d_asin(x: real) requires -1real < x < 1real ensures is_deriv(|t: real| rasin(t), x, 1real / rsqrt(1real - x * x)) { }
#[verifier::external_body] pub proof fn d_acos(x: real) requires -1real < x < 1real ensures is_deriv(|t: real| racos(t), x, -(1real / rsqrt(1real - x * x))) { }
#[verifier::external_body] pub proof fn d_atan(x: real) ensures is_deriv(|t: real| ratan(t), x, 1real / (1real + x * x)) { }
/// away from the negative x axis
#[verifier::external_body] pub proof fn d_atan2_y(y: real, x: real) requires y != 0real || x > 0real ensures is_deriv(|t: real| ratan2(t, x), y, x / (x * x + y * y)) { }
#[verifier::external_body] pub proof fn d_atan2_x(y: real, x: real) requires y != 0real || x > 0real ensures is_deriv(|t: real| ratan2(y, t), x, -(y / (x * x + y * y))) { }
#[verifier::external_body] pub proof fn d_sinh(x: real) ensures is_deriv(|t: real| rsinh(t), x, rcosh(x)) { }
#[verifier::external_body] pub proof fn d_cosh(x: real) ensures is_deriv(|t: real| rcosh(t), x, rsinh(x)) { }
#[verifier::external_body] pub proof fn hyperbola(x: real) ensures rcosh(x) * rcosh(x) - rsinh(x) * rsinh(x) == 1real, rcosh(x) >= 1real { }
#[verifier::external_body] pub proof fn tanh_is(x: real) ensures rtanh(x) == rsinh(x) / rcosh(x) { }
#[verifier::external_body] pub proof fn d_asinh(x: real) ensures is_deriv(|t: real| rasinh(t), x, 1real / rsqrt(x * x + 1real)) { }
#[verifier::external_body] pub proof fn d_acosh(x: real) requires x > 1real ensures is_deriv(|t: real| racosh(t), x, 1real / rsqrt(x * x - 1real)) { }
#[verifier::external_body] pub proof fn d_atanh(x: real) requires -1real < x < 1real ensures is_deriv(|t: real| ratanh(t), x, 1real / (1real - x * x)) { }
#[verifier::external_body] pub proof fn d_exp(x: real) ensures is_deriv(|t: real| rexp(t), x, rexp(x)) { }
#[verifier::external_body] pub proof fn d_ln(x: real) requires x > 0real ensures is_deriv(|t: real| rln(t), x, 1real / x) { }
#[verifier::external_body] pub proof fn ln_positive(x: real) requires x > 1real ensures rln(x) > 0real { }
#[verifier::external_body] pub proof fn d_sqrt(x: real) requires x > 0real ensures is_deriv(|t: real| rsqrt(t), x, 1real / (2real * rsqrt(x))) { }
#[verifier::external_body] pub proof fn d_cbrt(x: real) requires x != 0real ensures is_deriv(|t: real| rcbrt(t), x, 1real / (3real * (rcbrt(x) * rcbrt(x)))) { }
#[verifier::external_body] pub proof fn cbrt_law(x: real) ensures rcbrt(x) * rcbrt(x) * rcbrt(x) == x { }
#[verifier::external_body] pub proof fn d_pow_x(x: real, y: real) requires x > 0real ensures is_deriv(|t: real| rpow(t, y), x, y * rpow(x, y - 1real)) { }
#[verifier::external_body] pub proof fn d_pow_y(x: real, y: real) requires x > 0real ensures is_deriv(|t: real| rpow(x, t), y, rpow(x, y) * rln(x)) { }
#[verifier::external_body] pub proof fn pow_zero(x: real) ensures rpow(x, 0real) == 1real { }
#[verifier::external_body] pub proof fn zero_pow(y: real) requires y > 0real ensures rpow(0real, y) == 0real { }
/// the quotient rule
#[verifier::external_body] pub proof fn d_quot(f: spec_fn(real) -> real, g: spec_fn(real) -> real, x: real, a: real, b: real)
    requires is_deriv(f, x, a), is_deriv(g, x, b), g(x) != 0real
    ensures is_deriv(|t: real| f(t) / g(t), x, (a * g(x) - f(x) * b) / (g(x) * g(x))) { }
/// the one-argument restriction of f at x along argument i
pub open spec fn line(f: spec_fn(Seq<real>) -> real, x: Seq<real>, i: int) -> spec_fn(real) -> real { |t: real| f(x.update(i, t)) }
/// f along argument i is g around x[i]
pub proof fn der_near(f: spec_fn(Seq<real>) -> real, x: Seq<real>, i: int, g: spec_fn(real) -> real, d: real, delta: real)
    requires 0 <= i < x.len(), delta > 0real, forall|t: real| x[i] - delta < t < x[i] + delta ==> #[trigger] f(x.update(i, t)) == g(t), is_deriv(g, x[i], d),
    ensures is_deriv(line(f, x, i), x[i], d),
{
    let (c, d0) = choose|c: real, d0: real| near(g, x[i], d, c, d0);
    let e = if d0 < delta { d0 } else { delta };
    let l = line(f, x, i);
    assert forall|h: real| -e < h < e implies rabs(#[trigger] err(l, x[i], d, h)) <= c * (h * h) by {
        assert(f(x.update(i, x[i] + h)) == g(x[i] + h));
        assert(f(x.update(i, x[i])) == g(x[i]));
        assert(err(l, x[i], d, h) == err(g, x[i], d, h));
    }
    assert(near(l, x[i], d, c, e));
}
pub proof fn der(f: spec_fn(Seq<real>) -> real, x: Seq<real>, i: int, g: spec_fn(real) -> real, d: real)
    requires 0 <= i < x.len(), forall|t: real| #[trigger] f(x.update(i, t)) == g(t), is_deriv(g, x[i], d),
    ensures is_deriv(line(f, x, i), x[i], d),
{ der_near(f, x, i, g, d, 1real); }
/// a t + b
pub proof fn d_linear(x: real, a: real, b: real) ensures is_deriv(|t: real| a * t + b, x, a) {
    let f = |t: real| a * t + b;
    assert forall|h: real| -1real < h < 1real implies rabs(#[trigger] err(f, x, a, h)) <= 0real * (h * h) by {
        assert(a * (x + h) + b - (a * x + b) - h * a == 0real) by (nonlinear_arith);
        assert(0real * (h * h) == 0real) by (nonlinear_arith);
    }
    assert(near(f, x, a, 0real, 1real));
}
pub proof fn d_square(x: real) ensures is_deriv(|t: real| t * t, x, 2real * x) {
    let f = |t: real| t * t;
    assert forall|h: real| -1real < h < 1real implies rabs(#[trigger] err(f, x, 2real * x, h)) <= 1real * (h * h) by {
        assert((x + h) * (x + h) - x * x - h * (2real * x) == h * h) by (nonlinear_arith);
        assert(h * h >= 0real) by (nonlinear_arith);
    }
    assert(near(f, x, 2real * x, 1real, 1real));
}
/// k f
pub proof fn d_scale(f: spec_fn(real) -> real, x: real, d: real, k: real) requires is_deriv(f, x, d) ensures is_deriv(|t: real| k * f(t), x, k * d) {
    let (c, d0) = choose|c: real, d0: real| near(f, x, d, c, d0);
    let g = |t: real| k * f(t);
    let kk = rabs(k);
    assert forall|h: real| -d0 < h < d0 implies rabs(#[trigger] err(g, x, k * d, h)) <= (kk * c) * (h * h) by {
        let e = err(f, x, d, h);
        assert(rabs(e) <= c * (h * h));
        assert(k * f(x + h) - k * f(x) - h * (k * d) == k * e) by (nonlinear_arith) requires e == f(x + h) - f(x) - h * d;
        assert(err(g, x, k * d, h) == k * e);
        let m = c * (h * h);
        assert(rabs(k * e) <= kk * m) by (nonlinear_arith) requires rabs(e) <= m, kk == rabs(k), rabs(k * e) == (if k * e < 0real { -(k * e) } else { k * e }), rabs(e) == (if e < 0real { -e } else { e }), kk == (if k < 0real { -k } else { k });
        assert(kk * m == (kk * c) * (h * h)) by (nonlinear_arith) requires m == c * (h * h);
    }
    assert(near(g, x, k * d, kk * c, d0));
}
/// f(k t), k > 0
pub proof fn d_inner(f: spec_fn(real) -> real, x: real, d: real, k: real) requires k > 0real, is_deriv(f, k * x, d) ensures is_deriv(|t: real| f(k * t), x, k * d) {
    let y = k * x;
    let (c, d0) = choose|c: real, d0: real| near(f, y, d, c, d0);
    let g = |t: real| f(k * t);
    let dd = d0 / k;
    assert(dd > 0real && k * dd == d0) by (nonlinear_arith) requires dd == d0 / k, k > 0real, d0 > 0real;
    assert forall|h: real| -dd < h < dd implies rabs(#[trigger] err(g, x, k * d, h)) <= (c * (k * k)) * (h * h) by {
        let u = k * h;
        assert(-d0 < u < d0) by (nonlinear_arith) requires u == k * h, -dd < h < dd, k > 0real, k * dd == d0;
        assert(k * (x + h) == k * x + u) by (nonlinear_arith) requires u == k * h;
        assert(rabs(err(f, k * x, d, u)) <= c * (u * u));
        assert(h * (k * d) == u * d) by (nonlinear_arith) requires u == k * h;
        assert(c * (u * u) == (c * (k * k)) * (h * h)) by (nonlinear_arith) requires u == k * h;
    }
    assert(near(g, x, k * d, c * (k * k), dd));
}
/// f(t + k) + m
pub proof fn d_shift(f: spec_fn(real) -> real, x: real, d: real, k: real, m: real) requires is_deriv(f, k + x, d) ensures is_deriv(|t: real| f(k + t) + m, x, d) {
    let y = k + x;
    let (c, d0) = choose|c: real, d0: real| near(f, y, d, c, d0);
    let g = |t: real| f(k + t) + m;
    assert forall|h: real| -d0 < h < d0 implies rabs(#[trigger] err(g, x, d, h)) <= c * (h * h) by {
        assert(k + (x + h) == (k + x) + h);
        assert(rabs(err(f, k + x, d, h)) <= c * (h * h));
    }
    assert(near(g, x, d, c, d0));
}
pub proof fn sqrt_pos(x: real) requires x > 0real ensures rsqrt(x) > 0real, rsqrt(x) * rsqrt(x) == x {
    sqrt_law(x);
    let s = rsqrt(x);
    assert(s != 0real) by (nonlinear_arith) requires s * s == x, x > 0real;
}
pub proof fn sqrt_mul(a: real, b: real) requires a > 0real, b > 0real ensures rsqrt(a) * rsqrt(b) == rsqrt(a * b) {
    assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real;
    sqrt_pos(a); sqrt_pos(b); sqrt_pos(a * b);
    let (p, q, r) = (rsqrt(a), rsqrt(b), rsqrt(a * b));
    let s = p * q;
    assert(s > 0real) by (nonlinear_arith) requires s == p * q, p > 0real, q > 0real;
    assert(s * s == r * r) by (nonlinear_arith) requires s == p * q, p * p == a, q * q == b, r * r == a * b;
    assert(s == r) by (nonlinear_arith) requires s > 0real, r > 0real, s * s == r * r;
}
