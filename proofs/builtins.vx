# dynamic_expressions: every built-in operator computes its named function, and its partial is the derivative of that function
=== include prelude.inc
=== include realfloat.inc
=== include calc.inc
=== raw
/// A built-in operator of arity A: the function it denotes, where it is defined, and where it is differentiable.
pub trait Operator<T: Float, const A: usize> {
    spec fn f() -> spec_fn(Seq<real>) -> real;
    spec fn dom(x: Seq<real>) -> bool;
    spec fn smooth(x: Seq<real>, idx: int) -> bool;
    fn eval(args: &[T; A]) -> (r: T) ensures Self::dom(reals(args@)) ==> r.r() == Self::f()(reals(args@));
    fn partial(args: &[T; A], idx: usize) -> (r: T)
        requires idx < A,
        ensures Self::smooth(reals(args@), idx as int) ==> is_deriv(line(Self::f(), reals(args@), idx as int), reals(args@)[idx as int], r.r());
}
pub proof fn lit_laws() ensures forall|x: Fx| (#[trigger] fx_num(x)) * 1real == fx_num(x) { }
pub proof fn commute(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn sq_nonzero(c: real) requires c != 0real ensures c * c != 0real, c * c > 0real { assert(c * c > 0real) by (nonlinear_arith) requires c != 0real; }
pub proof fn neg_mul(a: real, b: real) ensures a * -b == -(a * b) { assert(a * -b == -(a * b)) by (nonlinear_arith); }
pub proof fn square_nonneg(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn unit_square(x: real) requires -1real < x < 1real ensures x * x < 1real { assert(x * x < 1real) by (nonlinear_arith) requires -1real < x < 1real; }
pub proof fn neg_quot(a: real, b: real) requires b != 0real ensures -a / b == -(a / b) { assert(-a / b == -(a / b)) by (nonlinear_arith) requires b != 0real; }
pub proof fn diff_squares(x: real) requires x > 1real ensures (x - 1real) * (x + 1real) == x * x - 1real, x * x > 1real {
    assert((x - 1real) * (x + 1real) == x * x - 1real) by (nonlinear_arith);
    assert(x * x > 1real) by (nonlinear_arith) requires x > 1real;
}
pub proof fn quot_mul(a: real, b: real) requires b != 0real ensures a / b == 1real / b * a { assert(a / b == 1real / b * a) by (nonlinear_arith) requires b != 0real; }
pub proof fn inv_quot(a: real, b: real) requires a != 0real, b != 0real ensures a / b != 0real, 1real / (a / b) == b / a {
    let q = a / b; let p = b / a;
    assert(q * b == a) by (nonlinear_arith) requires q == a / b, b != 0real;
    assert(p * a == b) by (nonlinear_arith) requires p == b / a, a != 0real;
    assert(q != 0real) by (nonlinear_arith) requires q * b == a, a != 0real;
    assert(q * p == 1real) by (nonlinear_arith) requires q * b == a, p * a == b, a != 0real, b != 0real;
    assert(1real / q == p) by (nonlinear_arith) requires q * p == 1real, q != 0real;
}
pub proof fn quot_quot(x: real, l: real) requires x > 0real, l > 0real ensures x * l != 0real, 1real / l * (1real / x) == 1real / (x * l) {
    assert(x * l > 0real) by (nonlinear_arith) requires x > 0real, l > 0real;
    let (a, b) = (1real / l, 1real / x);
    assert(a * l == 1real) by (nonlinear_arith) requires a == 1real / l, l > 0real;
    assert(b * x == 1real) by (nonlinear_arith) requires b == 1real / x, x > 0real;
    let m = x * l; let p = a * b;
    assert(p * m == 1real) by (nonlinear_arith) requires a * l == 1real, b * x == 1real, m == x * l, p == a * b;
    assert(p == 1real / m) by (nonlinear_arith) requires p * m == 1real, m > 0real;
}
/// (0 c - 1 (-s)) / c^2 = (1/c) (s/c)
pub proof fn sec_form(c: real, s: real) requires c != 0real ensures (0real * c - 1real * -s) / (c * c) == 1real / c * (s / c) {
    sq_nonzero(c);
    let (a, b) = (1real / c, s / c);
    assert(a * c == 1real) by (nonlinear_arith) requires a == 1real / c, c != 0real;
    assert(b * c == s) by (nonlinear_arith) requires b == s / c, c != 0real;
    let m = c * c; let p = a * b;
    assert(p * m == s) by (nonlinear_arith) requires a * c == 1real, b * c == s, m == c * c, p == a * b;
    assert(p == s / m) by (nonlinear_arith) requires p * m == s, m > 0real;
    assert(0real * c - 1real * -s == s);
}
/// (0 s - 1 c) / s^2 = -(1/s) (1 / (s/c))
pub proof fn csc_form(c: real, s: real) requires c != 0real, s != 0real ensures s / c != 0real, (0real * s - 1real * c) / (s * s) == -(1real / s) * (1real / (s / c)) {
    inv_quot(s, c); sq_nonzero(s);
    let (a, b) = (1real / s, c / s);
    assert(a * s == 1real) by (nonlinear_arith) requires a == 1real / s, s != 0real;
    assert(b * s == c) by (nonlinear_arith) requires b == c / s, s != 0real;
    let m = s * s; let p = -a * b;
    assert(p * m == -c) by (nonlinear_arith) requires a * s == 1real, b * s == c, m == s * s, p == -a * b;
    assert(p == -c / m) by (nonlinear_arith) requires p * m == -c, m > 0real;
    assert(0real * s - 1real * c == -c);
}
pub proof fn cot_form(c: real, s: real) requires s != 0real, s * s + c * c == 1real ensures (-s * s - c * c) / (s * s) == -1real / (s * s) {
    assert(-s * s == -(s * s)) by (nonlinear_arith);
}
pub proof fn cbrt_nonzero(x: real) requires x != 0real ensures rcbrt(x) != 0real, rcbrt(x) * rcbrt(x) > 0real, 3real * (rcbrt(x) * rcbrt(x)) != 0real {
    cbrt_law(x);
    let c = rcbrt(x);
    assert(c != 0real) by (nonlinear_arith) requires c * c * c == x, x != 0real;
    sq_nonzero(c);
}
pub proof fn sum_squares(a: real, b: real) requires a != 0real || b != 0real ensures b * b + a * a > 0real {
    square_nonneg(a); square_nonneg(b);
    if a != 0real { sq_nonzero(a); } else { sq_nonzero(b); }
}
/// below the lower bound the lower bound, else above the upper bound the upper bound, else the value itself
pub open spec fn clampf(x: real, lo: real, hi: real) -> real { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn clamp_sel(x: real, lo: real, hi: real) -> int { if x < lo { 1 } else if x > hi { 2 } else { 0 } }
pub open spec fn clamp_slope(x: real, lo: real, hi: real, i: int) -> real { if clamp_sel(x, lo, hi) == i { 1real } else { 0real } }
pub open spec fn clamp_rest(x: real, lo: real, hi: real, i: int) -> real { if clamp_sel(x, lo, hi) == i { 0real } else { clampf(x, lo, hi) } }
pub open spec fn gap3(x: real, lo: real, hi: real) -> real { let (a, b) = (rabs(x - lo), rabs(x - hi)); if a < b { a } else { b } }
=== fn @dynamic_expressions two
--- ret r
--- spec
ensures r.r() == 2real,
--- entry
proof { T::laws(); }
=== type @dynamic_expressions Cos
=== type @dynamic_expressions Sin
=== type @dynamic_expressions Tan
=== type @dynamic_expressions Asin
=== type @dynamic_expressions Acos
=== type @dynamic_expressions Atan
=== type @dynamic_expressions Sinh
=== type @dynamic_expressions Cosh
=== type @dynamic_expressions Tanh
=== type @dynamic_expressions Asinh
=== type @dynamic_expressions Acosh
=== type @dynamic_expressions Atanh
=== type @dynamic_expressions Sec
=== type @dynamic_expressions Csc
=== type @dynamic_expressions Cot
=== type @dynamic_expressions Exp
=== type @dynamic_expressions Log
=== type @dynamic_expressions Log2
=== type @dynamic_expressions Log10
=== type @dynamic_expressions Log1p
=== type @dynamic_expressions Exp2
=== type @dynamic_expressions Expm1
=== type @dynamic_expressions Sqrt
=== type @dynamic_expressions Cbrt
=== type @dynamic_expressions Abs
=== type @dynamic_expressions Abs2
=== type @dynamic_expressions Inv
=== type @dynamic_expressions Sign
=== type @dynamic_expressions Identity
=== type @dynamic_expressions Neg
=== type @dynamic_expressions Add
=== type @dynamic_expressions Sub
=== type @dynamic_expressions Mul
=== type @dynamic_expressions Div
=== type @dynamic_expressions Pow
=== type @dynamic_expressions Atan2
=== type @dynamic_expressions Min
=== type @dynamic_expressions Max
=== type @dynamic_expressions Fma
=== type @dynamic_expressions Clamp
=== fn @dynamic_expressions Cos@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rcos(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Cos@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_cos(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rcos(t), -rsin(x[0])); }
}
=== fn @dynamic_expressions Sin@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rsin(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Sin@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_sin(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rsin(t), rcos(x[0])); }
}
=== fn @dynamic_expressions Tan@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rsin(x[0]) / rcos(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { rcos(x[0]) != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { rcos(x[0]) != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Tan@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { pythagoras(x[0]); sq_nonzero(rcos(x[0])); neg_mul(rsin(x[0]), rsin(x[0])); d_sin(x[0]); d_cos(x[0]); d_quot(|t: real| rsin(t), |t: real| rcos(t), x[0], rcos(x[0]), -rsin(x[0])); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| rsin(t))(t) / (|t: real| rcos(t))(t), 1real / (rcos(x[0]) * rcos(x[0]))); }
}
=== fn @dynamic_expressions Asin@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rasin(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { -1real <= x[0] <= 1real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { -1real < x[0] < 1real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Asin@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { unit_square(x[0]); sqrt_pos(1real - x[0] * x[0]); d_asin(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rasin(t), 1real / rsqrt(1real - x[0] * x[0])); }
}
=== fn @dynamic_expressions Acos@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| racos(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { -1real <= x[0] <= 1real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { -1real < x[0] < 1real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Acos@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { unit_square(x[0]); sqrt_pos(1real - x[0] * x[0]); neg_quot(1real, rsqrt(1real - x[0] * x[0])); d_acos(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| racos(t), -(1real / rsqrt(1real - x[0] * x[0]))); }
}
=== fn @dynamic_expressions Atan@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| ratan(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Atan@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { square_nonneg(x[0]); d_atan(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| ratan(t), 1real / (1real + x[0] * x[0])); }
}
=== fn @dynamic_expressions Sinh@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rsinh(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Sinh@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_sinh(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rsinh(t), rcosh(x[0])); }
}
=== fn @dynamic_expressions Cosh@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rcosh(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Cosh@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_cosh(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rcosh(t), rsinh(x[0])); }
}
=== fn @dynamic_expressions Tanh@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rtanh(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Tanh@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { hyperbola(x[0]); sq_nonzero(rcosh(x[0])); d_sinh(x[0]); d_cosh(x[0]); d_quot(|t: real| rsinh(t), |t: real| rcosh(t), x[0], rcosh(x[0]), rsinh(x[0])); assert forall|t: real| #[trigger] rtanh(t) == rsinh(t) / rcosh(t) by { tanh_is(t); } der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| rsinh(t))(t) / (|t: real| rcosh(t))(t), 1real / (rcosh(x[0]) * rcosh(x[0]))); }
}
=== fn @dynamic_expressions Asinh@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rasinh(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Asinh@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { square_nonneg(x[0]); sqrt_pos(x[0] * x[0] + 1real); d_asinh(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rasinh(t), 1real / rsqrt(x[0] * x[0] + 1real)); }
}
=== fn @dynamic_expressions Acosh@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| racosh(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { x[0] >= 1real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > 1real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Acosh@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { sqrt_pos(x[0] - 1real); sqrt_pos(x[0] + 1real); sqrt_mul(x[0] - 1real, x[0] + 1real); diff_squares(x[0]); sqrt_pos(x[0] * x[0] - 1real); d_acosh(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| racosh(t), 1real / rsqrt(x[0] * x[0] - 1real)); }
}
=== fn @dynamic_expressions Atanh@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| ratanh(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { -1real < x[0] < 1real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { -1real < x[0] < 1real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Atanh@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { unit_square(x[0]); d_atanh(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| ratanh(t), 1real / (1real - x[0] * x[0])); }
}
=== fn @dynamic_expressions Sec@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| 1real / rcos(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { rcos(x[0]) != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { rcos(x[0]) != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Sec@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { sec_form(rcos(x[0]), rsin(x[0])); d_linear(x[0], 0real, 1real); d_cos(x[0]); d_quot(|t: real| 0real * t + 1real, |t: real| rcos(t), x[0], 0real, -rsin(x[0])); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| 0real * t + 1real)(t) / (|t: real| rcos(t))(t), __ret.r()); }
}
=== fn @dynamic_expressions Csc@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| 1real / rsin(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { rsin(x[0]) != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { rsin(x[0]) != 0real && rcos(x[0]) != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Csc@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { csc_form(rcos(x[0]), rsin(x[0])); d_linear(x[0], 0real, 1real); d_sin(x[0]); d_quot(|t: real| 0real * t + 1real, |t: real| rsin(t), x[0], 0real, rcos(x[0])); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| 0real * t + 1real)(t) / (|t: real| rsin(t))(t), __ret.r()); }
}
=== fn @dynamic_expressions Cot@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rcos(x[0]) / rsin(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { rsin(x[0]) != 0real && rcos(x[0]) != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { rsin(x[0]) != 0real }
--- entry
proof { T::laws(); let x = reals(args@); if <Self as Operator<T, 1>>::dom(x) { inv_quot(rsin(x[0]), rcos(x[0])); } }
=== fn @dynamic_expressions Cot@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { pythagoras(x[0]); sq_nonzero(rsin(x[0])); cot_form(rcos(x[0]), rsin(x[0])); d_cos(x[0]); d_sin(x[0]); d_quot(|t: real| rcos(t), |t: real| rsin(t), x[0], -rsin(x[0]), rcos(x[0])); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| rcos(t))(t) / (|t: real| rsin(t))(t), __ret.r()); }
}
=== fn @dynamic_expressions Exp@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rexp(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Exp@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_exp(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rexp(t), rexp(x[0])); }
}
=== fn @dynamic_expressions Log@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rln(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { x[0] > 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Log@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_ln(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rln(t), 1real / x[0]); }
}
=== fn @dynamic_expressions Log2@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rln(x[0]) / rln(2real) }
open spec fn dom(x: Seq<real>) -> bool { x[0] > 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Log2@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { ln_positive(2real); quot_quot(x[0], rln(2real)); d_ln(x[0]); d_scale(|t: real| rln(t), x[0], 1real / x[0], 1real / rln(2real)); assert forall|t: real| #[trigger] <Self as Operator<T, 1>>::f()(x.update(0, t)) == 1real / rln(2real) * rln(t) by { quot_mul(rln(t), rln(2real)); } der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| 1real / rln(2real) * (|t: real| rln(t))(t), __ret.r()); }
}
=== fn @dynamic_expressions Log10@Operator<T,1>::eval
--- opt implopen fx nomax
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rln(x[0]) / rln(10real) }
open spec fn dom(x: Seq<real>) -> bool { x[0] > 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Log10@Operator<T,1>::partial
--- opt implcont fx nomax
--- entry
proof { T::laws(); lit_laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { ln_positive(10real); quot_quot(x[0], rln(10real)); d_ln(x[0]); d_scale(|t: real| rln(t), x[0], 1real / x[0], 1real / rln(10real)); assert forall|t: real| #[trigger] <Self as Operator<T, 1>>::f()(x.update(0, t)) == 1real / rln(10real) * rln(t) by { quot_mul(rln(t), rln(10real)); } der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| 1real / rln(10real) * (|t: real| rln(t))(t), __ret.r()); }
}
=== fn @dynamic_expressions Log1p@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rln(1real + x[0]) }
open spec fn dom(x: Seq<real>) -> bool { x[0] > -1real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > -1real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Log1p@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_ln(1real + x[0]); d_shift(|t: real| rln(t), x[0], 1real / (1real + x[0]), 1real, 0real); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| rln(t))(1real + t) + 0real, 1real / (1real + x[0])); }
}
=== fn @dynamic_expressions Exp2@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rexp(x[0] * rln(2real)) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Exp2@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  ln_positive(2real); let k = rln(2real); commute(k, x[0]); commute(rexp(k * x[0]), k); d_exp(k * x[0]); d_inner(|t: real| rexp(t), x[0], rexp(k * x[0]), k); assert forall|t: real| #[trigger] <Self as Operator<T, 1>>::f()(x.update(0, t)) == rexp(k * t) by { commute(k, t); } der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| rexp(t))(k * t), k * rexp(k * x[0])); }
}
=== fn @dynamic_expressions Expm1@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rexp(x[0]) - 1real }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Expm1@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { assert(0real + x[0] == x[0]); d_exp(x[0]); d_shift(|t: real| rexp(t), x[0], rexp(x[0]), 0real, -1real); assert forall|t: real| #[trigger] rexp(0real + t) == rexp(t) by { assert(0real + t == t); } der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| rexp(t))(0real + t) + -1real, rexp(x[0])); }
}
=== fn @dynamic_expressions Sqrt@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rsqrt(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { x[0] >= 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Sqrt@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { sqrt_pos(x[0]); d_sqrt(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rsqrt(t), 1real / (2real * rsqrt(x[0]))); }
}
=== fn @dynamic_expressions Cbrt@Operator<T,1>::eval
--- opt implopen fx nomax
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rcbrt(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Cbrt@Operator<T,1>::partial
--- opt implcont fx nomax
--- entry
proof { T::laws(); lit_laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { cbrt_nonzero(x[0]); d_cbrt(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| rcbrt(t), __ret.r()); }
}
=== fn @dynamic_expressions Abs@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rabs(x[0]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Abs@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { d_linear(x[0], if x[0] > 0real { 1real } else { -1real }, 0real); der_near(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (if x[0] > 0real { 1real } else { -1real }) * t + 0real, __ret.r(), rabs(x[0])); }
}
=== fn @dynamic_expressions Abs2@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] * x[0] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Abs2@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) {  d_square(x[0]); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| t * t, 2real * x[0]); }
}
=== fn @dynamic_expressions Inv@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| 1real / x[0] }
open spec fn dom(x: Seq<real>) -> bool { x[0] != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Inv@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { sq_nonzero(x[0]);  d_linear(x[0], 0real, 1real); d_linear(x[0], 1real, 0real); d_quot(|t: real| 0real * t + 1real, |t: real| 1real * t + 0real, x[0], 0real, 1real); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| (|t: real| 0real * t + 1real)(t) / (|t: real| 1real * t + 0real)(t), __ret.r()); }
}
=== fn @dynamic_expressions Sign@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| if x[0] > 0real { 1real } else { -1real } }
open spec fn dom(x: Seq<real>) -> bool { x[0] != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Sign@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { d_linear(x[0], 0real, <Self as Operator<T, 1>>::f()(x)); der_near(<Self as Operator<T, 1>>::f(), x, 0, |t: real| 0real * t + <Self as Operator<T, 1>>::f()(x), 0real, rabs(x[0])); }
}
=== fn @dynamic_expressions Identity@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Identity@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { d_linear(x[0], 1real, 0real); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| 1real * t + 0real, 1real); }
}
=== fn @dynamic_expressions Neg@Operator<T,1>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| -x[0] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Neg@Operator<T,1>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 1>>::smooth(x, idx as int) { d_linear(x[0], -1real, 0real); der(<Self as Operator<T, 1>>::f(), x, 0, |t: real| -1real * t + 0real, -1real); }
}
=== fn @dynamic_expressions Add@Operator<T,2>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] + x[1] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Add@Operator<T,2>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) { if idx == 0 { d_linear(x[0], 1real, x[1]); der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| 1real * t + x[1], 1real); } else if idx == 1 { d_linear(x[1], 1real, x[0]); der(<Self as Operator<T, 2>>::f(), x, 1, |t: real| 1real * t + x[0], 1real); } }
}
=== fn @dynamic_expressions Sub@Operator<T,2>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] - x[1] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Sub@Operator<T,2>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) { if idx == 0 { d_linear(x[0], 1real, -x[1]); der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| 1real * t + -x[1], 1real); } else if idx == 1 { d_linear(x[1], -1real, x[0]); der(<Self as Operator<T, 2>>::f(), x, 1, |t: real| -1real * t + x[0], -1real); } }
}
=== fn @dynamic_expressions Mul@Operator<T,2>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] * x[1] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Mul@Operator<T,2>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) {  if idx == 0 { d_linear(x[0], x[1], 0real); assert forall|t: real| #[trigger] <Self as Operator<T, 2>>::f()(x.update(0, t)) == x[1] * t + 0real by { commute(t, x[1]); } der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| x[1] * t + 0real, x[1]); } else if idx == 1 { d_linear(x[1], x[0], 0real); der(<Self as Operator<T, 2>>::f(), x, 1, |t: real| x[0] * t + 0real, x[0]); } }
}
=== fn @dynamic_expressions Div@Operator<T,2>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] / x[1] }
open spec fn dom(x: Seq<real>) -> bool { x[1] != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[1] != 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Div@Operator<T,2>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) { sq_nonzero(x[1]); if idx == 0 { d_linear(x[0], 1real / x[1], 0real); assert forall|t: real| #[trigger] <Self as Operator<T, 2>>::f()(x.update(0, t)) == 1real / x[1] * t + 0real by { quot_mul(t, x[1]); } der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| 1real / x[1] * t + 0real, 1real / x[1]); } else if idx == 1 { d_linear(x[1], 0real, x[0]); d_linear(x[1], 1real, 0real); d_quot(|t: real| 0real * t + x[0], |t: real| 1real * t + 0real, x[1], 0real, 1real); der(<Self as Operator<T, 2>>::f(), x, 1, |t: real| (|t: real| 0real * t + x[0])(t) / (|t: real| 1real * t + 0real)(t), __ret.r()); } }
}
=== fn @dynamic_expressions Pow@Operator<T,2>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| rpow(x[0], x[1]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] > 0real || (idx == 0 && x[1] == 0real) || (idx == 1 && x[0] == 0real && x[1] > 0real) }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Pow@Operator<T,2>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) {
        if idx == 0 && x[1] == 0real {
            assert forall|t: real| #[trigger] <Self as Operator<T, 2>>::f()(x.update(0, t)) == (|t: real| 0real * t + 1real)(t) by { pow_zero(t); }
            d_linear(x[0], 0real, 1real);
            der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| 0real * t + 1real, 0real);
        } else if idx == 1 && x[0] == 0real {
            assert forall|t: real| x[1] - x[1] < t < x[1] + x[1] implies #[trigger] <Self as Operator<T, 2>>::f()(x.update(1, t)) == (|t: real| 0real * t + 0real)(t) by { zero_pow(t); }
            d_linear(x[1], 0real, 0real);
            der_near(<Self as Operator<T, 2>>::f(), x, 1, |t: real| 0real * t + 0real, 0real, x[1]);
        } else if idx == 0 { d_pow_x(x[0], x[1]); der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| rpow(t, x[1]), x[1] * rpow(x[0], x[1] - 1real)); } else if idx == 1 { d_pow_y(x[0], x[1]); der(<Self as Operator<T, 2>>::f(), x, 1, |t: real| rpow(x[0], t), rpow(x[0], x[1]) * rln(x[0])); } }
}
=== fn @dynamic_expressions Atan2@Operator<T,2>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| ratan2(x[0], x[1]) }
open spec fn dom(x: Seq<real>) -> bool { x[0] != 0real || x[1] != 0real }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != 0real || x[1] > 0real }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Atan2@Operator<T,2>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) { sum_squares(x[0], x[1]); neg_quot(x[0], x[1] * x[1] + x[0] * x[0]); if idx == 0 { d_atan2_y(x[0], x[1]); der(<Self as Operator<T, 2>>::f(), x, 0, |t: real| ratan2(t, x[1]), x[1] / (x[1] * x[1] + x[0] * x[0])); } else if idx == 1 { d_atan2_x(x[0], x[1]); der(<Self as Operator<T, 2>>::f(), x, 1, |t: real| ratan2(x[0], t), -(x[0] / (x[1] * x[1] + x[0] * x[0]))); } }
}
=== fn @dynamic_expressions Min@Operator<T,2>::eval
--- opt implopen nomax
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| if x[0] < x[1] { x[0] } else { x[1] } }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != x[1] }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Min@Operator<T,2>::partial
--- opt implcont fx nomax
--- entry
proof { T::laws(); lit_laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) { if idx == 0 { let k = if x[0] < x[1] { 1real } else { 0real }; let m = if x[0] < x[1] { 0real } else { x[1] }; d_linear(x[0], k, m); der_near(<Self as Operator<T, 2>>::f(), x, 0, |t: real| k * t + m, k, rabs(x[0] - x[1])); } else if idx == 1 { let k = if x[0] < x[1] { 0real } else { 1real }; let m = if x[0] < x[1] { x[0] } else { 0real }; d_linear(x[1], k, m); der_near(<Self as Operator<T, 2>>::f(), x, 1, |t: real| k * t + m, k, rabs(x[0] - x[1])); } }
}
=== fn @dynamic_expressions Max@Operator<T,2>::eval
--- opt implopen nomax
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| if x[0] > x[1] { x[0] } else { x[1] } }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != x[1] }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Max@Operator<T,2>::partial
--- opt implcont fx nomax
--- entry
proof { T::laws(); lit_laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 2>>::smooth(x, idx as int) { if idx == 0 { let k = if x[0] > x[1] { 1real } else { 0real }; let m = if x[0] > x[1] { 0real } else { x[1] }; d_linear(x[0], k, m); der_near(<Self as Operator<T, 2>>::f(), x, 0, |t: real| k * t + m, k, rabs(x[0] - x[1])); } else if idx == 1 { let k = if x[0] > x[1] { 0real } else { 1real }; let m = if x[0] > x[1] { x[0] } else { 0real }; d_linear(x[1], k, m); der_near(<Self as Operator<T, 2>>::f(), x, 1, |t: real| k * t + m, k, rabs(x[0] - x[1])); } }
}
=== fn @dynamic_expressions Fma@Operator<T,3>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| x[0] * x[1] + x[2] }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { true }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Fma@Operator<T,3>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 3>>::smooth(x, idx as int) { if idx == 0 { d_linear(x[0], x[1], x[2]); assert forall|t: real| #[trigger] <Self as Operator<T, 3>>::f()(x.update(0, t)) == x[1] * t + x[2] by { commute(t, x[1]); } der(<Self as Operator<T, 3>>::f(), x, 0, |t: real| x[1] * t + x[2], x[1]); } else if idx == 1 { d_linear(x[1], x[0], x[2]); der(<Self as Operator<T, 3>>::f(), x, 1, |t: real| x[0] * t + x[2], x[0]); } else if idx == 2 { d_linear(x[2], 1real, x[0] * x[1]); der(<Self as Operator<T, 3>>::f(), x, 2, |t: real| 1real * t + x[0] * x[1], 1real); } }
}
=== fn @dynamic_expressions Clamp@Operator<T,3>::eval
--- opt implopen 
--- implhead
open spec fn f() -> spec_fn(Seq<real>) -> real { |x: Seq<real>| clampf(x[0], x[1], x[2]) }
open spec fn dom(x: Seq<real>) -> bool { true }
open spec fn smooth(x: Seq<real>, idx: int) -> bool { x[0] != x[1] && x[0] != x[2] && x[1] != x[2] }
--- entry
proof { T::laws(); let x = reals(args@);  }
=== fn @dynamic_expressions Clamp@Operator<T,3>::partial
--- opt implcont 
--- entry
proof { T::laws(); let x = reals(args@);  }
--- exit
proof {
    let x = reals(args@);
    if <Self as Operator<T, 3>>::smooth(x, idx as int) { if idx == 0 { let k = clamp_slope(x[0], x[1], x[2], 0); let m = clamp_rest(x[0], x[1], x[2], 0); d_linear(x[0], k, m); der_near(<Self as Operator<T, 3>>::f(), x, 0, |t: real| k * t + m, k, gap3(x[0], x[1], x[2])); } else if idx == 1 { let k = clamp_slope(x[0], x[1], x[2], 1); let m = clamp_rest(x[0], x[1], x[2], 1); d_linear(x[1], k, m); der_near(<Self as Operator<T, 3>>::f(), x, 1, |t: real| k * t + m, k, gap3(x[0], x[1], x[2])); } else if idx == 2 { let k = clamp_slope(x[0], x[1], x[2], 2); let m = clamp_rest(x[0], x[1], x[2], 2); d_linear(x[2], k, m); der_near(<Self as Operator<T, 3>>::f(), x, 2, |t: real| k * t + m, k, gap3(x[0], x[1], x[2])); } }
}
