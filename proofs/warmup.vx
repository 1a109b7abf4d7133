# symbolic_regression: the size limit during warm-up
=== include prelude.inc
=== include node.inc
=== include float_sr.inc
=== include fx32.inc
=== include options.inc
=== raw
// Rounding moves a real of ordinary magnitude (at least 2^-80) by a relative error below 2^-20 (f32: 2^-24).
#[verifier::external_body]
pub proof fn rnd_error(x: real)
    requires x * 1208925819614629174706176real >= 1real,
    ensures rnd(x) * 1048576real <= x * 1048577real, rnd(x) * 2real >= x,
{ }
pub open spec fn fx_fraction(total: int, left: int) -> Fx { fx_int(if left <= total { total - left } else { 0 }).s_div(fx_int(total)) }
/// warm-up applies
pub open spec fn warming<T: Float, const D: usize>(o: Options<T, D>, total: int, left: int) -> bool {
    let f = fx_fraction(total, left);
    !o.warmup_maxsize_by.isnan() && o.warmup_maxsize_by.k() > 0real && !f.isnan() && f.k() <= o.warmup_maxsize_by.k()
}
pub open spec fn small(m: int) -> int { if m < 3 { m } else { 3 } }
pub open spec fn step_of(m: int, f: Fx, w: Fx) -> Fx { fx_int(m).s_mul(f).s_div(w) }
/// `x as usize`
pub open spec fn cast(x: Fx) -> int { if x.isnan() || x.k() < 0real { 0 } else if x.k() >= usize::MAX as real { usize::MAX as int } else { x.k().floor() } }
/// the part of the room `m` above the start that is open
pub open spec fn share(m: int, f: Fx, w: Fx) -> int { let c = cast(step_of(m, f, w).s_floor()); if c <= m { c } else { m } }
pub open spec fn limit<T: Float, const D: usize>(o: Options<T, D>, total: int, left: int) -> int {
    if warming(o, total, left) { small(o.maxsize as int) + share(o.maxsize - small(o.maxsize as int), fx_fraction(total, left), o.warmup_maxsize_by) } else { o.maxsize as int }
}
pub proof fn fraction_facts(total: int, left: int)
    requires 0 < total <= usize::MAX, 0 <= left,
    ensures ({ let f = fx_fraction(total, left); f.isfin() && 0real <= f.k() <= 1real && (left >= total ==> f.k() == 0real) && (f.k() > 0real ==> f.k() * 295147905179352825856real >= 1real) }), fx_int(total).isfin(), fx_int(total).k() >= 1real,
{
    fx_laws(); fx_int_law();
    let e = if left <= total { total - left } else { 0 };
    int_finite(total); int_finite(e);
    let a = fx_int(e).k(); let b = fx_int(total).k();
    assert(rnd(e as real) <= rnd(total as real));
    assert(rnd(1real) <= rnd(total as real));
    assert(rnd(0real) <= rnd(e as real));
    quot(a, b);
    assert(rnd(0real) <= rnd(a / b) && rnd(a / b) <= rnd(1real));
    if e >= 1 {
        assert(rnd(1real) <= rnd(e as real));
        let t = total as real;
        assert(t * 1208925819614629174706176real >= 1real);
        rnd_error(t);
        assert(b <= 2real * t && t <= 18446744073709551615real);
        let x = a / b;
        assert(x * 36893488147419103232real >= 1real) by (nonlinear_arith) requires x == a / b, a >= 1real, b > 0real, b <= 36893488147419103230real;
        rnd_error(x);
    }
}
/// machine integers are far below the largest float
#[verifier::external_body]
pub proof fn int_finite(n: int)
    requires -73786976294838206464 <= n <= 73786976294838206464,   // 2^66
    ensures fx_int(n).isfin(),
{ }
pub proof fn quot(a: real, b: real)
    requires 0real <= a <= b, b > 0real,
    ensures 0real <= a / b <= 1real, a == 0real ==> a / b == 0real,
{
    assert(0real <= a / b <= 1real) by (nonlinear_arith) requires 0real <= a <= b, b > 0real;
    assert(a == 0real ==> a / b == 0real) by (nonlinear_arith) requires b > 0real;
}
/// the step is an ordinary number, never negative
pub proof fn step_bound(m: int, f: Fx, w: Fx)
    requires 0 <= m <= usize::MAX, f.isfin(), 0real <= f.k() <= 1real, f.k() <= w.k(), w.isfin(), w.k() > 0real, f.k() > 0real ==> f.k() * 295147905179352825856real >= 1real,
    ensures step_of(m, f, w).isfin(), step_of(m, f, w).k() >= 0real, f.k() == 0real ==> step_of(m, f, w).k() == 0real,
        step_of(m, f, w).k() == rnd(rnd(fx_int(m).k() * f.k()) / w.k()), fx_int(m).k() >= 0real,
{
    fx_laws(); fx_int_law(); int_finite(m); int_finite(73786976294838206464);
    let mr = fx_int(m).k();
    let (fk, wk) = (f.k(), w.k());
    let big = 73786976294838206464real;
    assert(mr == rnd(m as real));
    assert(rnd(0real) <= rnd(m as real));
    if m >= 1 { assert(rnd(1real) <= rnd(m as real)); rnd_error(m as real); } else { assert(m as real == 0real); }
    assert(0real <= mr && mr * 1048576real <= (m as real) * 1048577real);
    assert(m >= 1 ==> mr >= 1real);
    let x = mr * fk;
    assert(0real <= x && x <= mr && x <= mr * wk && (fk == 0real ==> x == 0real)) by (nonlinear_arith) requires x == mr * fk, 0real <= fk <= 1real, mr >= 0real, fk <= wk;
    let p = rnd(x);
    assert(x <= big);
    assert(rnd(0real) <= rnd(x) && rnd(x) <= rnd(big));
    let a = fx_int(m).s_mul(f);
    assert(a.k() == p && a.isfin());
    let q = p / wk;
    assert(q >= 0real) by (nonlinear_arith) requires q == p / wk, p >= 0real, wk > 0real;
    assert(rnd(0real) <= rnd(q));
    if fk == 0real || m == 0 {
        assert(x == 0real) by (nonlinear_arith) requires x == mr * fk, fk == 0real || mr == 0real;
        assert(q == 0real) by (nonlinear_arith) requires q == p / wk, p == 0real, wk > 0real;
    } else {
        assert(x * 295147905179352825856real >= 1real) by (nonlinear_arith) requires x == mr * fk, mr >= 1real, fk * 295147905179352825856real >= 1real;
        rnd_error(x);
        assert(q * 1048576real <= mr * 1048577real) by (nonlinear_arith) requires q == p / wk, wk > 0real, p * 1048576real <= x * 1048577real, x <= mr * wk;
    }
    assert(q <= big);
    assert(rnd(q) <= rnd(big));
    let s = a.s_div(w);
    assert(s.k() == rnd(q) && s.isfin());
}
/// the limit never decreases as cycles are used up
pub proof fn monotone(m: int, f: Fx, g: Fx, w: Fx)
    requires 0 <= m <= usize::MAX, f.isfin(), g.isfin(), 0real <= f.k() <= g.k() <= 1real, g.k() <= w.k(), w.isfin(), w.k() > 0real,
        f.k() > 0real ==> f.k() * 295147905179352825856real >= 1real, g.k() > 0real ==> g.k() * 295147905179352825856real >= 1real,
    ensures share(m, f, w) <= share(m, g, w),
{
    fx_laws(); fx_int_law();
    step_bound(m, f, w); step_bound(m, g, w);
    let mr = fx_int(m).k();
    let (x, y) = (mr * f.k(), mr * g.k());
    assert(x <= y) by (nonlinear_arith) requires x == mr * f.k(), y == mr * g.k(), f.k() <= g.k(), mr >= 0real;
    assert(rnd(x) <= rnd(y));
    let (p, q, wk) = (rnd(x), rnd(y), w.k());
    assert(p / wk <= q / wk) by (nonlinear_arith) requires p <= q, wk > 0real;
    assert(rnd(p / wk) <= rnd(q / wk));
    let (a, b) = (step_of(m, f, w), step_of(m, g, w));
    assert(a.k() == rnd(p / wk) && b.k() == rnd(q / wk));
    assert(a.k().floor() <= b.k().floor());
    share_bound(m, f, w); share_bound(m, g, w);
}
pub proof fn share_bound(m: int, f: Fx, w: Fx)
    requires 0 <= m <= usize::MAX, f.isfin(), 0real <= f.k() <= 1real, f.k() <= w.k(), w.isfin(), w.k() > 0real, f.k() > 0real ==> f.k() * 295147905179352825856real >= 1real,
    ensures 0 <= share(m, f, w) <= m, f.k() == 0real ==> share(m, f, w) == 0,
        share(m, f, w) == (if step_of(m, f, w).k().floor() <= m { step_of(m, f, w).k().floor() } else { m }),
{
    fx_laws();
    step_bound(m, f, w);
    let s = step_of(m, f, w);
    let fl = s.k().floor();
    assert(s.s_floor().k() == fl as real);
    assert(fl as real <= s.k() && s.k() < fl as real + 1real);
    assert((fl as real).floor() == fl);
}
/// the whole promise, from the value the function returns
pub proof fn warmup_theorem<T: Float, const D: usize>(o: Options<T, D>, total: int, left: int, left2: int)
    requires 0 <= total <= usize::MAX, 0 <= left2 <= left, o.warmup_maxsize_by.isnan() || o.warmup_maxsize_by.isfin(),
    ensures
        small(o.maxsize as int) <= limit(o, total, left) <= o.maxsize,
        limit(o, total, left) <= limit(o, total, left2),
        total > 0 && left >= total && !o.warmup_maxsize_by.isnan() && o.warmup_maxsize_by.k() > 0real ==> limit(o, total, left) == small(o.maxsize as int),
        o.warmup_maxsize_by.isnan() || o.warmup_maxsize_by.k() <= 0real || total == 0 || fx_fraction(total, left).k() > o.warmup_maxsize_by.k() ==> limit(o, total, left) == o.maxsize,
{
    fx_laws(); fx_int_law();
    let m = o.maxsize - small(o.maxsize as int);
    let w = o.warmup_maxsize_by;
    let (f, g) = (fx_fraction(total, left), fx_fraction(total, left2));
    if total == 0 { assert(rnd(0int as real) == 0real); assert(fx_int(0).k() == 0real); assert(f.isnan() && g.isnan()); return; }
    fraction_facts(total, left); fraction_facts(total, left2);
    if warming(o, total, left) { share_bound(m, f, w); }
    if warming(o, total, left2) { share_bound(m, g, w); }
    // less left means a larger fraction
    let (e, h) = (if left <= total { total - left } else { 0 }, if left2 <= total { total - left2 } else { 0 });
    int_finite(e); int_finite(h); int_finite(total);
    assert(rnd(e as real) <= rnd(h as real));
    let (a, b, t) = (fx_int(e).k(), fx_int(h).k(), fx_int(total).k());
    assert(a / t <= b / t) by (nonlinear_arith) requires a <= b, t > 0real;
    assert(rnd(a / t) <= rnd(b / t));
    if warming(o, total, left) && warming(o, total, left2) { monotone(m, f, g, w); }
}
=== fn symbolic_regression/src/warmup.rs get_cur_maxsize
--- opt fx
--- ret r
--- spec
requires options.warmup_maxsize_by.isnan() || options.warmup_maxsize_by.isfin(),
ensures r == limit(*options, total_cycles as int, cycles_remaining as int), r <= options.maxsize,
--- entry
proof {
    fx_laws(); fx_int_law();
    warmup_theorem(*options, total_cycles as int, cycles_remaining as int, cycles_remaining as int);
    if total_cycles > 0 { fraction_facts(total_cycles as int, cycles_remaining as int); }
    if warming(*options, total_cycles as int, cycles_remaining as int) && total_cycles > 0 {
        share_bound(options.maxsize - small(options.maxsize as int), fx_fraction(total_cycles as int, cycles_remaining as int), options.warmup_maxsize_by);
    }
}
