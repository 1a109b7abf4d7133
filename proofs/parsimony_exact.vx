# symbolic_regression: the reduction of the frequency statistics reaches the window (arithmetic without rounding)
=== include prelude.inc
=== raw
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Mul, Sub, Div, Neg};
=== include fx.inc
=== type symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics
subst f64 => Fx
=== raw
// f - 1 is exact for a double 1 <= f <= 2^53 (1 is a multiple of the last place of f)
#[verifier::external_body]
pub proof fn minus_one_exact()
    ensures forall|a: Fx, b: Fx| #![trigger a.s_sub(b)] a.isfin() && b.isfin() && b.k() == 1real && 1real <= a.k() <= 9007199254740992real ==> a.s_sub(b).k() == a.k() - 1real,
{ }
/// sum from left to right
pub open spec fn fsum(s: Seq<Fx>) -> Fx
    decreases s.len(),
{ if s.len() == 0 { fx_lit(0, 1) } else { fsum(s.drop_last()).s_add(s.last()) } }
pub proof fn fsum_step(s: Seq<Fx>, i: int)
    requires 0 <= i < s.len(),
    ensures fsum(s.take(i + 1)) == fsum(s.take(i)).s_add(s[i]),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// a count that is in order: finite, at least one, of a size doubles count exactly
pub open spec fn count_ok(f: Fx) -> bool { f.isfin() && 1real <= f.k() <= 9007199254740992real }
pub open spec fn counts_ok(s: Seq<Fx>) -> bool { forall|i: int| 0 <= i < s.len() ==> count_ok(#[trigger] s[i]) }
/// entries only go down, and never below one
pub open spec fn reduced(a: Seq<Fx>, b: Seq<Fx>) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> count_ok(#[trigger] b[i]) && b[i].k() <= a[i].k()
    &&& forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < a.len() && 0 <= j < a.len() && a[i].k() <= a[j].k() ==> b[i].k() <= b[j].k()
}
/// the positions among the first n whose entry is above one, in order
pub open spec fn above(s: Seq<Fx>, n: int) -> Seq<usize>
    decreases n,
{ if n <= 0 { Seq::empty() } else if s[n - 1].k() > 1real { above(s, n - 1).push((n - 1) as usize) } else { above(s, n - 1) } }
pub proof fn above_props(s: Seq<Fx>, n: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX,
    ensures forall|j: int| 0 <= j < above(s, n).len() ==> (#[trigger] above(s, n)[j]) < n && s[above(s, n)[j] as int].k() > 1real,
        forall|i: int, j: int| 0 <= i < j < above(s, n).len() ==> (#[trigger] above(s, n)[i]) < (#[trigger] above(s, n)[j]),
        forall|i: int| 0 <= i < n && (#[trigger] s[i]).k() > 1real ==> exists|j: int| 0 <= j < above(s, n).len() && #[trigger] above(s, n)[j] == i,
    decreases n,
{
    if n > 0 {
        above_props(s, n - 1);
        let a = above(s, n - 1);
        if s[n - 1].k() > 1real {
            assert(above(s, n) == a.push((n - 1) as usize));
            assert forall|i: int| 0 <= i < n && (#[trigger] s[i]).k() > 1real implies exists|j: int| 0 <= j < above(s, n).len() && #[trigger] above(s, n)[j] == i by {
                if i < n - 1 { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == i; assert(above(s, n)[j] == i); } else { assert(above(s, n)[a.len() as int] == i); }
            }
        }
    }
}
/// one step: every entry above one goes down by the same amount, which is at most what the smallest of them has above one
pub open spec fn step_of(a: Seq<Fx>, b: Seq<Fx>, amount: Fx) -> bool {
    &&& b.len() == a.len() && amount.isfin() && amount.k() > 0real
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (if a[i].k() > 1real { a[i].s_sub(amount) } else { a[i] })
    &&& forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k() > 1real ==> amount.k() <= a[i].k() - 1real
}
pub proof fn step_reduces(a: Seq<Fx>, b: Seq<Fx>, amount: Fx)
    requires counts_ok(a), step_of(a, b, amount),
    ensures reduced(a, b),
{
    fx_laws();
    assert forall|i: int| 0 <= i < a.len() implies count_ok(#[trigger] b[i]) && b[i].k() <= a[i].k() && (a[i].k() > 1real ==> b[i].k() == rnd(a[i].k() - amount.k())) && (a[i].k() <= 1real ==> b[i].k() == 1real) by {
        assert(count_ok(a[i]));
        if a[i].k() > 1real { let _ = (rnd(a[i].k() - amount.k()), rnd(1real), rnd(a[i].k())); assert(rnd(1real) <= rnd(a[i].k() - amount.k()) && rnd(a[i].k() - amount.k()) <= rnd(a[i].k())); }
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < a.len() && 0 <= j < a.len() && a[i].k() <= a[j].k() implies b[i].k() <= b[j].k() by {
        if a[i].k() > 1real { assert(rnd(a[i].k() - amount.k()) <= rnd(a[j].k() - amount.k())); }
    }
}
pub proof fn reduced_trans(a: Seq<Fx>, b: Seq<Fx>, c: Seq<Fx>)
    requires reduced(a, b), reduced(b, c),
    ensures reduced(a, c),
{
    assert forall|i: int| 0 <= i < a.len() implies count_ok(#[trigger] c[i]) && c[i].k() <= a[i].k() by { let _ = b[i]; }
    assert forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < a.len() && 0 <= j < a.len() && a[i].k() <= a[j].k() implies c[i].k() <= c[j].k() by { let _ = (b[i], b[j]); }
}
// ---- exact arithmetic: within the finite range nothing is rounded ----
#[verifier::external_body]
pub proof fn exact()
    ensures forall|x: real| -fx_big() <= x <= fx_big() ==> #[trigger] rnd(x) == x, fx_big() > 100000000000000000000real, fx_lit(1, 1000000).k() == 1real / 1000000real,
{ }
pub open spec fn ksum(s: Seq<Fx>) -> real
    decreases s.len(),
{ if s.len() == 0 { 0real } else { ksum(s.drop_last()) + s.last().k() } }
pub open spec fn nabove(s: Seq<Fx>, n: int) -> int { above(s, n).len() as int }
pub proof fn ksum_bounds(s: Seq<Fx>)
    requires counts_ok(s),
    ensures s.len() as real <= ksum(s) <= s.len() as real * 9007199254740992real,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(count_ok(s.last()));
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies count_ok(#[trigger] t[i]) by { let _ = s[i]; }
        ksum_bounds(t);
        let (n, m) = (s.len() as real, t.len() as real);
        assert(n * 9007199254740992real == m * 9007199254740992real + 9007199254740992real) by (nonlinear_arith) requires n == m + 1real;
    }
}
pub proof fn fsum_is_ksum(s: Seq<Fx>)
    requires counts_ok(s), s.len() <= 1000,
    ensures fsum(s).isfin(), fsum(s).k() == ksum(s),
    decreases s.len(),
{
    fx_laws(); exact();
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies count_ok(#[trigger] t[i]) by { let _ = s[i]; }
        assert(count_ok(s.last()));
        fsum_is_ksum(t);
        ksum_bounds(s); ksum_bounds(t);
        let (a, b) = (fsum(t), s.last());
        assert(rnd(a.k() + b.k()) == a.k() + b.k());
        assert(fx_is(a.s_add(b), a.k() + b.k()));
    }
}
pub closed spec fn mulr(a: real, b: real) -> real { a * b }
/// one step takes the amount from every entry above one
pub proof fn step_sum(a: Seq<Fx>, b: Seq<Fx>, amount: Fx, n: int)
    requires counts_ok(a), step_of(a, b, amount), 0 <= n <= a.len(),
    ensures ksum(b.take(n)) == ksum(a.take(n)) - mulr(amount.k(), nabove(a, n) as real),
    decreases n,
{
    fx_laws(); exact();
    if n > 0 {
        step_sum(a, b, amount, n - 1);
        assert(a.take(n).drop_last() =~= a.take(n - 1));
        assert(b.take(n).drop_last() =~= b.take(n - 1));
        let (x, y) = (a[n - 1], b[n - 1]);
        assert(count_ok(x));
        let (p, q, t) = (nabove(a, n - 1) as real, nabove(a, n) as real, amount.k());
        if x.k() > 1real {
            assert(y == x.s_sub(amount));
            assert(rnd(x.k() - t) == x.k() - t);
            assert(t * q == t * p + t) by (nonlinear_arith) requires q == p + 1real;
        }
    }
    else { assert(amount.k() * 0real == 0real) by (nonlinear_arith); assert(a.take(0) =~= Seq::empty()); assert(b.take(0) =~= Seq::empty()); }
}
/// a step never makes an entry pass one, so nothing joins the entries above one
pub proof fn step_above(a: Seq<Fx>, b: Seq<Fx>, amount: Fx, n: int)
    requires counts_ok(a), step_of(a, b, amount), 0 <= n <= a.len(),
    ensures nabove(b, n) <= nabove(a, n), (exists|i: int| 0 <= i < n && (#[trigger] a[i]).k() > 1real && amount.k() == a[i].k() - 1real) ==> nabove(b, n) < nabove(a, n),
    decreases n,
{
    fx_laws(); exact();
    if n > 0 {
        step_above(a, b, amount, n - 1);
        let (x, y) = (a[n - 1], b[n - 1]);
        assert(count_ok(x));
        if x.k() > 1real {
            assert(y == x.s_sub(amount));
            assert(rnd(x.k() - amount.k()) == x.k() - amount.k());
        }
        if exists|i: int| 0 <= i < n && (#[trigger] a[i]).k() > 1real && amount.k() == a[i].k() - 1real {
            let i = choose|i: int| 0 <= i < n && (#[trigger] a[i]).k() > 1real && amount.k() == a[i].k() - 1real;
            if i < n - 1 { assert(nabove(b, n - 1) < nabove(a, n - 1)); }
        }
    }
}
pub proof fn above_len(s: Seq<Fx>, n: int) requires 0 <= n ensures nabove(s, n) <= n, decreases n { if n > 0 { above_len(s, n - 1); } }
pub proof fn amount_is(rem: Fx, num: Fx, mn: Fx, one: Fx, amount: Fx, n: int)
    requires rem.isfin(), 0real < rem.k() <= 9007199254740992000real, num == fx_int(n), 1 <= n <= 1000, one.isfin(), one.k() == 1real, count_ok(mn), mn.k() > 1real, Fx::is_min(rem.s_div(num), mn.s_sub(one), amount),
    ensures amount.isfin(), 0real < amount.k() <= mn.k() - 1real,
        amount.s_mul(num).isfin(), amount.s_mul(num).k() == mulr(amount.k(), n as real),
        rem.s_sub(amount.s_mul(num)).isfin(), rem.s_sub(amount.s_mul(num)).k() == rem.k() - mulr(amount.k(), n as real), mulr(amount.k(), n as real) <= rem.k(),
        amount.k() == mn.k() - 1real || mulr(amount.k(), n as real) == rem.k(),
{
    fx_laws(); fx_int_law(); exact();
    let m = n as real;
    assert(rnd(m) == m);
    let (x, a) = (rem.k(), amount.k());
    let q = x / m;
    assert(q * m == x && 0real < q && q <= x) by (nonlinear_arith) requires q == x / m, m >= 1real, x > 0real;
    assert(rnd(q) == q);
    assert(rem.s_div(num).k() == q);
    assert(rnd(mn.k() - 1real) == mn.k() - 1real);
    assert(a * m <= x && a * m >= 0real) by (nonlinear_arith) requires q * m == x, 0real < a, a <= q, m >= 1real;
    assert(rnd(a * m) == a * m);
    assert(rnd(x - a * m) == x - a * m);
}
pub proof fn above_ones(s: Seq<Fx>) requires counts_ok(s), nabove(s, s.len() as int) == 0, s.len() <= 1000 ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).k() == 1real {
    above_props(s, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).k() == 1real by { assert(count_ok(s[i])); }
}
pub proof fn lits() ensures fx_lit(0, 1).isfin(), fx_lit(0, 1).k() == 0real, fx_lit(1, 1000000).k() == 1real / 1000000real, fx_inf().k() == fx_max(), !fx_inf().isnan(), fx_max() > 9007199254740992real { fx_laws(); exact(); }
/// the total is within a millionth above the window, or every count is one
pub open spec fn at_window(f: Seq<Fx>, w: real) -> bool { ksum(f) >= w && (ksum(f) < w + 1real / 1000000real || forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).k() == 1real) }
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::move_window
--- opt fx
--- spec
requires counts_ok(old(self).frequencies@), old(self).frequencies@.len() <= 1000, old(self).window_size.isfin(), 0real <= old(self).window_size.k() <= 9007199254740992real,
ensures final(self).window_size == old(self).window_size, final(self).normalized_frequencies == old(self).normalized_frequencies,
    reduced(old(self).frequencies@, final(self).frequencies@),
    ksum(old(self).frequencies@) <= old(self).window_size.k() ==> final(self).frequencies@ == old(self).frequencies@,
    ksum(old(self).frequencies@) > old(self).window_size.k() ==> at_window(final(self).frequencies@, old(self).window_size.k()),
--- entry
proof { fx_laws(); fx_int_law(); minus_one_exact(); }
let ghost f_in = self.frequencies@;
proof { exact(); fsum_is_ksum(f_in); ksum_bounds(f_in); above_len(f_in, f_in.len() as int); }
let ghost w = self.window_size.k();
--- loop 0
invariant __n0 == self.frequencies@.len(), __k0 <= __n0, __acc0 == fsum(self.frequencies@.take(__k0 as int)),
decreases __n0 - __k0,
--- top 0
proof { fsum_step(self.frequencies@, __k0 as int); }
--- after 0
proof { assert(self.frequencies@.take(self.frequencies@.len() as int) =~= self.frequencies@); }
--- loop 1
invariant_except_break loops <= 1000, remaining.isfin(), remaining.k() == ksum(self.frequencies@) - w, remaining.k() >= 0real, loops as int + nabove(self.frequencies@, self.frequencies@.len() as int) <= f_in.len() as int,
invariant self.window_size == old(self).window_size, self.normalized_frequencies == old(self).normalized_frequencies,
    f_in == old(self).frequencies@, reduced(f_in, self.frequencies@), counts_ok(self.frequencies@), max_loops == 1000, 0 <= loops, smallest_allowed.isfin(), smallest_allowed.k() == 1real, w == self.window_size.k(), 0real <= w <= 9007199254740992real, f_in.len() <= 1000, ksum(f_in) > w,
ensures at_window(self.frequencies@, w),
decreases 1001 - loops,
--- loop 2
invariant __n2 == self.frequencies@.len(), __k2 <= __n2, __acc2@ == above(self.frequencies@, __k2 as int), smallest_allowed.k() == 1real, smallest_allowed.isfin(), counts_ok(self.frequencies@),
decreases __n2 - __k2,
--- top 2
proof { assert(count_ok(self.frequencies@[__k2 as int])); }
--- head 1
proof { above_len(self.frequencies@, self.frequencies@.len() as int); ksum_bounds(self.frequencies@); }
let ghost f0 = self.frequencies@;
proof { assert(f0.len() == self.frequencies.len()); above_props(f0, f0.len() as int); assert(fx_lit(1, 1000000) == fx_lit(1, 1000000)); lits(); if nabove(f0, f0.len() as int) == 0 { above_ones(f0); } }
--- loop 3
invariant __n3 == indices@.len(), __k3 <= __n3, self.frequencies@ == f0, counts_ok(f0), forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j]) < f0.len(),
    !__acc3.isnan(), __k3 == 0 ==> __acc3 == fx_inf(), __k3 > 0 ==> count_ok(__acc3),
    __k3 > 0 ==> exists|j: int| 0 <= j < __k3 && __acc3.k() == f0[#[trigger] indices@[j] as int].k(),
    forall|j: int| 0 <= j < __k3 ==> __acc3.k() <= f0[#[trigger] indices@[j] as int].k(),
decreases __n3 - __k3,
--- top 3
proof { lits(); assert(count_ok(f0[indices@[__k3 as int] as int])); }
--- at before #0 if amount.partial_cmp
proof { amount_is(remaining, num_remaining, min_above, smallest_allowed, amount, indices@.len() as int); }
--- loop 4
invariant __n4 == indices@.len(), __k4 <= __n4, self.frequencies@.len() == f0.len(), indices@ == above(f0, f0.len() as int),
    self.window_size == old(self).window_size, self.normalized_frequencies == old(self).normalized_frequencies,
    forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j]) < f0.len() && f0[indices@[j] as int].k() > 1real,
    forall|i: int, j: int| 0 <= i < j < indices@.len() ==> (#[trigger] indices@[i]) < (#[trigger] indices@[j]),
    forall|j: int| 0 <= j < __k4 ==> self.frequencies@[#[trigger] indices@[j] as int] == f0[indices@[j] as int].s_sub(amount),
    forall|j: int| __k4 <= j < indices@.len() ==> self.frequencies@[#[trigger] indices@[j] as int] == f0[indices@[j] as int],
    forall|i: int| 0 <= i < f0.len() && !(f0[i].k() > 1real) ==> #[trigger] self.frequencies@[i] == f0[i],
decreases __n4 - __k4,
--- after 4
proof {
    assert forall|i: int| 0 <= i < f0.len() implies #[trigger] self.frequencies@[i] == (if f0[i].k() > 1real { f0[i].s_sub(amount) } else { f0[i] }) by {
        if f0[i].k() > 1real { let j = choose|j: int| 0 <= j < indices@.len() && #[trigger] indices@[j] == i; assert(self.frequencies@[indices@[j] as int] == f0[i].s_sub(amount)); }
    }
    assert forall|i: int| 0 <= i < f0.len() && (#[trigger] f0[i]).k() > 1real implies amount.k() <= f0[i].k() - 1real by {
        let j = choose|j: int| 0 <= j < indices@.len() && #[trigger] indices@[j] == i; assert(min_above.k() <= f0[indices@[j] as int].k());
    }
    step_reduces(f0, self.frequencies@, amount);
    reduced_trans(f_in, f0, self.frequencies@);
    step_sum(f0, self.frequencies@, amount, f0.len() as int); step_above(f0, self.frequencies@, amount, f0.len() as int);
    assert(f0.take(f0.len() as int) =~= f0); assert(self.frequencies@.take(f0.len() as int) =~= self.frequencies@);
}
