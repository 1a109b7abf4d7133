# symbolic_regression: adaptive parsimony statistics
=== include prelude.inc
=== raw
use core::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, Mul, Sub, Div, Neg};
=== include fx.inc
=== type symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics
subst f64 => Fx
=== raw
// f - 1 is exact for a double 1 <= f <= 2^53 (1 is a multiple of the last place of f)
#[verifier::external_body]
pub proof fn minus_one_exact()
    ensures forall|a: Fx, b: Fx| #![trigger a.s_sub(b)] a.isfin() && b.isfin() && b.k() == 1real && 1real <= a.k() <= 9007199254740992real ==> a.s_sub(b).k() == a.k() - 1real,
{ }
/// sum from left to right
pub open spec fn fsum(s: Seq<Fx>) -> Fx
    decreases s.len(),
{ if s.len() == 0 { fx_lit(0, 1) } else { fsum(s.drop_last()).s_add(s.last()) } }
pub proof fn fsum_step(s: Seq<Fx>, i: int)
    requires 0 <= i < s.len(),
    ensures fsum(s.take(i + 1)) == fsum(s.take(i)).s_add(s[i]),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// a count that is in order: finite, at least one, of a size doubles count exactly
pub open spec fn count_ok(f: Fx) -> bool { f.isfin() && 1real <= f.k() <= 9007199254740992real }
pub open spec fn counts_ok(s: Seq<Fx>) -> bool { forall|i: int| 0 <= i < s.len() ==> count_ok(#[trigger] s[i]) }
/// entries only go down, and never below one
pub open spec fn reduced(a: Seq<Fx>, b: Seq<Fx>) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> count_ok(#[trigger] b[i]) && b[i].k() <= a[i].k()
    &&& forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < a.len() && 0 <= j < a.len() && a[i].k() <= a[j].k() ==> b[i].k() <= b[j].k()
}
/// the positions among the first n whose entry is above one, in order
pub open spec fn above(s: Seq<Fx>, n: int) -> Seq<usize>
    decreases n,
{ if n <= 0 { Seq::empty() } else if s[n - 1].k() > 1real { above(s, n - 1).push((n - 1) as usize) } else { above(s, n - 1) } }
pub proof fn above_props(s: Seq<Fx>, n: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX,
    ensures forall|j: int| 0 <= j < above(s, n).len() ==> (#[trigger] above(s, n)[j]) < n && s[above(s, n)[j] as int].k() > 1real,
        forall|i: int, j: int| 0 <= i < j < above(s, n).len() ==> (#[trigger] above(s, n)[i]) < (#[trigger] above(s, n)[j]),
        forall|i: int| 0 <= i < n && (#[trigger] s[i]).k() > 1real ==> exists|j: int| 0 <= j < above(s, n).len() && #[trigger] above(s, n)[j] == i,
    decreases n,
{
    if n > 0 {
        above_props(s, n - 1);
        let a = above(s, n - 1);
        if s[n - 1].k() > 1real {
            assert(above(s, n) == a.push((n - 1) as usize));
            assert forall|i: int| 0 <= i < n && (#[trigger] s[i]).k() > 1real implies exists|j: int| 0 <= j < above(s, n).len() && #[trigger] above(s, n)[j] == i by {
                if i < n - 1 { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == i; assert(above(s, n)[j] == i); } else { assert(above(s, n)[a.len() as int] == i); }
            }
        }
    }
}
/// one step: every entry above one goes down by the same amount, which is at most what the smallest of them has above one
pub open spec fn step_of(a: Seq<Fx>, b: Seq<Fx>, amount: Fx) -> bool {
    &&& b.len() == a.len() && amount.isfin() && amount.k() > 0real
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (if a[i].k() > 1real { a[i].s_sub(amount) } else { a[i] })
    &&& forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k() > 1real ==> amount.k() <= a[i].k() - 1real
}
pub proof fn step_reduces(a: Seq<Fx>, b: Seq<Fx>, amount: Fx)
    requires counts_ok(a), step_of(a, b, amount),
    ensures reduced(a, b),
{
    fx_laws();
    assert forall|i: int| 0 <= i < a.len() implies count_ok(#[trigger] b[i]) && b[i].k() <= a[i].k() && (a[i].k() > 1real ==> b[i].k() == rnd(a[i].k() - amount.k())) && (a[i].k() <= 1real ==> b[i].k() == 1real) by {
        assert(count_ok(a[i]));
        if a[i].k() > 1real { let _ = (rnd(a[i].k() - amount.k()), rnd(1real), rnd(a[i].k())); assert(rnd(1real) <= rnd(a[i].k() - amount.k()) && rnd(a[i].k() - amount.k()) <= rnd(a[i].k())); }
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < a.len() && 0 <= j < a.len() && a[i].k() <= a[j].k() implies b[i].k() <= b[j].k() by {
        if a[i].k() > 1real { assert(rnd(a[i].k() - amount.k()) <= rnd(a[j].k() - amount.k())); }
    }
}
pub proof fn reduced_trans(a: Seq<Fx>, b: Seq<Fx>, c: Seq<Fx>)
    requires reduced(a, b), reduced(b, c),
    ensures reduced(a, c),
{
    assert forall|i: int| 0 <= i < a.len() implies count_ok(#[trigger] c[i]) && c[i].k() <= a[i].k() by { let _ = b[i]; }
    assert forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < a.len() && 0 <= j < a.len() && a[i].k() <= a[j].k() implies c[i].k() <= c[j].k() by { let _ = (b[i], b[j]); }
}
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| v);
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::new
--- opt fx
--- ret r
--- spec
ensures r.frequencies@.len() == maxsize, r.normalized_frequencies@.len() == maxsize, r.window_size == fx_int(window_size as int),
    forall|i: int| 0 <= i < maxsize ==> count_ok(#[trigger] r.frequencies@[i]) && r.frequencies@[i].k() == 1real,
    forall|i: int| 0 <= i < maxsize ==> #[trigger] r.normalized_frequencies@[i] == r.frequencies@[i].s_div(fsum(r.frequencies@)),
--- loop 0
invariant __n0 == init@.len(), __k0 <= __n0, __acc0 == fsum(init@.take(__k0 as int)),
decreases __n0 - __k0,
--- top 0
proof { fsum_step(init@, __k0 as int); }
--- after 0
proof { assert(init@.take(init@.len() as int) =~= init@); }
--- loop 1
invariant __n1 == init@.len(), __k1 <= __n1, __acc1@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> #[trigger] __acc1@[i] == init@[i].s_div(sum),
decreases __n1 - __k1,
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::update_frequencies
--- opt fx
--- spec
ensures final(self).window_size == old(self).window_size, final(self).normalized_frequencies == old(self).normalized_frequencies,
    !(1 <= size <= old(self).frequencies@.len()) ==> final(self).frequencies@ == old(self).frequencies@,
    1 <= size <= old(self).frequencies@.len() ==> final(self).frequencies@ == old(self).frequencies@.update(size - 1, old(self).frequencies@[size - 1].s_add(fx_lit(1, 1))),
=== raw
/// every submission counted in turn
pub open spec fn counted(f: Seq<Fx>, sizes: Seq<usize>) -> Seq<Fx>
    decreases sizes.len(),
{
    if sizes.len() == 0 { f } else { let g = counted(f, sizes.drop_last()); let s = sizes.last(); if 1 <= s <= g.len() { g.update(s - 1, g[s - 1].s_add(fx_lit(1, 1))) } else { g } }
}
/// the number of submissions of a size
pub open spec fn times(sizes: Seq<usize>, s: int) -> int
    decreases sizes.len(),
{ if sizes.len() == 0 { 0 } else { times(sizes.drop_last(), s) + if sizes.last() == s { 1int } else { 0 } } }
/// as long as counts stay below 2^24, counting adds exactly one for each submission of the size
pub proof fn counted_is(f: Seq<Fx>, sizes: Seq<usize>, i: int, n: int)
    requires 0 <= i < f.len(), f[i].isfin(), 0 <= n, n as real == f[i].k(), n + sizes.len() <= 16777216,
    ensures counted(f, sizes).len() == f.len(), counted(f, sizes)[i].isfin(), counted(f, sizes)[i].k() == f[i].k() + times(sizes, i + 1) as real, 0 <= times(sizes, i + 1) <= sizes.len(),
    decreases sizes.len(),
{
    fx_laws();
    if sizes.len() > 0 {
        counted_is(f, sizes.drop_last(), i, n);
        let g = counted(f, sizes.drop_last());
        let t = times(sizes.drop_last(), i + 1);
        rnd_int(n + t + 1);
        assert((n + t + 1) as real == g[i].k() + 1real);
        if sizes.last() == i + 1 { assert(fx_is(g[i].s_add(fx_lit(1, 1)), g[i].k() + 1real)); assert(fx_max() > 16777216real); }
    }
}
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::update_from_population
--- opt fx owned:sizes
--- subst impl IntoIterator<Item = usize> => Vec<usize>
--- spec
ensures final(self).window_size == old(self).window_size, final(self).normalized_frequencies == old(self).normalized_frequencies,
    final(self).frequencies@ == counted(old(self).frequencies@, sizes@),
--- loop 0
invariant __n0 == sizes@.len(), __k0 <= __n0, self.window_size == old(self).window_size, self.normalized_frequencies == old(self).normalized_frequencies,
    self.frequencies@ == counted(old(self).frequencies@, sizes@.take(__k0 as int)),
decreases __n0 - __k0,
--- top 0
proof { assert(sizes@.take(__k0 as int + 1).drop_last() =~= sizes@.take(__k0 as int)); }
--- after 0
proof { assert(sizes@.take(sizes@.len() as int) =~= sizes@); }
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::move_window
--- opt fx
--- spec
requires counts_ok(old(self).frequencies@),
ensures final(self).window_size == old(self).window_size, final(self).normalized_frequencies == old(self).normalized_frequencies,
    reduced(old(self).frequencies@, final(self).frequencies@),
    !fsum(old(self).frequencies@).isnan() && !old(self).window_size.isnan() && fsum(old(self).frequencies@).k() <= old(self).window_size.k() ==> final(self).frequencies@ == old(self).frequencies@,
--- entry
proof { fx_laws(); fx_int_law(); minus_one_exact(); }
let ghost f_in = self.frequencies@;
--- loop 0
invariant __n0 == self.frequencies@.len(), __k0 <= __n0, __acc0 == fsum(self.frequencies@.take(__k0 as int)),
decreases __n0 - __k0,
--- top 0
proof { fsum_step(self.frequencies@, __k0 as int); }
--- after 0
proof { assert(self.frequencies@.take(self.frequencies@.len() as int) =~= self.frequencies@); }
--- loop 1
invariant_except_break loops <= 1000,
invariant self.window_size == old(self).window_size, self.normalized_frequencies == old(self).normalized_frequencies,
    f_in == old(self).frequencies@, reduced(f_in, self.frequencies@), counts_ok(self.frequencies@), max_loops == 1000, 0 <= loops, smallest_allowed.isfin(), smallest_allowed.k() == 1real,
decreases 1001 - loops,
--- loop 2
invariant __n2 == self.frequencies@.len(), __k2 <= __n2, __acc2@ == above(self.frequencies@, __k2 as int), smallest_allowed.k() == 1real, smallest_allowed.isfin(), counts_ok(self.frequencies@),
decreases __n2 - __k2,
--- top 2
proof { assert(count_ok(self.frequencies@[__k2 as int])); }
--- head 1
let ghost f0 = self.frequencies@;
proof { fx_laws(); fx_int_law(); minus_one_exact(); assert(f0.len() == self.frequencies.len()); above_props(f0, f0.len() as int); }
--- loop 3
invariant __n3 == indices@.len(), __k3 <= __n3, self.frequencies@ == f0, counts_ok(f0), forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j]) < f0.len(),
    !__acc3.isnan(), __k3 == 0 ==> __acc3 == fx_inf(), __k3 > 0 ==> count_ok(__acc3),
    forall|j: int| 0 <= j < __k3 ==> __acc3.k() <= f0[#[trigger] indices@[j] as int].k(),
decreases __n3 - __k3,
--- top 3
proof { fx_laws(); assert(count_ok(f0[indices@[__k3 as int] as int])); }
--- loop 4
invariant __n4 == indices@.len(), __k4 <= __n4, self.frequencies@.len() == f0.len(), indices@ == above(f0, f0.len() as int),
    self.window_size == old(self).window_size, self.normalized_frequencies == old(self).normalized_frequencies,
    forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j]) < f0.len() && f0[indices@[j] as int].k() > 1real,
    forall|i: int, j: int| 0 <= i < j < indices@.len() ==> (#[trigger] indices@[i]) < (#[trigger] indices@[j]),
    forall|j: int| 0 <= j < __k4 ==> self.frequencies@[#[trigger] indices@[j] as int] == f0[indices@[j] as int].s_sub(amount),
    forall|j: int| __k4 <= j < indices@.len() ==> self.frequencies@[#[trigger] indices@[j] as int] == f0[indices@[j] as int],
    forall|i: int| 0 <= i < f0.len() && !(f0[i].k() > 1real) ==> #[trigger] self.frequencies@[i] == f0[i],
decreases __n4 - __k4,
--- after 4
proof {
    assert forall|i: int| 0 <= i < f0.len() implies #[trigger] self.frequencies@[i] == (if f0[i].k() > 1real { f0[i].s_sub(amount) } else { f0[i] }) by {
        if f0[i].k() > 1real { let j = choose|j: int| 0 <= j < indices@.len() && #[trigger] indices@[j] == i; assert(self.frequencies@[indices@[j] as int] == f0[i].s_sub(amount)); }
    }
    assert forall|i: int| 0 <= i < f0.len() && (#[trigger] f0[i]).k() > 1real implies amount.k() <= f0[i].k() - 1real by {
        let j = choose|j: int| 0 <= j < indices@.len() && #[trigger] indices@[j] == i; assert(min_above.k() <= f0[indices@[j] as int].k());
    }
    step_reduces(f0, self.frequencies@, amount);
    reduced_trans(f_in, f0, self.frequencies@);
}
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::normalize
--- opt fx
--- spec
ensures final(self).frequencies == old(self).frequencies, final(self).window_size == old(self).window_size,
    fsum(old(self).frequencies@).k() != 0real || fsum(old(self).frequencies@).isnan() ==> final(self).normalized_frequencies@.len() == old(self).frequencies@.len()
        && forall|i: int| 0 <= i < old(self).frequencies@.len() ==> #[trigger] final(self).normalized_frequencies@[i] == old(self).frequencies@[i].s_div(fsum(old(self).frequencies@)),
--- loop 0
invariant __n0 == self.frequencies@.len(), __k0 <= __n0, __acc0 == fsum(self.frequencies@.take(__k0 as int)),
decreases __n0 - __k0,
--- top 0
proof { fsum_step(self.frequencies@, __k0 as int); }
--- after 0
proof { assert(self.frequencies@.take(self.frequencies@.len() as int) =~= self.frequencies@); fx_laws(); }
--- loop 1
invariant __n1 == self.frequencies@.len(), __n1 == self.normalized_frequencies@.len(), __k1 <= __n1, self.frequencies == old(self).frequencies, self.window_size == old(self).window_size,
    forall|i: int| 0 <= i < __k1 ==> #[trigger] self.normalized_frequencies@[i] == self.frequencies@[i].s_div(sum),
decreases __n1 - __k1,
=== fn symbolic_regression/src/adaptive_parsimony.rs RunningSearchStatistics::freq
--- opt fx
--- ret r
--- spec
ensures !(1 <= size <= self.normalized_frequencies@.len()) ==> r == fx_lit(1, 1000000),
    1 <= size <= self.normalized_frequencies@.len() ==> Fx::is_max(self.normalized_frequencies@[size - 1], fx_lit(1, 1000000), r),
