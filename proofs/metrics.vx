# web/wasm: the figures reported for the predictions of a member
=== include prelude.inc
=== include realf64.inc
=== include rsum.inc
=== include nd.inc
=== type web/wasm/src/lib.rs WasmMetrics
drop Clone, Debug, Serialize, Deserialize
subst f64 => Fx
=== raw
pub open spec fn nums(s: Seq<Fx>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).num() }
pub open spec fn nums_o(w: Option<&[Fx]>) -> bool { w is Some ==> nums(w->0@) }
pub open spec fn wrow(w: Option<Array1<Fx>>, n: int) -> Seq<real> { match w { Some(x) => reals(x.v@), None => ones(n) } }
/// differences prediction - target, their squares and absolute values
pub open spec fn errs(p: Seq<Fx>, y: Seq<Fx>) -> Seq<real> { Seq::new(y.len(), |i: int| p[i].r() - y[i].r()) }
pub open spec fn squares(e: Seq<real>) -> Seq<real> { Seq::new(e.len(), |i: int| e[i] * e[i]) }
pub open spec fn sizes(e: Seq<real>) -> Seq<real> { Seq::new(e.len(), |i: int| rabs(e[i])) }
pub open spec fn off(s: Seq<real>, m: real) -> Seq<real> { Seq::new(s.len(), |i: int| s[i] - m) }
pub open spec fn times(a: Seq<real>, b: Seq<real>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] * b[i]) }
pub open spec fn mean(s: Seq<real>) -> real { rsum(s) / (s.len() as real) }
/// the mean over the weighted rows; zero when the weights do not sum to something positive
pub open spec fn pmean(w: Seq<real>, v: Seq<real>) -> real { if rsum(w) > 0real { rsum(weighted(w, v)) / rsum(w) } else { 0real } }
/// the share of the (weighted) variation of the targets that is explained; zero when they do not vary
pub open spec fn r_squared(e: Seq<real>, y: Seq<real>, w: Seq<real>) -> real {
    let sst = rsum(weighted(w, squares(off(y, wmean(w, y)))));
    if sst == 0real { 0real } else { 1real - rsum(weighted(w, squares(e))) / sst }
}
/// Pearson's correlation; zero when either side does not vary
pub open spec fn pearson(p: Seq<real>, y: Seq<real>) -> real {
    let (dp, dy) = (off(p, mean(p)), off(y, mean(y)));
    let (vp, vy) = (rsum(squares(dp)), rsum(squares(dy)));
    if vy == 0real || vp == 0real { 0real } else { rsum(times(dp, dy)) / (rsqrt(vy) * rsqrt(vp)) }
}
pub open spec fn least(x: real, s: Seq<real>) -> bool { (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x) && forall|i: int| 0 <= i < s.len() ==> x <= #[trigger] s[i] }
pub open spec fn greatest(x: real, s: Seq<real>) -> bool { (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= x }
pub proof fn squares_sum(e: Seq<real>) ensures rsum(squares(e)) >= 0real decreases e.len() {
    if e.len() > 0 { squares_sum(e.drop_last()); assert(squares(e).drop_last() =~= squares(e.drop_last())); let x = e.last(); assert(x * x >= 0real) by (nonlinear_arith); }
}
pub proof fn roots(a: real, b: real) requires a >= 0real, b >= 0real, a != 0real, b != 0real ensures rsqrt(a) * rsqrt(b) != 0real {
    sqrt_law(a); sqrt_law(b);
    let (x, y) = (rsqrt(a), rsqrt(b));
    assert(x > 0real && y > 0real);
    assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real;
}
pub proof fn ones_mean(v: Seq<real>)
    ensures v.len() > 0 ==> wmean(ones(v.len() as int), v) == mean(v), v.len() > 0 ==> pmean(ones(v.len() as int), v) == mean(v), v.len() == 0 ==> pmean(ones(v.len() as int), v) == 0real,
        weighted(ones(v.len() as int), v) == v, rsum(ones(v.len() as int)) == v.len() as real,
{ rsum_ones(v.len()); weighted_ones(v); }
/// the least and the greatest of the first k sizes seen so far
pub open spec fn seen(lo: Fx, hi: Fx, s: Seq<real>, k: int) -> bool {
    hi.num() && if k == 0 { lo.kind() is Infinite && hi.r() == 0real } else { lo.num() && least(lo.r(), s.take(k)) && greatest(hi.r(), s.take(k)) }
}
pub proof fn seen_step(l0: Fx, h0: Fx, l1: Fx, h1: Fx, a: Fx, s: Seq<real>, k: int)
    requires 0 <= k < s.len(), seen(l0, h0, s, k), a.num(), a.r() == s[k], s[k] >= 0real,
        k > 0 && a.r() >= l0.r() ==> l1 == l0, k == 0 || a.r() < l0.r() ==> l1 == a, a.r() > h0.r() ==> h1 == a, a.r() <= h0.r() ==> h1 == h0,
    ensures seen(l1, h1, s, k + 1),
{
    let (s0, s1) = (s.take(k), s.take(k + 1));
    assert(s1 =~= s0.push(s[k]));
    assert(s1[k] == s[k]);
    assert forall|i: int| 0 <= i < k implies s1[i] == #[trigger] s0[i] by { }
    if k > 0 {
        let i = choose|i: int| 0 <= i < s0.len() && #[trigger] s0[i] == l0.r();
        let j = choose|j: int| 0 <= j < s0.len() && #[trigger] s0[j] == h0.r();
        assert(s1[i] == l0.r() && s1[j] == h0.r());
        assert forall|m: int| 0 <= m < s1.len() implies l1.r() <= #[trigger] s1[m] && s1[m] <= h1.r() by { if m < k { assert(s1[m] == s0[m]); } }
    }
}
=== fn web/wasm/src/lib.rs r2_and_corr
--- opt fx
--- ret r
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires nums(yhat@), nums(y@), nums_o(w), w is Some ==> w->0@.len() == y@.len(),
ensures
    y@.len() == 0 || yhat@.len() != y@.len() ==> r.0.kind() is Nan && r.1.kind() is Nan,
    y@.len() > 0 && yhat@.len() == y@.len() ==> r.0.num() && r.0.r() == r_squared(errs(yhat@, y@), reals(y@), wts(w, y@.len() as int)), // [P32]
    y@.len() > 0 && yhat@.len() == y@.len() ==> r.1.num() && r.1.r() == pearson(reals(yhat@), reals(y@)), // [P32]
--- entry
proof { num_laws(); }
let ghost (ry, rp) = (reals(y@), reals(yhat@));
let ghost wt = wts(w, y@.len() as int);
let ghost (e, dw) = (errs(yhat@, y@), off(ry, wmean(wt, ry)));
let ghost (te, td) = (weighted(wt, squares(e)), weighted(wt, squares(dw)));
let ghost (dp, dy) = (off(rp, mean(rp)), off(ry, mean(ry)));
proof { ones_mean(ry); ones_mean(squares(e)); ones_mean(squares(dw)); squares_sum(dp); squares_sum(dy); }
--- loop 0
invariant __k0 <= __n0, __acc0.num(), __acc0.r() == rsum(ry.take(__k0 as int)),
decreases __n0 - __k0,
--- head 0
proof { rsum_take(ry, __k0 - 1); }
--- after 0
proof { assert(ry.take(__n0 as int) =~= ry); }
--- loop 1
invariant __k1 <= __n1, __acc1.num(), __acc1.r() == rsum(wt.take(__k1 as int)),
decreases __n1 - __k1,
--- head 1
proof { rsum_take(wt, __k1 - 1); }
--- after 1
proof { assert(wt.take(__n1 as int) =~= wt); }
--- loop 2
invariant __k2 <= __n2, __acc2.num(), __acc2.r() == rsum(weighted(wt, ry).take(__k2 as int)),
decreases __n2 - __k2,
--- head 2
proof { let k = __k2 - 1; rsum_take(weighted(wt, ry), k); assert(wt[k] * ry[k] == ry[k] * wt[k]) by (nonlinear_arith); }
--- after 2
proof { assert(weighted(wt, ry).take(__n2 as int) =~= weighted(wt, ry)); }
--- loop 3
invariant __k3 <= __n3, sse.num(), sse.r() == rsum(te.take(__k3 as int)), sst.num(), sst.r() == rsum(td.take(__k3 as int)),
decreases __n3 - __k3,
--- head 3
proof { let k = __k3 - 1; rsum_take(te, k); rsum_take(td, k); assert(te[k] == e[k] * e[k] && td[k] == dw[k] * dw[k]); }
--- after 3
proof { assert(te.take(__n3 as int) =~= te); assert(td.take(__n3 as int) =~= td); }
--- loop 4
invariant __k4 <= __n4, sse.num(), sse.r() == rsum(te.take(__k4 as int)), sst.num(), sst.r() == rsum(td.take(__k4 as int)),
decreases __n4 - __k4,
--- head 4
proof { let k = __k4 - 1; rsum_take(te, k); rsum_take(td, k); let (a, b, c) = (wt[k], e[k], dw[k]); assert(a * b * b == a * (b * b)) by (nonlinear_arith); assert(a * c * c == a * (c * c)) by (nonlinear_arith); assert(te[k] == a * (b * b) && td[k] == a * (c * c)); }
--- after 4
proof { assert(te.take(__n4 as int) =~= te); assert(td.take(__n4 as int) =~= td); }
--- loop 5
invariant __k5 <= __n5, __acc5.num(), __acc5.r() == rsum(rp.take(__k5 as int)),
decreases __n5 - __k5,
--- head 5
proof { rsum_take(rp, __k5 - 1); }
--- after 5
proof { assert(rp.take(__n5 as int) =~= rp); }
--- loop 6
invariant __k6 <= __n6, __acc6.num(), __acc6.r() == rsum(ry.take(__k6 as int)),
decreases __n6 - __k6,
--- head 6
proof { rsum_take(ry, __k6 - 1); }
--- after 6
proof { assert(ry.take(__n6 as int) =~= ry); }
--- loop 7
invariant __k7 <= __n7, cov.num(), cov.r() == rsum(times(dp, dy).take(__k7 as int)), vyh.num(), vyh.r() == rsum(squares(dp).take(__k7 as int)), vy.num(), vy.r() == rsum(squares(dy).take(__k7 as int)),
decreases __n7 - __k7,
--- head 7
proof { let k = __k7 - 1; rsum_take(times(dp, dy), k); rsum_take(squares(dp), k); rsum_take(squares(dy), k); }
--- after 7
proof {
    assert(times(dp, dy).take(__n7 as int) =~= times(dp, dy)); assert(squares(dp).take(__n7 as int) =~= squares(dp)); assert(squares(dy).take(__n7 as int) =~= squares(dy));
    if vy.r() != 0real && vyh.r() != 0real { roots(vy.r(), vyh.r()); }
}
=== fn web/wasm/src/lib.rs compute_metrics
--- opt fx
--- ret r
--- attrs
#[verifier::loop_isolation(false)]
--- spec
requires dataset.ok(), nums(yhat@), nums(dataset.y.v@), dataset.weights is Some ==> nums(dataset.weights->0.v@), yhat@.len() == dataset.n_rows,
ensures
    ({
        let e = errs(yhat@, dataset.y.v@);
        let w = wrow(dataset.weights, dataset.n_rows as int);
        let n = dataset.n_rows;
        &&& r.n == n
        &&& r.mse.num() && r.mse.r() == pmean(w, squares(e)) // [P32]
        &&& r.mae.num() && r.mae.r() == pmean(w, sizes(e)) // [P32]
        &&& pmean(w, squares(e)) >= 0real ==> r.rmse.num() && r.rmse.r() == rsqrt(pmean(w, squares(e))) // [P32]
        &&& n > 0 ==> r.r2.num() && r.r2.r() == r_squared(e, reals(dataset.y.v@), w) && r.corr.num() && r.corr.r() == pearson(reals(yhat@), reals(dataset.y.v@)) // [P32]
        &&& n == 0 ==> r.r2.kind() is Nan && r.corr.kind() is Nan
        &&& r.min_abs_err.num() && r.max_abs_err.num()
        &&& if n == 0 { r.min_abs_err.r() == 0real && r.max_abs_err.r() == 0real } else { least(r.min_abs_err.r(), sizes(e)) && greatest(r.max_abs_err.r(), sizes(e)) } // [P32]
    }),
--- entry
proof { num_laws(); }
let ghost e = errs(yhat@, dataset.y.v@);
let ghost wt = wrow(dataset.weights, dataset.n_rows as int);
let ghost (tq, ta) = (weighted(wt, squares(e)), weighted(wt, sizes(e)));
proof { ones_mean(squares(e)); ones_mean(sizes(e)); }
--- loop 0
invariant __k0 <= __n0, mse.num(), mse.r() == rsum(tq.take(__k0 as int)), mae.num(), mae.r() == rsum(ta.take(__k0 as int)), seen(min_abs, max_abs, sizes(e), __k0 as int),
decreases __n0 - __k0,
--- head 0
let ghost (l0, h0) = (min_abs, max_abs);
proof { let k = __k0 - 1; rsum_take(tq, k); rsum_take(ta, k); assert(tq[k] == e[k] * e[k] && ta[k] == rabs(e[k])); }
--- tail 0
proof { seen_step(l0, h0, min_abs, max_abs, ar, sizes(e), __k0 - 1); }
--- after 0
proof { assert(tq.take(__n0 as int) =~= tq); assert(ta.take(__n0 as int) =~= ta); assert(sizes(e).take(__n0 as int) =~= sizes(e)); }
--- loop 1
invariant __k1 <= __n1, mse.num(), mse.r() == rsum(tq.take(__k1 as int)), mae.num(), mae.r() == rsum(ta.take(__k1 as int)), seen(min_abs, max_abs, sizes(e), __k1 as int), sum_w.num(), sum_w.r() == rsum(wt.take(__k1 as int)),
decreases __n1 - __k1,
--- head 1
let ghost (l0, h0) = (min_abs, max_abs);
proof { let k = __k1 - 1; rsum_take(tq, k); rsum_take(ta, k); rsum_take(wt, k); let (a, b) = (wt[k], e[k]); assert(a * b * b == a * (b * b)) by (nonlinear_arith); assert(tq[k] == a * (b * b) && ta[k] == a * rabs(b)); }
--- tail 1
proof { seen_step(l0, h0, min_abs, max_abs, ar, sizes(e), __k1 - 1); }
--- after 1
proof { assert(tq.take(__n1 as int) =~= tq); assert(ta.take(__n1 as int) =~= ta); assert(sizes(e).take(__n1 as int) =~= sizes(e)); assert(wt.take(__n1 as int) =~= wt); }
