=== include kernels.vx
=== include ring.inc
=== include gradspec.inc
=== raw
pub proof fn lemma_chain12<T: RingFloat, const A: usize, Op: Operator<T, A>>(vals: Seq<T>, ds: Seq<T>)
    ensures
        chain::<T, A, Op>(vals, ds, 1) == Op::pa(vals, 0).mul_spec(ds[0]),
        chain::<T, A, Op>(vals, ds, 2) == Op::pa(vals, 0).mul_spec(ds[0]).add_spec(Op::pa(vals, 1).mul_spec(ds[1])),
{
    T::ring_laws();
    reveal_with_fuel(chain, 3);
}
=== fn dynamic_expressions/src/evaluate.rs grad_unary_loop
--- subst T: Float => T: RingFloat
--- subst partial: F => partial: F, Ghost(pf): Ghost<spec_fn(Seq<T>, int) -> T>
--- spec
requires
    A >= 1,
    view_ok(x, old(out)@.len() as int), view_ok(dx, old(out)@.len() as int),
    dx is Slice ==> x is Slice,
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
ensures
    final(out)@.len() == old(out)@.len(),
    A == 1 ==> forall|i: int| 0 <= i < final(out)@.len() ==> #[trigger] final(out)@[i] == pf(seq![view_at(x, i)], 0).mul_spec(view_at(dx, i)),
--- loops 2
--- entry
proof { T::ops_total(); T::ring_laws(); }
--- loop 0
invariant
    A >= 1, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n0 == out@.len(), __n0 == old(out)@.len(), x_s@.len() == __n0, dx_s@.len() == __n0, x == ArgView::Slice(x_s), dx == ArgView::Slice(dx_s), __k0 <= __n0,
    A == 1 ==> forall|i: int| 0 <= i < __k0 ==> #[trigger] out@[i] == pf(seq![view_at(x, i)], 0).mul_spec(view_at(dx, i)),
decreases __n0 - __k0,
--- loop 1
invariant
    A >= 1, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n1 == out@.len(), __n1 == old(out)@.len(), x_s@.len() == __n1, x == ArgView::Slice(x_s), dx == ArgView::Const(dx_c), __k1 <= __n1,
    A == 1 ==> forall|i: int| 0 <= i < __k1 ==> #[trigger] out@[i] == pf(seq![view_at(x, i)], 0).mul_spec(view_at(dx, i)),
decreases __n1 - __k1,
=== raw
pub open spec fn bin_partial<T: Float>(pf: spec_fn(Seq<T>, int) -> T, a: T, b: T, da: T, db: T) -> T {
    pf(seq![a, b], 0).mul_spec(da).add_spec(pf(seq![a, b], 1).mul_spec(db))
}
=== fn dynamic_expressions/src/evaluate.rs grad_binary_loop
--- subst T: Float => T: RingFloat
--- subst partial: F => partial: F, Ghost(pf): Ghost<spec_fn(Seq<T>, int) -> T>
--- spec
requires
    A >= 2,
    view_ok(x, old(out)@.len() as int), view_ok(dx, old(out)@.len() as int), view_ok(y, old(out)@.len() as int), view_ok(dy, old(out)@.len() as int),
    dx is Slice ==> x is Slice, dy is Slice ==> y is Slice,
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
ensures
    final(out)@.len() == old(out)@.len(),
    A == 2 ==> forall|i: int| 0 <= i < final(out)@.len() ==> #[trigger] final(out)@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
--- loops 8
--- entry
proof { T::ops_total(); }
--- loop 0
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n0 == out@.len(), __n0 == old(out)@.len(), x_s@.len() == __n0, x == ArgView::Slice(x_s), y_s@.len() == __n0, y == ArgView::Slice(y_s), dx_s@.len() == __n0, dx == ArgView::Slice(dx_s), dy_s@.len() == __n0, dy == ArgView::Slice(dy_s), __k0 <= __n0,
    A == 2 ==> forall|i: int| 0 <= i < __k0 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n0 - __k0,
--- loop 1
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n1 == out@.len(), __n1 == old(out)@.len(), x_s@.len() == __n1, x == ArgView::Slice(x_s), y_s@.len() == __n1, y == ArgView::Slice(y_s), dx_s@.len() == __n1, dx == ArgView::Slice(dx_s), dy == ArgView::Const(dy_c), __k1 <= __n1,
    A == 2 ==> forall|i: int| 0 <= i < __k1 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n1 - __k1,
--- loop 2
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n2 == out@.len(), __n2 == old(out)@.len(), x_s@.len() == __n2, x == ArgView::Slice(x_s), y_s@.len() == __n2, y == ArgView::Slice(y_s), dx == ArgView::Const(dx_c), dy_s@.len() == __n2, dy == ArgView::Slice(dy_s), __k2 <= __n2,
    A == 2 ==> forall|i: int| 0 <= i < __k2 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n2 - __k2,
--- loop 3
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n3 == out@.len(), __n3 == old(out)@.len(), x_s@.len() == __n3, x == ArgView::Slice(x_s), y_s@.len() == __n3, y == ArgView::Slice(y_s), dx == ArgView::Const(dx_c), dy == ArgView::Const(dy_c), __k3 <= __n3,
    A == 2 ==> forall|i: int| 0 <= i < __k3 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n3 - __k3,
--- loop 4
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n4 == out@.len(), __n4 == old(out)@.len(), x_s@.len() == __n4, x == ArgView::Slice(x_s), y == ArgView::Const(y_c), dx_s@.len() == __n4, dx == ArgView::Slice(dx_s), dy == ArgView::Const(dy_c), __k4 <= __n4,
    A == 2 ==> forall|i: int| 0 <= i < __k4 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n4 - __k4,
--- loop 5
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n5 == out@.len(), __n5 == old(out)@.len(), x_s@.len() == __n5, x == ArgView::Slice(x_s), y == ArgView::Const(y_c), dx == ArgView::Const(dx_c), dy == ArgView::Const(dy_c), __k5 <= __n5,
    A == 2 ==> forall|i: int| 0 <= i < __k5 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n5 - __k5,
--- loop 6
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n6 == out@.len(), __n6 == old(out)@.len(), x == ArgView::Const(x_c), y_s@.len() == __n6, y == ArgView::Slice(y_s), dx == ArgView::Const(dx_c), dy_s@.len() == __n6, dy == ArgView::Slice(dy_s), __k6 <= __n6,
    A == 2 ==> forall|i: int| 0 <= i < __k6 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n6 - __k6,
--- loop 7
invariant
    A >= 2, forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    forall|v: &[T; A], i: usize| i < A ==> call_requires(partial, (v, i)),
    forall|v: &[T; A], i: usize, p: T| i < A && #[trigger] call_ensures(partial, (v, i), p) ==> p == pf(v@, i as int),
    __n7 == out@.len(), __n7 == old(out)@.len(), x == ArgView::Const(x_c), y_s@.len() == __n7, y == ArgView::Slice(y_s), dx == ArgView::Const(dx_c), dy == ArgView::Const(dy_c), __k7 <= __n7,
    A == 2 ==> forall|i: int| 0 <= i < __k7 ==> #[trigger] out@[i] == bin_partial(pf, view_at(x, i), view_at(y, i), view_at(dx, i), view_at(dy, i)),
decreases __n7 - __k7,
=== fn dynamic_expressions/src/evaluate.rs diff_nary
--- ret r
--- opt boolops addassign
--- subst T: Float + core::ops::AddAssign => T: RingFloat
--- subst move |a| Op::eval(&vals1(a)) => move |a: T| -> (w: T) requires A >= 1 ensures A == 1 ==> w == Op::ev(seq![a]) { Op::eval(&vals1(a)) }
--- subst move |a, b| Op::eval(&vals2(a, b)) => move |a: T, b: T| -> (w: T) requires A >= 2 ensures A == 2 ==> w == Op::ev(seq![a, b]) { Op::eval(&vals2(a, b)) }
--- subst Op::partial) => Op::partial, Ghost(|v: Seq<T>, i: int| Op::pa(v, i)))
--- spec
requires
    A >= 1, args@.len() == A, dargs@.len() == A, old(out_der)@.len() == old(out_val)@.len(),
    forall|j: int| 0 <= j < A ==> sref_ok(#[trigger] args@[j], old(out_val)@.len() as int),
    forall|j: int| 0 <= j < A ==> sref_ok(#[trigger] dargs@[j], old(out_val)@.len() as int),
    forall|j: int| 0 <= j < A ==> (#[trigger] dargs@[j] is Slice ==> args@[j] is Slice),
ensures
    final(out_val)@.len() == old(out_val)@.len(), final(out_der)@.len() == old(out_val)@.len(),
    // values and derivatives, whenever the call completes or early exit is off
    r || !opts.early_exit ==> forall|row: int| 0 <= row < final(out_val)@.len() ==> #[trigger] final(out_val)@[row] == op_row::<A, T, Op>(args@, row), // [P03]
    r || !opts.early_exit ==> forall|row: int| 0 <= row < final(out_val)@.len() ==> #[trigger] final(out_der)@[row] == op_der::<A, T, Op>(args@, dargs@, row), // [P03]
    !opts.check_finite ==> r, // [P05]
    opts.check_finite && r ==> op_fin::<A, T, Op>(args@, final(out_val)@.len() as int), // [P05]
    opts.check_finite && A <= 2 ==> (r <==> op_fin::<A, T, Op>(args@, final(out_val)@.len() as int)), // [P05]
--- loops 4
--- before 0
let ghost n = out_val@.len() as int;
--- loop 0
invariant
    A >= 3, args@.len() == A, dargs@.len() == A, n == out_val@.len(), n == out_der@.len(), n == old(out_val)@.len(), __n0 == n, __k0 <= __n0,
    check_finite == opts.check_finite, early_exit == opts.early_exit,
    arg_views@.len() == A, darg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args@[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] darg_views@[j], row) == #[trigger] sref(dargs@[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] darg_views@[j], n),
    forall|row: int| 0 <= row < __k0 ==> #[trigger] out_val@[row] == op_row::<A, T, Op>(args@, row),
    forall|row: int| 0 <= row < __k0 ==> #[trigger] out_der@[row] == op_der::<A, T, Op>(args@, dargs@, row),
    complete ==> (!check_finite || op_fin::<A, T, Op>(args@, __k0 as int)),
    !check_finite ==> complete,
    early_exit ==> complete,
decreases __n0 - __k0,
--- loop 1
invariant
    A >= 3, args@.len() == A, row < n, arg_views@.len() == A, __n1 == A, __k1 <= __n1,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args@[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < __k1 ==> #[trigger] vals@[j] == sref(args@[j], row as int),
decreases __n1 - __k1,
--- after 1
proof { assert(vals@ =~= row_of(args@, row as int)); }
--- loop 2
invariant
    A >= 3, dargs@.len() == A, row < n, darg_views@.len() == A, __n2 == A, __k2 <= __n2,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] darg_views@[j], row) == #[trigger] sref(dargs@[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] darg_views@[j], n),
    forall|j: int| 0 <= j < __k2 ==> #[trigger] dvals@[j] == sref(dargs@[j], row as int),
decreases __n2 - __k2,
--- after 2
proof { assert(dvals@ =~= row_of(dargs@, row as int)); }
--- before 3
proof { T::ops_total(); }
--- loop 3
invariant
    A >= 3, __n3 == A, __k3 <= __n3, vals@.len() == A, dvals@.len() == A,
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    dv_out == chain::<T, A, Op>(vals@, dvals@, __k3 as int),
decreases __n3 - __k3,
--- at after *outd=dv_out
proof {
    assert(v == op_row::<A, T, Op>(args@, row as int));
    assert(dv_out == op_der::<A, T, Op>(args@, dargs@, row as int));
    assert(out_val@.len() == n && out_der@.len() == n);
    assert forall|i: int| 0 <= i < __k0 implies #[trigger] out_val@[i] == op_row::<A, T, Op>(args@, i) by { }
    assert forall|i: int| 0 <= i < __k0 implies #[trigger] out_der@[i] == op_der::<A, T, Op>(args@, dargs@, i) by { }
}
--- at before if check_finite
proof {
    T::ring_laws();
    assert forall|i: int| 0 <= i < out_val@.len() implies #[trigger] out_val@[i] == op_row::<A, T, Op>(args@, i) by {
        if A == 1 {
            assert(view_at(arg_views@[0], i) == sref(args@[0], i));
            assert(row_of(args@, i) =~= seq![view_at(arg_views@[0], i)]);
        } else if A == 2 {
            assert(view_at(arg_views@[0], i) == sref(args@[0], i));
            assert(view_at(arg_views@[1], i) == sref(args@[1], i));
            assert(row_of(args@, i) =~= seq![view_at(arg_views@[0], i), view_at(arg_views@[1], i)]);
        }
    }
    assert forall|i: int| 0 <= i < out_der@.len() implies #[trigger] out_der@[i] == op_der::<A, T, Op>(args@, dargs@, i) by {
        lemma_chain12::<T, A, Op>(row_of(args@, i), row_of(dargs@, i));
        if A == 1 {
            assert(view_at(arg_views@[0], i) == sref(args@[0], i));
            assert(view_at(darg_views@[0], i) == sref(dargs@[0], i));
            assert(row_of(args@, i) =~= seq![view_at(arg_views@[0], i)]);
        } else if A == 2 {
            assert(view_at(arg_views@[0], i) == sref(args@[0], i));
            assert(view_at(arg_views@[1], i) == sref(args@[1], i));
            assert(view_at(darg_views@[0], i) == sref(dargs@[0], i));
            assert(view_at(darg_views@[1], i) == sref(dargs@[1], i));
            assert(row_of(args@, i) =~= seq![view_at(arg_views@[0], i), view_at(arg_views@[1], i)]);
        }
    }
    if !op_fin::<A, T, Op>(args@, out_val@.len() as int) {
        let bad = choose|i: int| 0 <= i < out_val@.len() && !(#[trigger] op_row::<A, T, Op>(args@, i)).fin();
        assert(!out_val@[bad].fin());
    } else {
        assert forall|i: int| 0 <= i < out_val@.len() implies (#[trigger] out_val@[i]).fin() by { assert(op_row::<A, T, Op>(args@, i).fin()); }
    }
}
=== raw
pub proof fn lemma_block(dir: int, row: int, n_dir: int, n: int)
    requires 0 <= dir < n_dir, 0 <= row < n,
    ensures 0 <= dir * n + row < n_dir * n, dir * n + n <= n_dir * n, (dir + 1) * n == dir * n + n, 0 <= dir * n,
{
    assert(dir * n + n == (dir + 1) * n) by (nonlinear_arith);
    assert((dir + 1) * n <= n_dir * n) by (nonlinear_arith) requires dir + 1 <= n_dir, n >= 0;
    assert(0 <= dir * n) by (nonlinear_arith) requires 0 <= dir, n >= 0;
}
pub proof fn lemma_idx(k: int, nd: int, n: int)
    requires 0 <= k, n >= 0,
    ensures k < nd ==> k * n + n <= nd * n && (k + 1) * n == k * n + n && 0 <= k * n,
        k <= nd ==> (k - 1) * n == k * n - n,
{
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    assert((k - 1) * n == k * n - n) by (nonlinear_arith);
    assert(0 <= k * n) by (nonlinear_arith) requires 0 <= k, n >= 0;
    if k < nd { assert((k + 1) * n <= nd * n) by (nonlinear_arith) requires k + 1 <= nd, n >= 0; }
}
pub proof fn lemma_disjoint(d: int, row: int, e: int, n: int)
    requires d != e, 0 <= row < n,
    ensures d < e ==> at(d, row, n) < e * n, d > e ==> at(d, row, n) >= e * n + n,
{
    if d < e { assert(d * n + n <= e * n) by (nonlinear_arith) requires d + 1 <= e, n >= 0; }
    else { assert(e * n + n <= d * n) by (nonlinear_arith) requires e + 1 <= d, n >= 0; }
}
=== fn dynamic_expressions/src/dispatch.rs grad_at
--- ret r
--- spec
requires g matches GradRef::Slice(s) ==> dir * n_rows + row < s@.len(),
ensures r == gref(g, dir as int, row as int, n_rows as int),
--- entry
proof {
    assert(dir * n_rows >= 0) by (nonlinear_arith) requires dir >= 0, n_rows >= 0;
    if let GradRef::Slice(s) = g { assert(s.len() == s@.len()); }
}
=== fn dynamic_expressions/src/evaluate.rs grad_dir_view
--- ret r
--- spec
requires dir < usize::MAX, g matches GradRef::Slice(s) ==> (dir + 1) * n_rows <= s@.len(),
ensures
    view_ok(r, n_rows as int),
    r is Slice ==> g is Slice,
    forall|row: int| 0 <= row < n_rows ==> #[trigger] view_at(r, row) == gref(g, dir as int, row, n_rows as int),
--- entry
proof {
    assert(dir * n_rows + n_rows == (dir + 1) * n_rows) by (nonlinear_arith);
    if let GradRef::Slice(s) = g { assert(s.len() == s@.len()); assert(n_rows > 0 ==> dir + 1 <= s@.len()) by (nonlinear_arith) requires (dir + 1) * n_rows <= s@.len(), n_rows > 0 ==> n_rows >= 1; }
    assert(dir * n_rows >= 0) by (nonlinear_arith) requires dir >= 0, n_rows >= 0;
}
=== fn dynamic_expressions/src/evaluate.rs grad_nary
--- ret r
--- opt boolops addassign
--- subst T: Float + core::ops::AddAssign => T: RingFloat
--- subst move |a| Op::eval(&vals1(a)) => move |a: T| -> (w: T) requires A >= 1 ensures A == 1 ==> w == Op::ev(seq![a]) { Op::eval(&vals1(a)) }
--- subst move |a, b| { Op::eval(&vals2(a, b)) } => move |a: T, b: T| -> (w: T) requires A >= 2 ensures A == 2 ==> w == Op::ev(seq![a, b]) { Op::eval(&vals2(a, b)) }
--- subst move |a, b| Op::eval(&vals2(a, b)) => move |a: T, b: T| -> (w: T) requires A >= 2 ensures A == 2 ==> w == Op::ev(seq![a, b]) { Op::eval(&vals2(a, b)) }
--- subst Op::partial) => Op::partial, Ghost(|v: Seq<T>, i: int| Op::pa(v, i)))
--- spec
requires
    A >= 1, ctx.args@.len() == A, ctx.arg_grads@.len() == A,
    old(ctx.out_val)@.len() == ctx.n_rows, old(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
    forall|j: int| 0 <= j < A ==> sref_ok(#[trigger] ctx.args@[j], ctx.n_rows as int),
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] ctx.arg_grads@[j], ctx.n_dir as int, ctx.n_rows as int),
    forall|j: int| 0 <= j < A ==> (#[trigger] ctx.arg_grads@[j] is Slice ==> ctx.args@[j] is Slice),
ensures
    final(ctx.out_val)@.len() == ctx.n_rows, final(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
    // values and gradient, whenever the call completes or early exit is off
    r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < ctx.n_rows ==> #[trigger] final(ctx.out_val)@[row] == op_row::<A, T, Op>(ctx.args@, row), // [P04]
    r || !ctx.opts.early_exit ==> forall|dir: int, row: int| 0 <= dir < ctx.n_dir && 0 <= row < ctx.n_rows ==>
        final(ctx.out_grad)@[#[trigger] at(dir, row, ctx.n_rows as int)] == op_grad::<A, T, Op>(ctx.args@, ctx.arg_grads@, dir, row, ctx.n_rows as int), // [P04]
    !ctx.opts.check_finite ==> r, // [P05]
    ctx.opts.check_finite ==> (r <==> op_fin::<A, T, Op>(ctx.args@, ctx.n_rows as int)), // [P05]
--- loops 8
--- entry
let ghost n = ctx.n_rows as int;
let ghost nd = ctx.n_dir as int;
proof { T::ops_total(); T::ring_laws(); assert(nd * n >= 0) by (nonlinear_arith) requires nd >= 0, n >= 0; assert(ctx.out_grad.len() == ctx.out_grad@.len()); }
--- at after let mut complete
let ghost args = ctx.args@;
let ghost gs = ctx.arg_grads@;
--- before 0
let ghost vals0 = ctx.out_val@;
--- loop 0
invariant
    A == 1, n_rows == n, __n0 == nd, __k0 <= __n0, dx_ref == gs[0], x == arg_views@[0], ctx.out_val@ == vals0,
    args == ctx.args@, gs == ctx.arg_grads@, args.len() == A, gs.len() == A, ctx.n_dir == nd, ctx.n_rows == n,
    nd * n <= usize::MAX, ctx.out_grad@.len() == nd * n, ctx.out_val@.len() == n, ctx.opts.check_finite == check_finite, ctx.opts.early_exit == early_exit,
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] gs[j], nd, n),
    forall|j: int| 0 <= j < A ==> (#[trigger] gs[j] is Slice ==> args[j] is Slice),
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < A ==> (args[j] is Slice <==> #[trigger] arg_views@[j] is Slice),
    forall|dir: int, row: int| 0 <= dir < __k0 && 0 <= row < n ==>
        ctx.out_grad@[#[trigger] at(dir, row, n)] == op_grad::<A, T, Op>(args, gs, dir, row, n),
decreases __n0 - __k0,
--- top 0
let ghost og = ctx.out_grad@;
proof { lemma_idx(__k0 as int, nd, n); }
--- tail 0
proof {
    assert forall|d: int, row: int| 0 <= d < __k0 && 0 <= row < n implies
        ctx.out_grad@[#[trigger] at(d, row, n)] == op_grad::<A, T, Op>(args, gs, d, row, n) by {
        lemma_block(d, row, nd, n);
        if d == dir {
            lemma_chain12::<T, A, Op>(row_of(args, row), grow(gs, d, row, n));
            assert(view_at(arg_views@[0], row) == sref(args[0], row));
            assert(row_of(args, row) =~= seq![view_at(x, row)]);
            assert(ctx.out_grad@[at(d, row, n)] == ctx.out_grad@.subrange(dir * n, dir * n + n)[row]);
        } else {
            lemma_disjoint(d, row, dir as int, n);
            assert(ctx.out_grad@[at(d, row, n)] == og[at(d, row, n)]);
        }
    }
}
--- before 1
let ghost vals0 = ctx.out_val@;
--- loop 1
invariant
    A == 2, n_rows == n, __n1 == nd, __k1 <= __n1, dx_ref == gs[0], dy_ref == gs[1], x == arg_views@[0], y == arg_views@[1], ctx.out_val@ == vals0,
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    args == ctx.args@, gs == ctx.arg_grads@, args.len() == A, gs.len() == A, ctx.n_dir == nd, ctx.n_rows == n,
    nd * n <= usize::MAX, ctx.out_grad@.len() == nd * n, ctx.out_val@.len() == n, ctx.opts.check_finite == check_finite, ctx.opts.early_exit == early_exit,
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] gs[j], nd, n),
    forall|j: int| 0 <= j < A ==> (#[trigger] gs[j] is Slice ==> args[j] is Slice),
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < A ==> (args[j] is Slice <==> #[trigger] arg_views@[j] is Slice),
    forall|dir: int, row: int| 0 <= dir < __k1 && 0 <= row < n ==>
        ctx.out_grad@[#[trigger] at(dir, row, n)] == op_grad::<A, T, Op>(args, gs, dir, row, n),
decreases __n1 - __k1,
--- top 1
let ghost og = ctx.out_grad@;
proof { lemma_idx(__k1 as int, nd, n); T::ring_laws(); }
--- tail 1
proof {
    assert forall|d: int, row: int| 0 <= d < __k1 && 0 <= row < n implies
        ctx.out_grad@[#[trigger] at(d, row, n)] == op_grad::<A, T, Op>(args, gs, d, row, n) by {
        lemma_block(d, row, nd, n);
        if d == dir {
            lemma_chain12::<T, A, Op>(row_of(args, row), grow(gs, d, row, n));
            assert(view_at(arg_views@[0], row) == sref(args[0], row));
            assert(view_at(arg_views@[1], row) == sref(args[1], row));
            assert(row_of(args, row) =~= seq![view_at(x, row), view_at(y, row)]);
            assert(view_at(dx, row) == gref(gs[0], d, row, n));
            assert(view_at(dy, row) == gref(gs[1], d, row, n));
            assert(grow(gs, d, row, n)[0] == view_at(dx, row));
            assert(grow(gs, d, row, n)[1] == view_at(dy, row));
            assert(ctx.out_grad@[at(d, row, n)] == ctx.out_grad@.subrange(dir * n, dir * n + n)[row]);
        } else {
            lemma_disjoint(d, row, dir as int, n);
            assert(ctx.out_grad@[at(d, row, n)] == og[at(d, row, n)]);
        }
    }
}
--- loop 2
invariant
    A >= 3, __n2 == n, __k2 <= __n2,
    args == ctx.args@, gs == ctx.arg_grads@, args.len() == A, gs.len() == A, ctx.n_dir == nd, ctx.n_rows == n,
    nd * n <= usize::MAX, ctx.out_grad@.len() == nd * n, ctx.out_val@.len() == n, ctx.opts.check_finite == check_finite, ctx.opts.early_exit == early_exit,
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] gs[j], nd, n),
    forall|j: int| 0 <= j < A ==> (#[trigger] gs[j] is Slice ==> args[j] is Slice),
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < A ==> (args[j] is Slice <==> #[trigger] arg_views@[j] is Slice),
    forall|row: int| 0 <= row < __k2 ==> #[trigger] ctx.out_val@[row] == op_row::<A, T, Op>(args, row),
decreases __n2 - __k2,
--- loop 3
invariant
    A >= 3, args.len() == A, row < n, __n3 == A, __k3 <= __n3,
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < A ==> (args[j] is Slice <==> #[trigger] arg_views@[j] is Slice),
    forall|j: int| 0 <= j < __k3 ==> #[trigger] vals@[j] == sref(args[j], row as int),
decreases __n3 - __k3,
--- after 3
proof { assert(vals@ =~= row_of(args, row as int)); }
--- before 4
let ghost vals0 = ctx.out_val@;
proof { assert(n == 0 ==> nd * n == 0) by (nonlinear_arith) requires n >= 0, nd >= 0; }
--- loop 4
invariant
    A >= 3, n > 0 ==> __n4 == nd && __h2 == n, n == 0 ==> __n4 == 0, __cl2 == nd * n, __k4 <= __n4, ctx.out_val@ == vals0,
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    args == ctx.args@, gs == ctx.arg_grads@, args.len() == A, gs.len() == A, ctx.n_dir == nd, ctx.n_rows == n,
    nd * n <= usize::MAX, ctx.out_grad@.len() == nd * n, ctx.out_val@.len() == n, ctx.opts.check_finite == check_finite, ctx.opts.early_exit == early_exit,
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] gs[j], nd, n),
    forall|j: int| 0 <= j < A ==> (#[trigger] gs[j] is Slice ==> args[j] is Slice),
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < A ==> (args[j] is Slice <==> #[trigger] arg_views@[j] is Slice),
    forall|dir: int, row: int| 0 <= dir < __k4 && 0 <= row < n ==>
        ctx.out_grad@[#[trigger] at(dir, row, n)] == op_grad::<A, T, Op>(args, gs, dir, row, n),
decreases __n4 - __k4,
--- top 4
let ghost og = ctx.out_grad@;
proof { lemma_idx(__k4 as int, nd, n); lemma_block(__k4 as int, 0, nd, n); }
--- tail 4
proof {
    assert forall|d: int, row: int| 0 <= d < __k4 && 0 <= row < n implies
        ctx.out_grad@[#[trigger] at(d, row, n)] == op_grad::<A, T, Op>(args, gs, d, row, n) by {
        lemma_block(d, row, nd, n);
        if d == dir {
            assert(ctx.out_grad@[at(d, row, n)] == ctx.out_grad@.subrange(dir * n, dir * n + n)[row]);
        } else {
            lemma_disjoint(d, row, dir as int, n);
            assert(ctx.out_grad@[at(d, row, n)] == og[at(d, row, n)]);
        }
    }
}
--- loop 5
invariant
    A >= 3, n > 0, n == ctx.n_rows, nd == ctx.n_dir, args.len() == A, gs.len() == A, gs == ctx.arg_grads@, dir < nd, __n5 == n, __k5 <= __n5, grad_dir@.len() == n,
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] gs[j], nd, n),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|row: int| 0 <= row < __k5 ==> #[trigger] grad_dir@[row] == op_grad::<A, T, Op>(args, gs, dir as int, row, n),
decreases __n5 - __k5,
--- loop 6
invariant
    A >= 3, args.len() == A, row < n, __n6 == A, __k6 <= __n6,
    arg_views@.len() == A,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < __k6 ==> #[trigger] vals@[j] == sref(args[j], row as int),
decreases __n6 - __k6,
--- after 6
proof { assert(vals@ =~= row_of(args, row as int)); }
--- loop 7
invariant
    A >= 3, gs.len() == A, gs == ctx.arg_grads@, n == ctx.n_rows, nd == ctx.n_dir, dir < nd, row < n, __n7 == A, __k7 <= __n7,
    forall|j: int| 0 <= j < A ==> gref_ok(#[trigger] gs[j], nd, n),
    forall|a: T, b: T| #[trigger] a.mul_req(b), T::obeys_mul_spec(), forall|a: T, b: T| #[trigger] a.add_req(b), T::obeys_add_spec(),
    vals@ == row_of(args, row as int),
    g == chain::<T, A, Op>(vals@, grow(gs, dir as int, row as int, n), __k7 as int),
decreases __n7 - __k7,
--- head 7
proof { lemma_block(dir as int, row as int, nd, n); }
--- at before if check_finite
proof {
    assert forall|i: int| 0 <= i < n implies #[trigger] ctx.out_val@[i] == op_row::<A, T, Op>(args, i) by {
        if A == 1 {
            assert(view_at(arg_views@[0], i) == sref(args[0], i));
            assert(row_of(args, i) =~= seq![view_at(arg_views@[0], i)]);
        } else if A == 2 {
            assert(view_at(arg_views@[0], i) == sref(args[0], i));
            assert(view_at(arg_views@[1], i) == sref(args[1], i));
            assert(row_of(args, i) =~= seq![view_at(arg_views@[0], i), view_at(arg_views@[1], i)]);
        }
    }
    if !op_fin::<A, T, Op>(args, n) {
        let bad = choose|i: int| 0 <= i < n && !(#[trigger] op_row::<A, T, Op>(args, i)).fin();
        assert(!ctx.out_val@[bad].fin());
    } else {
        assert forall|i: int| 0 <= i < n implies (#[trigger] ctx.out_val@[i]).fin() by { assert(op_row::<A, T, Op>(args, i).fin()); }
    }
}
