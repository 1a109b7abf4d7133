=== include prelude.inc
=== include float.inc
=== include kernelspec.inc
=== type dynamic_expressions/src/evaluate.rs ArgView
derive Copy, Clone
=== raw
pub open spec fn view_at<T>(a: ArgView<'_, T>, row: int) -> T { match a { ArgView::Slice(s) => s@[row], ArgView::Const(c) => c } }
pub open spec fn view_ok<T>(a: ArgView<'_, T>, n: int) -> bool { match a { ArgView::Slice(s) => s@.len() == n, ArgView::Const(_) => true } }
pub open spec fn view_row<T, const A: usize>(a: [ArgView<'_, T>; A], row: int) -> Seq<T> { Seq::new(A as nat, |j: int| view_at(a[j], row)) }
pub open spec fn all_const<T>(args: Seq<SrcRef<'_, T>>) -> bool { forall|j: int| 0 <= j < args.len() ==> #[trigger] args[j] is Const }
=== fn dynamic_expressions/src/evaluate.rs __src_val
--- ret r
--- spec
requires sref_ok(src, row as int + 1) || (src matches SrcRef::Slice(s) && row < s@.len()),
ensures r == sref(src, row as int),
=== fn dynamic_expressions/src/evaluate.rs __all_finite
--- ret r
--- spec
ensures r <==> forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).fin(),
--- loop 0
invariant
    __n0 == out@.len(), __k0 <= __n0,
    __acc0 ==> forall|i: int| 0 <= i < __k0 ==> (#[trigger] out@[i]).fin(),
    !__acc0 ==> exists|i: int| 0 <= i < out@.len() && !(#[trigger] out@[i]).fin(),
ensures
    __acc0 ==> forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).fin(),
    !__acc0 ==> exists|i: int| 0 <= i < out@.len() && !(#[trigger] out@[i]).fin(),
decreases __n0 - __k0,
=== fn dynamic_expressions/src/evaluate.rs __maybe_mark_nonfinite
--- ret r
--- spec
ensures
    r <==> !(opts.check_finite && !v.fin() && opts.early_exit),
    *final(complete) == (*old(complete) && !(opts.check_finite && !v.fin())),
=== fn dynamic_expressions/src/evaluate.rs ArgView@From::from
--- inherent
--- ret r
--- spec
ensures
    value is Slice ==> r == ArgView::Slice(value->Slice_0),
    value is Const ==> r == ArgView::Const(value->Const_0),
=== fn dynamic_expressions/src/evaluate.rs ArgView::get
--- ret r
--- spec
requires self matches ArgView::Slice(s) ==> row < s@.len(),
ensures r == view_at(*self, row as int),
=== fn dynamic_expressions/src/evaluate.rs vals2
--- ret r
--- spec
requires A >= 2,
ensures r@[0] == a, r@[1] == b, A == 2 ==> r@ =~= seq![a, b],
=== fn dynamic_expressions/src/evaluate.rs vals1
--- ret r
--- spec
requires A >= 1,
ensures r@[0] == a, A == 1 ==> r@ =~= seq![a],
=== fn dynamic_expressions/src/evaluate.rs make_arg_views
--- ret r
--- opt fromfn:A
--- subst args[j].into() => ArgView::from(args[j])
--- spec
requires args@.len() == A,
ensures
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] r@[j], row) == #[trigger] sref(args@[j], row),
    forall|j: int, n: int| 0 <= j < A && #[trigger] sref_ok(args@[j], n) ==> view_ok(#[trigger] r@[j], n),
    forall|j: int| 0 <= j < A ==> (args@[j] is Slice <==> #[trigger] r@[j] is Slice),
--- loop 0
invariant
    __k0 <= A, __n0 == A, args@.len() == A, __acc0@.len() == __k0,
    forall|j: int| 0 <= j < __k0 ==> (args@[j] is Slice ==> #[trigger] __acc0@[j] == ArgView::Slice(args@[j]->Slice_0))
      && (args@[j] is Const ==> __acc0@[j] == ArgView::Const(args@[j]->Const_0)),
decreases __n0 - __k0,
=== fn dynamic_expressions/src/evaluate.rs eval_unary_loop
--- spec
requires
    view_ok(x, old(out)@.len() as int),
    forall|a: T| call_requires(eval, (a,)),
ensures
    final(out)@.len() == old(out)@.len(),
    forall|i: int| 0 <= i < final(out)@.len() ==> call_ensures(eval, (view_at(x, i),), #[trigger] final(out)@[i]),
--- loop 0
invariant
    forall|a: T| call_requires(eval, (a,)),
    __n0 == out@.len(), __n0 == old(out)@.len(), x_s@.len() == __n0, x == ArgView::Slice(x_s), __k0 <= __n0,
    forall|i: int| 0 <= i < __k0 ==> call_ensures(eval, (view_at(x, i),), #[trigger] out@[i]),
decreases __n0 - __k0,
=== fn dynamic_expressions/src/evaluate.rs eval_binary_loop
--- spec
requires
    view_ok(x, old(out)@.len() as int), view_ok(y, old(out)@.len() as int),
    forall|a: T, b: T| call_requires(eval, (a, b)),
ensures
    final(out)@.len() == old(out)@.len(),
    forall|i: int| 0 <= i < final(out)@.len() ==> call_ensures(eval, (view_at(x, i), view_at(y, i)), #[trigger] final(out)@[i]),
--- loops 3
--- loop 0
invariant
    forall|a: T, b: T| call_requires(eval, (a, b)),
    __n0 == out@.len(), __n0 == old(out)@.len(), x_s@.len() == __n0, x == ArgView::Slice(x_s), y_s@.len() == __n0, y == ArgView::Slice(y_s), __k0 <= __n0,
    forall|i: int| 0 <= i < __k0 ==> call_ensures(eval, (view_at(x, i), view_at(y, i)), #[trigger] out@[i]),
decreases __n0 - __k0,
--- loop 1
invariant
    forall|a: T, b: T| call_requires(eval, (a, b)),
    __n1 == out@.len(), __n1 == old(out)@.len(), x_s@.len() == __n1, x == ArgView::Slice(x_s), y == ArgView::Const(y_c), __k1 <= __n1,
    forall|i: int| 0 <= i < __k1 ==> call_ensures(eval, (view_at(x, i), view_at(y, i)), #[trigger] out@[i]),
decreases __n1 - __k1,
--- loop 2
invariant
    forall|a: T, b: T| call_requires(eval, (a, b)),
    __n2 == out@.len(), __n2 == old(out)@.len(), x == ArgView::Const(x_c), y_s@.len() == __n2, y == ArgView::Slice(y_s), __k2 <= __n2,
    forall|i: int| 0 <= i < __k2 ==> call_ensures(eval, (view_at(x, i), view_at(y, i)), #[trigger] out@[i]),
decreases __n2 - __k2,
=== fn dynamic_expressions/src/evaluate.rs eval_nary
--- ret r
--- opt boolops fromfn:A
--- subst move |a| Op::eval(&vals1(a)) => move |a: T| -> (w: T) requires A >= 1 ensures A == 1 ==> w == Op::ev(seq![a]) { Op::eval(&vals1(a)) }
--- subst move |a, b| Op::eval(&vals2(a, b)) => move |a: T, b: T| -> (w: T) requires A >= 2 ensures A == 2 ==> w == Op::ev(seq![a, b]) { Op::eval(&vals2(a, b)) }
--- spec
requires
    A >= 1, args@.len() == A,
    forall|j: int| 0 <= j < A ==> sref_ok(#[trigger] args@[j], old(out)@.len() as int),
ensures
    final(out)@.len() == old(out)@.len(),
    // values, whenever the call completes or early exit is off
    r || !opts.early_exit ==> forall|row: int| 0 <= row < final(out)@.len() ==> #[trigger] final(out)@[row] == op_row::<A, T, Op>(args@, row), // [P01]
    // completeness flag
    !opts.check_finite ==> r, // [P05]
    opts.check_finite && final(out)@.len() > 0 ==> (r <==> op_fin::<A, T, Op>(args@, final(out)@.len() as int)), // [P05]
--- loops 4
--- loop 0
invariant
    __n0 == args@.len(), __k0 <= __n0,
    __acc0 ==> forall|j: int| 0 <= j < __k0 ==> #[trigger] args@[j] is Const,
ensures
    __acc0 ==> all_const(args@),
decreases __n0 - __k0,
--- loop 1
invariant
    __k1 <= A, __n1 == A, args@.len() == A, __acc1@.len() == __k1, all_const(args@),
    forall|j: int| 0 <= j < __k1 ==> #[trigger] __acc1@[j] == sref(args@[j], 0),
decreases __n1 - __k1,
--- at after out.fill(v)
proof {
    assert(vals@ =~= row_of(args@, 0));
    assert forall|row: int| 0 <= row < out@.len() implies #[trigger] op_row::<A, T, Op>(args@, row) == v by {
        assert(row_of(args@, row) =~= row_of(args@, 0));
    }
    if out@.len() > 0 { assert(op_row::<A, T, Op>(args@, 0) == v); }
}
--- before 2
let ghost n = out@.len() as int;
--- loop 2
invariant
    A >= 3, args@.len() == A, n == out@.len(), n == old(out)@.len(), __n2 == n, __k2 <= __n2, arg_views@.len() == A,
    check_finite == opts.check_finite, early_exit == opts.early_exit,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args@[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|row: int| 0 <= row < __k2 ==> #[trigger] out@[row] == op_row::<A, T, Op>(args@, row),
    complete <==> !check_finite || op_fin::<A, T, Op>(args@, __k2 as int),
    early_exit ==> complete,
decreases __n2 - __k2,
--- loop 3
invariant
    A >= 3, args@.len() == A, row < n, arg_views@.len() == A, __n3 == A, __k3 <= __n3,
    forall|j: int, row: int| 0 <= j < A ==> view_at(#[trigger] arg_views@[j], row) == #[trigger] sref(args@[j], row),
    forall|j: int| 0 <= j < A ==> view_ok(#[trigger] arg_views@[j], n),
    forall|j: int| 0 <= j < __k3 ==> #[trigger] vals@[j] == sref(args@[j], row as int),
decreases __n3 - __k3,
--- after 3
proof { assert(vals@ =~= row_of(args@, row as int)); }
--- at after *outv=v
proof {
    assert(v == op_row::<A, T, Op>(args@, row as int));
    assert(out@.len() == n);
    assert forall|i: int| 0 <= i < __k2 implies #[trigger] out@[i] == op_row::<A, T, Op>(args@, i) by { }
}
--- at before #1 if!check_finite
proof {
    assert forall|i: int| 0 <= i < out@.len() implies #[trigger] out@[i] == op_row::<A, T, Op>(args@, i) by {
        if A == 1 {
            assert(view_at(arg_views@[0], i) == sref(args@[0], i));
            assert(row_of(args@, i) =~= seq![view_at(arg_views@[0], i)]);
        } else if A == 2 {
            assert(view_at(arg_views@[0], i) == sref(args@[0], i));
            assert(view_at(arg_views@[1], i) == sref(args@[1], i));
            assert(row_of(args@, i) =~= seq![view_at(arg_views@[0], i), view_at(arg_views@[1], i)]);
        }
    }
    if !op_fin::<A, T, Op>(args@, out@.len() as int) {
        let bad = choose|i: int| 0 <= i < out@.len() && !(#[trigger] op_row::<A, T, Op>(args@, i)).fin();
        assert(!out@[bad].fin());
    } else {
        assert forall|i: int| 0 <= i < out@.len() implies (#[trigger] out@[i]).fin() by { assert(op_row::<A, T, Op>(args@, i).fin()); }
    }
}
