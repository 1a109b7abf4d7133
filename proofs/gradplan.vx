=== include plan_common.inc
=== include deriv.inc
=== type dynamic_expressions/src/evaluate_derivative.rs GradContext
=== type dynamic_expressions/src/evaluate_derivative.rs GradMatrix
=== include gpost.inc
=== fn dynamic_expressions/src/evaluate.rs resolve_grad_src
--- ret r
--- spec
requires
    src matches Src::Slot(s) ==> s != dst_slot,
    src matches Src::Slot(s) ==> s < dst_slot ==> (s + 1) * slot_stride <= before@.len(),
    src matches Src::Slot(s) ==> s > dst_slot ==> (s - dst_slot) * slot_stride <= after@.len(),
ensures
    gsrc_ok(r, src, variable, dst_slot as int, slot_stride as int, before@, after@), // [P04]
    r is Slice ==> src is Slot,
--- entry
proof {
    assert(before.len() == before@.len());
    assert(after.len() == after@.len());
    match src {
        Src::Slot(s) => {
            if s < dst_slot { idx_le(s as int, slot_stride as int, s + 1); }
            if s > dst_slot { idx_le(s - dst_slot - 1, slot_stride as int, s - dst_slot); }
        },
        _ => {},
    }
}
=== fn dynamic_expressions/src/evaluate_derivative.rs GradContext::new
--- ret r
--- spec
ensures gctx_ok(r), r.n_rows == n_rows,
=== fn dynamic_expressions/src/evaluate_derivative.rs GradContext::ensure_scratch
--- spec
requires gctx_ok(*old(self)), n_dir * old(self).n_rows <= usize::MAX,
ensures
    gctx_ok(*final(self)),
    final(self).val_scratch.rows() == n_slots, final(self).val_scratch.cols() == old(self).n_rows,
    final(self).grad_scratch.rows() == n_slots, final(self).grad_scratch.cols() == n_dir * old(self).n_rows,
    final(self).plan == old(self).plan, final(self).n_rows == old(self).n_rows, final(self).plan_nodes == old(self).plan_nodes,
    final(self).plan_n_features == old(self).plan_n_features, final(self).plan_n_consts == old(self).plan_n_consts, final(self).plan_nodes_len == old(self).plan_nodes_len,
=== fn dynamic_expressions/src/evaluate_derivative.rs nan_grad_return
--- ret r
--- spec
requires n_dir * n_rows <= usize::MAX,
ensures
    !r.2, r.0@.len() == n_rows, r.1.data@.len() == n_dir * n_rows, r.1.n_dir == n_dir, r.1.n_rows == n_rows,
=== fn dynamic_expressions/src/evaluate_derivative.rs eval_grad_tree_array
--- ret r
--- opt boolops vecchunks
--- subst T: Float + core::ops::AddAssign => T: Float
--- attrs
#[verifier::loop_isolation(false)]

--- spec
requires
    expr_ok::<Ops>(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int),
    x_columns.std(), old(ctx).n_rows == x_columns.cols(), gctx_ok(*old(ctx)),
    (if variable { x_columns.rows() as int } else { expr.consts@.len() as int }) * x_columns.cols() <= usize::MAX,
ensures
    gctx_ok(*final(ctx)), // [P06]
    final(ctx).n_rows == old(ctx).n_rows,
    r.0@.len() == x_columns.cols(), r.1.n_rows == x_columns.cols(), r.1.data@.len() == r.1.n_dir * r.1.n_rows,
    r.1.n_dir == if variable { x_columns.rows() as int } else { expr.consts@.len() as int }, // [P04]
    r.2 || !opts.early_exit ==> gval_post::<Ops>(r.0@, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@),
    r.2 || !opts.early_exit ==> grad_post::<Ops>(r.1.data@, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, variable, r.1.n_dir as int), // [P04]
    grad_flag::<Ops>(r.2, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, *opts), // [P05]
--- entry
let ghost nf = x_columns.rows() as int;
let ghost nc = expr.consts@.len() as int;
let ghost cs = expr.consts@;
let ghost xs = x_columns.data();
let ghost tree = tree_of(expr.nodes@);
let ghost nd: int = if variable { nf } else { nc };
let ghost w: int = x_columns.cols() * nd;
proof { assert(nd * x_columns.cols() == w && w >= 0) by (nonlinear_arith) requires w == x_columns.cols() * nd, nd >= 0, x_columns.cols() >= 0; }
--- at before ctx.ensure_scratch
proof {
    // the plan used below is the plan of this very program [P06]
    if !needs_recompile { assert(ctx.plan_nodes@ =~= expr.nodes@); }
    assert(plan_for(ctx.plan->0, expr.nodes@, nf, nc)); // [P06]
}
--- at after let slot_stride
let ghost n = n_rows as int;
let ghost ns = plan.n_slots as int;
let ghost instrs = plan.instrs@;
proof {
    assert(val_scratch.len() == val_scratch@.len());
    assert(grad_scratch.len() == grad_scratch@.len());
    assert(x_data.len() == x_data@.len());
    assert(val_scratch@.len() == ns * n && grad_scratch@.len() == ns * w);
    slots_empty(val_scratch@, ns, n, vden::<Ops>(xs, n, cs));
    slots_empty(grad_scratch@, ns, w, vgden::<Ops>(xs, n, cs, variable));
    assert(instrs.take(0) =~= Seq::empty());
    exec_terms_len(instrs);
    assert(plan_run_ok::<Ops, D>(*plan, expr.nodes@, nf, nc)) by { reveal(plan_run_ok); } // [P06]
}
--- loops 4
--- loop 0
invariant
    __n0 == instrs.len(), instrs == plan.instrs@, __k0 <= __n0,
    plan_run_ok::<Ops, D>(*plan, expr.nodes@, nf, nc), tree == tree_of(expr.nodes@),
    n == n_rows, slot_stride == n_rows, ns == plan.n_slots, nc == expr.consts@.len(), cs == expr.consts@, xs == x_data@, x_data@.len() == nf * n, xs.len() <= usize::MAX,
    val_scratch@.len() == ns * n, grad_scratch@.len() == ns * w, ns * n <= usize::MAX, ns * w <= usize::MAX, grad_stride == w, n_dir == nd, w == n * nd, w == nd * n,
    exec_terms(instrs).len() == instrs.len(),
    slots_hold::<Ops>(sym_exec(instrs.take(__k0 as int)), val_scratch@, ns, xs, n, cs),
    slots_grad::<Ops>(sym_exec(instrs.take(__k0 as int)), grad_scratch@, ns, w, xs, n, cs, variable), // [P04]
    !opts.check_finite ==> complete, // [P05]
    opts.check_finite && n > 0 ==> (complete <==> terms_fin::<Ops>(exec_terms(instrs), __k0 as int, xs, n, cs)), // [P05]
    opts.early_exit ==> complete,
decreases __n0 - __k0,
--- head 0
let ghost k = __k0 - 1;
let ghost m0 = sym_exec(instrs.take(k));
let ghost m1 = sym_exec(instrs.take(k + 1));
let ghost sc0 = val_scratch@;
let ghost dc0 = grad_scratch@;
let ghost d = instr.dst as int;
proof {
    plan_step::<Ops, D>(*plan, expr.nodes@, nf, nc, k);
    idx_split(d, n, ns);
    idx_split(d, w, ns);
}
--- at after let(dst_val,val_after)
let ghost bef = val_before@;
let ghost aft = val_after@;
proof {
    assert(bef =~= sc0.take(d * n));
    assert(aft =~= sc0.skip(d * n + n));
}
--- at after let(dst_grad,grad_after)
let ghost gbef = grad_before@;
let ghost gaft = grad_after@;
proof {
    assert(gbef =~= dc0.take(d * w));
    assert(gaft =~= dc0.skip(d * w + w));
}
--- lattr 1
#[verifier::loop_isolation(true)]
--- loop 1
invariant
    __n1 == arity, __k1 <= __n1, arity == instr.arity, arity <= D, instr_ok(instr, ns, nf, nc), n == n_rows, dst_slot == d, d == instr.dst, d < ns,
    nc == expr.consts@.len(), cs == expr.consts@, xs == x_data@, x_data@.len() == nf * n, grad_stride == w,
    val_before@ == bef, val_after@ == aft, bef.len() == d * n, aft.len() == (ns - d - 1) * n,
    grad_before@ == gbef, grad_after@ == gaft, gbef.len() == d * w, gaft.len() == (ns - d - 1) * w,
    forall|j: int| 0 <= j < __k1 ==> sref_ok(#[trigger] args_refs@[j], n),
    forall|j: int| 0 <= j < __k1 ==> (#[trigger] arg_grads@[j] is Slice ==> args_refs@[j] is Slice),
    forall|j: int, row: int| 0 <= j < __k1 && 0 <= row < n ==> sref(#[trigger] args_refs@[j], row) == #[trigger] src_at(instr.args@[j], xs, n, cs, d, bef, aft, row),
    forall|j: int| 0 <= j < __k1 ==> gsrc_ok(#[trigger] arg_grads@[j], instr.args@[j], variable, d, w, gbef, gaft), // [P04]
decreases __n1 - __k1,
--- head 1
proof { operand_fits(instr, ns, nf, nc, n, j as int); operand_fits(instr, ns, nf, nc, w, j as int); }
--- after 1
let ghost refs = args_refs@.subrange(0, arity as int);
let ghost grefs = arg_grads@.subrange(0, arity as int);
proof {
    args_val::<Ops, D>(instr, m0, sc0, bef, aft, ns, nf, nc, xs, n, cs, refs);
    assert forall|j: int| 0 <= j < refs.len() implies sref_ok(#[trigger] refs[j], n) by { assert(sref_ok(args_refs@[j], n)); }
    assert forall|j: int| 0 <= j < grefs.len() implies gsrc_ok(#[trigger] grefs[j], instr.args@[j], variable, d, w, gbef, gaft)
        && gref_ok(grefs[j], nd, n) && (grefs[j] is Slice ==> refs[j] is Slice) by {
        assert(gsrc_ok(arg_grads@[j], instr.args@[j], variable, d, w, gbef, gaft)); assert(arg_grads@[j] is Slice ==> args_refs@[j] is Slice);
    }
    args_grad::<Ops, D>(instr, m0, dc0, gbef, gaft, ns, nf, nc, xs, n, cs, variable, nd, w, refs, grefs); // [P04]
}
--- at after complete&=ok
proof {
    fin_step::<Ops>(exec_terms(instrs), k, iop(instr), refs, xs, n, cs);
    assert(opts.check_finite ==> (ok <==> op_fin_of::<Ops>(iop(instr), refs, n))); // [P05]
}
--- tail 0
proof {
    let col = val_scratch@.subrange(d * n, d * n + n);
    assert(val_scratch@ =~= sc0.take(d * n) + col + sc0.skip(d * n + n));
    assert forall|q: int| 0 <= q < n implies #[trigger] col[q] == vden::<Ops>(xs, n, cs)(iterm(instr, m0), q) by {
        assert(Ops::ev(iop(instr), row_of(refs, q)) == den::<Ops>(iterm(instr, m0), xs, n, cs, q));
    }
    slots_step(m0, m1, sc0, val_scratch@, ns, n, vden::<Ops>(xs, n, cs), d, iterm(instr, m0), col);
    let gcol = grad_scratch@.subrange(d * w, d * w + w);
    assert(grad_scratch@ =~= dc0.take(d * w) + gcol + dc0.skip(d * w + w));
    assert forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n implies gcol[#[trigger] at(dir, n, row)] == chain_of::<Ops>(iop(instr), row_of(refs, row), grow(grefs, dir, row, n), instr.arity as int) by { // [P04]
        block_index(dir, row, nd, n, w);
    }
    grad_col::<Ops, D>(instr, m0, xs, n, cs, variable, nd, w, refs, grefs, gcol); // [P04]
    slots_step(m0, m1, dc0, grad_scratch@, ns, w, vgden::<Ops>(xs, n, cs, variable), d, iterm(instr, m0), gcol); // [P04]
}
--- after 0
proof {
    assert(instrs.take(__n0 as int) =~= instrs);
    root_val::<Ops, D>(*plan, expr.nodes@, nf, nc, val_scratch@, xs, n, cs);
    root_grad::<Ops, D>(*plan, expr.nodes@, nf, nc, grad_scratch@, xs, n, cs, variable, nd, w); // [P04]
    assert forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n implies 0 <= #[trigger] at(dir, n, row) < w by { block_index(dir, row, nd, n, w); }
}
--- lattr 2
#[verifier::loop_isolation(true)]
--- loop 2
invariant
    w == n * nd, n == n_rows, n >= 0, nd >= 0, out_grad@.len() == w, n > 0 ==> __n2 == nd && __h0 == n, n == 0 ==> __n2 == 0, __cl0 == w, __k2 <= __n2,
    forall|dir: int, row: int| 0 <= dir < __k2 && 0 <= row < n ==> out_grad@[#[trigger] at(dir, n, row)] == if dir == f { T::s_one() } else { T::s_zero() }, // [P04]
decreases __n2 - __k2,
--- top 2
let ghost og = out_grad@;
proof { if n > 0 { idx_le(__k2 as int, n, nd); } else { assert(w == 0) by (nonlinear_arith) requires w == n * nd, n == 0; } }
--- tail 2
proof {
    assert forall|dd: int, row: int| 0 <= dd < __k2 && 0 <= row < n implies out_grad@[#[trigger] at(dd, n, row)] == if dd == f { T::s_one() } else { T::s_zero() } by { // [P04]
        block_index(dd, row, nd, n, w);
        if dd == dir { assert(out_grad@[at(dd, n, row)] == out_grad@.subrange(dir * n, dir * n + n)[row]); }
        else { idx_apart(dd, dir as int, n, row); assert(out_grad@[at(dd, n, row)] == og[at(dd, n, row)]); }
    }
}
--- lattr 3
#[verifier::loop_isolation(true)]
--- loop 3
invariant
    w == n * nd, n == n_rows, n >= 0, nd >= 0, out_grad@.len() == w, n > 0 ==> __n3 == nd && __h1 == n, n == 0 ==> __n3 == 0, __cl1 == w, __k3 <= __n3,
    forall|dir: int, row: int| 0 <= dir < __k3 && 0 <= row < n ==> out_grad@[#[trigger] at(dir, n, row)] == if dir == c { T::s_one() } else { T::s_zero() }, // [P04]
decreases __n3 - __k3,
--- top 3
let ghost og = out_grad@;
proof { if n > 0 { idx_le(__k3 as int, n, nd); } else { assert(w == 0) by (nonlinear_arith) requires w == n * nd, n == 0; } }
--- tail 3
proof {
    assert forall|dd: int, row: int| 0 <= dd < __k3 && 0 <= row < n implies out_grad@[#[trigger] at(dd, n, row)] == if dd == c { T::s_one() } else { T::s_zero() } by { // [P04]
        block_index(dd, row, nd, n, w);
        if dd == dir { assert(out_grad@[at(dd, n, row)] == out_grad@.subrange(dir * n, dir * n + n)[row]); }
        else { idx_apart(dd, dir as int, n, row); assert(out_grad@[at(dd, n, row)] == og[at(dd, n, row)]); }
    }
}
