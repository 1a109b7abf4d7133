=== include plan_common.inc
=== include deriv.inc
=== type dynamic_expressions/src/evaluate_derivative.rs DiffContext
=== raw
pub open spec fn dctx_ok<T: Float, const D: usize>(c: DiffContext<T, D>) -> bool {
    &&& c.plan matches Some(p) ==> plan_for(p, c.plan_nodes@, c.plan_n_features as int, c.plan_n_consts as int) && c.plan_nodes_len == c.plan_nodes@.len()
    &&& c.val_scratch.std() && c.der_scratch.std()
}
pub open spec fn diff_values<O: OpSem>(val: Seq<O::T>, der: Seq<O::T>, nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>, dir: int) -> bool {
    &&& forall|row: int| 0 <= row < n ==> #[trigger] val[row] == den::<O>(tree_of(nodes), x, n, c, row)
    &&& forall|row: int| 0 <= row < n ==> #[trigger] der[row] == dden::<O>(tree_of(nodes), x, n, c, Seed::Var(dir), row)
}
pub open spec fn diff_flag<O: OpSem>(r: bool, nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>, opts: EvalOptions) -> bool {
    &&& !opts.check_finite ==> r
    &&& opts.check_finite && n > 0 && r ==> tree_fin::<O>(tree_of(nodes), x, n, c)
    &&& opts.check_finite && n > 0 && low_arity(tree_of(nodes)) && tree_fin::<O>(tree_of(nodes), x, n, c) ==> r
}
=== fn dynamic_expressions/src/evaluate.rs resolve_der_src
--- ret r
--- spec
requires
    src matches Src::Slot(s) ==> s != dst_slot,
    src matches Src::Slot(s) ==> s < dst_slot ==> (s + 1) * n_rows <= before@.len(),
    src matches Src::Slot(s) ==> s > dst_slot ==> (s - dst_slot) * n_rows <= after@.len(),
ensures
    sref_ok(r, n_rows as int),
    r is Slice ==> src is Slot,
    forall|row: int| 0 <= row < n_rows ==> #[trigger] sref(r, row) == dsrc_at(src, direction as int, n_rows as int, dst_slot as int, before@, after@, row), // [P03]
--- entry
proof {
    assert(before.len() == before@.len());
    assert(after.len() == after@.len());
    match src {
        Src::Slot(s) => {
            if s < dst_slot { idx_le(s as int, n_rows as int, s + 1); }
            if s > dst_slot { idx_le(s - dst_slot - 1, n_rows as int, s - dst_slot); }
        },
        _ => {},
    }
}
=== fn dynamic_expressions/src/evaluate_derivative.rs DiffContext::new
--- ret r
--- spec
ensures dctx_ok(r), r.n_rows == n_rows,
=== fn dynamic_expressions/src/evaluate_derivative.rs DiffContext::ensure_scratch
--- spec
requires dctx_ok(*old(self)),
ensures
    dctx_ok(*final(self)),
    final(self).val_scratch.rows() == n_slots, final(self).val_scratch.cols() == old(self).n_rows,
    final(self).der_scratch.rows() == n_slots, final(self).der_scratch.cols() == old(self).n_rows,
    final(self).plan == old(self).plan, final(self).n_rows == old(self).n_rows, final(self).plan_nodes == old(self).plan_nodes,
    final(self).plan_n_features == old(self).plan_n_features, final(self).plan_n_consts == old(self).plan_n_consts, final(self).plan_nodes_len == old(self).plan_nodes_len,
=== fn dynamic_expressions/src/evaluate_derivative.rs eval_diff_tree_array
--- ret r
--- opt boolops
--- attrs
#[verifier::loop_isolation(false)]

--- spec
requires
    expr_ok::<Ops>(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int),
    x_columns.std(), direction < x_columns.rows(), old(ctx).n_rows == x_columns.cols(), dctx_ok(*old(ctx)),
ensures
    dctx_ok(*final(ctx)), // [P06]
    final(ctx).n_rows == old(ctx).n_rows,
    r.0@.len() == x_columns.cols(), r.1@.len() == x_columns.cols(),
    r.2 || !opts.early_exit ==> diff_values::<Ops>(r.0@, r.1@, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, direction as int), // [P03]
    diff_flag::<Ops>(r.2, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, *opts), // [P05]
--- entry
let ghost nf = x_columns.rows() as int;
let ghost nc = expr.consts@.len() as int;
let ghost cs = expr.consts@;
let ghost xs = x_columns.data();
let ghost tree = tree_of(expr.nodes@);
let ghost seed = Seed::Var(direction as int);
--- at before let n_slots
proof {
    // the plan used below is the plan of this very program [P06]
    if !needs_recompile { assert(ctx.plan_nodes@ =~= expr.nodes@); }
    assert(plan_for(ctx.plan->0, expr.nodes@, nf, nc)); // [P06]
}
--- at after let slot_stride
let ghost n = n_rows as int;
let ghost ns = plan.n_slots as int;
let ghost instrs = plan.instrs@;
proof {
    assert(val_scratch.len() == val_scratch@.len());
    assert(der_scratch.len() == der_scratch@.len());
    assert(x_data.len() == x_data@.len());
    assert(val_scratch@.len() == ns * n && der_scratch@.len() == ns * n);
    slots_empty(val_scratch@, ns, n, vden::<Ops>(xs, n, cs));
    slots_empty(der_scratch@, ns, n, vdden::<Ops>(xs, n, cs, seed));
    assert(instrs.take(0) =~= Seq::empty());
    exec_terms_len(instrs);
    assert(plan_run_ok::<Ops, D>(*plan, expr.nodes@, nf, nc)) by { reveal(plan_run_ok); } // [P06]
}
--- loops 3
--- loop 0
invariant
    __n0 == instrs.len(), instrs == plan.instrs@, __k0 <= __n0,
    plan_run_ok::<Ops, D>(*plan, expr.nodes@, nf, nc), tree == tree_of(expr.nodes@),
    n == n_rows, slot_stride == n_rows, ns == plan.n_slots, nc == expr.consts@.len(), cs == expr.consts@, xs == x_data@, x_data@.len() == nf * n, xs.len() <= usize::MAX,
    val_scratch@.len() == ns * n, der_scratch@.len() == ns * n, ns * n <= usize::MAX,
    exec_terms(instrs).len() == instrs.len(),
    slots_hold::<Ops>(sym_exec(instrs.take(__k0 as int)), val_scratch@, ns, xs, n, cs),
    slots_der::<Ops>(sym_exec(instrs.take(__k0 as int)), der_scratch@, ns, xs, n, cs, seed), // [P03]
    !opts.check_finite ==> complete, // [P05]
    opts.check_finite && n > 0 && complete ==> terms_fin::<Ops>(exec_terms(instrs), __k0 as int, xs, n, cs), // [P05]
    opts.check_finite && n > 0 && low_arity(tree) && terms_fin::<Ops>(exec_terms(instrs), __k0 as int, xs, n, cs) ==> complete, // [P05]
    opts.early_exit ==> complete,
decreases __n0 - __k0,
--- head 0
let ghost k = __k0 - 1;
let ghost m0 = sym_exec(instrs.take(k));
let ghost m1 = sym_exec(instrs.take(k + 1));
let ghost sc0 = val_scratch@;
let ghost dc0 = der_scratch@;
let ghost d = instr.dst as int;
proof {
    plan_step::<Ops, D>(*plan, expr.nodes@, nf, nc, k);
    idx_split(d, n, ns);
}
--- at after let(dst_val,val_after)
let ghost bef = val_before@;
let ghost aft = val_after@;
proof {
    assert(bef =~= sc0.take(d * n));
    assert(aft =~= sc0.skip(d * n + n));
}
--- at after let(dst_der,der_after)
let ghost dbef = der_before@;
let ghost daft = der_after@;
proof {
    assert(dbef =~= dc0.take(d * n));
    assert(daft =~= dc0.skip(d * n + n));
}
--- lattr 1
#[verifier::loop_isolation(true)]
--- loop 1
invariant
    __n1 == arity, __k1 <= __n1, arity == instr.arity, arity <= D, instr_ok(instr, ns, nf, nc), n == n_rows, dst_slot == d, d == instr.dst, d < ns,
    nc == expr.consts@.len(), cs == expr.consts@, xs == x_data@, x_data@.len() == nf * n,
    val_before@ == bef, val_after@ == aft, bef.len() == d * n, aft.len() == (ns - d - 1) * n,
    der_before@ == dbef, der_after@ == daft, dbef.len() == d * n, daft.len() == (ns - d - 1) * n,
    forall|j: int| 0 <= j < __k1 ==> sref_ok(#[trigger] args_refs@[j], n),
    forall|j: int| 0 <= j < __k1 ==> sref_ok(#[trigger] dargs_refs@[j], n),
    forall|j: int| 0 <= j < __k1 ==> (#[trigger] dargs_refs@[j] is Slice ==> args_refs@[j] is Slice),
    forall|j: int, row: int| 0 <= j < __k1 && 0 <= row < n ==> sref(#[trigger] args_refs@[j], row) == #[trigger] src_at(instr.args@[j], xs, n, cs, d, bef, aft, row),
    forall|j: int, row: int| 0 <= j < __k1 && 0 <= row < n ==> sref(#[trigger] dargs_refs@[j], row) == #[trigger] dsrc_at(instr.args@[j], direction as int, n, d, dbef, daft, row), // [P03]
decreases __n1 - __k1,
--- head 1
proof { operand_fits(instr, ns, nf, nc, n, j as int); }
--- after 1
let ghost refs = args_refs@.subrange(0, arity as int);
let ghost drefs = dargs_refs@.subrange(0, arity as int);
proof {
    args_val::<Ops, D>(instr, m0, sc0, bef, aft, ns, nf, nc, xs, n, cs, refs);
    args_der::<Ops, D>(instr, m0, dc0, dbef, daft, ns, nf, nc, xs, n, cs, direction as int, refs, drefs); // [P03]
    assert forall|j: int| 0 <= j < refs.len() implies sref_ok(#[trigger] refs[j], n) by { assert(sref_ok(args_refs@[j], n)); }
    assert forall|j: int| 0 <= j < drefs.len() implies sref_ok(#[trigger] drefs[j], n) by { assert(sref_ok(dargs_refs@[j], n)); }
    assert forall|j: int| 0 <= j < drefs.len() implies (#[trigger] drefs[j] is Slice ==> refs[j] is Slice) by { assert(dargs_refs@[j] is Slice ==> args_refs@[j] is Slice); }
}
--- at after complete&=ok
proof {
    fin_step::<Ops>(exec_terms(instrs), k, iop(instr), refs, xs, n, cs);
    assert(opts.check_finite && ok ==> op_fin_of::<Ops>(iop(instr), refs, n)); // [P05]
    assert(opts.check_finite && instr.arity <= 2 ==> (ok <==> op_fin_of::<Ops>(iop(instr), refs, n))); // [P05]
    if low_arity(tree) { assert(op_of(subops(tree)[k]).arity <= 2); }
}
--- tail 0
proof {
    let col = val_scratch@.subrange(d * n, d * n + n);
    assert(val_scratch@ =~= sc0.take(d * n) + col + sc0.skip(d * n + n));
    assert forall|q: int| 0 <= q < n implies #[trigger] col[q] == vden::<Ops>(xs, n, cs)(iterm(instr, m0), q) by {
        assert(Ops::ev(iop(instr), row_of(refs, q)) == den::<Ops>(iterm(instr, m0), xs, n, cs, q));
    }
    slots_step(m0, m1, sc0, val_scratch@, ns, n, vden::<Ops>(xs, n, cs), d, iterm(instr, m0), col);
    let dcol = der_scratch@.subrange(d * n, d * n + n);
    assert(der_scratch@ =~= dc0.take(d * n) + dcol + dc0.skip(d * n + n));
    assert forall|q: int| 0 <= q < n implies #[trigger] dcol[q] == vdden::<Ops>(xs, n, cs, seed)(iterm(instr, m0), q) by { // [P03]
        assert(chain_of::<Ops>(iop(instr), row_of(refs, q), row_of(drefs, q), instr.arity as int) == dden::<Ops>(iterm(instr, m0), xs, n, cs, seed, q));
    }
    slots_step(m0, m1, dc0, der_scratch@, ns, n, vdden::<Ops>(xs, n, cs, seed), d, iterm(instr, m0), dcol); // [P03]
}
--- after 0
proof {
    assert(instrs.take(__n0 as int) =~= instrs);
    root_val::<Ops, D>(*plan, expr.nodes@, nf, nc, val_scratch@, xs, n, cs);
    root_der::<Ops, D>(*plan, expr.nodes@, nf, nc, der_scratch@, xs, n, cs, seed); // [P03]
}
--- loop 2
invariant
    __n2 == n, __k2 <= __n2, der@.len() == n,
    forall|row: int| 0 <= row < __k2 ==> #[trigger] der@[row] == if f == direction { T::s_one() } else { T::s_zero() }, // [P03]
decreases __n2 - __k2,
