=== include plan_common.inc
=== type dynamic_expressions/src/evaluate.rs EvalContext
=== include epost.inc
=== fn dynamic_expressions/src/evaluate.rs eval_plan_array_into
--- ret r
--- opt boolops
--- attrs
#[verifier::loop_isolation(false)]

--- spec
requires
    plan_run_ok::<Ops, D>(*plan, expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int),
    x_columns.std(), old(out)@.len() == x_columns.cols(), old(scratch).std(),
ensures
    final(scratch).std(),
    eval_post::<Ops>(r, final(out)@, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, *opts),
--- entry
let ghost nf = x_columns.rows() as int;
let ghost nc = expr.consts@.len() as int;
let ghost cs = expr.consts@;
let ghost xs = x_columns.data();
let ghost ns = plan.n_slots as int;
let ghost instrs = plan.instrs@;
let ghost tree = tree_of(expr.nodes@);
--- at after let scratch_data
let ghost n = n_rows as int;
proof {
    assert(scratch_data.len() == scratch_data@.len());
    assert(x_data.len() == x_data@.len());
    assert(scratch_data@.len() == ns * n);
    slots_empty(scratch_data@, ns, n, vden::<Ops>(xs, n, cs));
    assert(instrs.take(0) =~= Seq::empty());
    exec_terms_len(instrs);
}
--- loops 2
--- loop 0
invariant
    __n0 == instrs.len(), instrs == plan.instrs@, __k0 <= __n0,
    plan_run_ok::<Ops, D>(*plan, expr.nodes@, nf, nc), tree == tree_of(expr.nodes@),
    n == n_rows, slot_stride == n_rows, ns == plan.n_slots, nc == expr.consts@.len(), cs == expr.consts@, xs == x_data@, x_data@.len() == nf * n, xs.len() <= usize::MAX,
    scratch_data@.len() == ns * n, ns * n <= usize::MAX,
    exec_terms(instrs).len() == instrs.len(),
    slots_hold::<Ops>(sym_exec(instrs.take(__k0 as int)), scratch_data@, ns, xs, n, cs),
    !opts.check_finite ==> complete,
    opts.check_finite && n > 0 ==> (complete <==> terms_fin::<Ops>(exec_terms(instrs), __k0 as int, xs, n, cs)),
    opts.early_exit ==> complete,
decreases __n0 - __k0,
--- head 0
let ghost k = __k0 - 1;
let ghost m0 = sym_exec(instrs.take(k));
let ghost m1 = sym_exec(instrs.take(k + 1));
let ghost sc0 = scratch_data@;
let ghost d = instr.dst as int;
proof {
    plan_step::<Ops, D>(*plan, expr.nodes@, nf, nc, k);
    idx_split(d, n, ns);
}
--- at after let(dst_buf,after)
let ghost bef = before@;
let ghost aft = after@;
proof {
    assert(bef =~= sc0.take(d * n));
    assert(aft =~= sc0.skip(d * n + n));
}
--- lattr 1
#[verifier::loop_isolation(true)]
--- loop 1
invariant
    __n1 == arity, __k1 <= __n1, arity == instr.arity, arity <= D, instr_ok(instr, ns, nf, nc), n == n_rows, dst_slot == d, d == instr.dst, d < ns,
    nc == expr.consts@.len(), cs == expr.consts@, xs == x_data@, x_data@.len() == nf * n,
    before@ == bef, after@ == aft, bef.len() == d * n, aft.len() == (ns - d - 1) * n,
    forall|j: int| 0 <= j < __k1 ==> sref_ok(#[trigger] args_refs@[j], n),
    forall|j: int, row: int| 0 <= j < __k1 && 0 <= row < n ==> sref(#[trigger] args_refs@[j], row) == #[trigger] src_at(instr.args@[j], xs, n, cs, d, bef, aft, row),
decreases __n1 - __k1,
--- head 1
proof { operand_fits(instr, ns, nf, nc, n, j as int); }
--- after 1
let ghost refs = args_refs@.subrange(0, arity as int);
proof {
    args_val::<Ops, D>(instr, m0, sc0, bef, aft, ns, nf, nc, xs, n, cs, refs);
    assert forall|j: int| 0 <= j < refs.len() implies sref_ok(#[trigger] refs[j], n) by { assert(sref_ok(args_refs@[j], n)); }
}
--- at after complete&=ok
proof {
    fin_step::<Ops>(exec_terms(instrs), k, iop(instr), refs, xs, n, cs);
    if opts.check_finite && n > 0 {
        let o = iop(instr);
        assert(scratch_data@.len() == sc0.len());
        if ok { assert forall|row: int| 0 <= row < n implies (#[trigger] Ops::ev(o, row_of(refs, row))).fin() by { } }
        if op_fin_of::<Ops>(o, refs, n) { assert(ok); }
    }
}
--- tail 0
proof {
    let col = scratch_data@.subrange(d * n, d * n + n);
    assert(scratch_data@ =~= sc0.take(d * n) + col + sc0.skip(d * n + n));
    assert forall|q: int| 0 <= q < n implies #[trigger] col[q] == vden::<Ops>(xs, n, cs)(iterm(instr, m0), q) by {
        assert(Ops::ev(iop(instr), row_of(refs, q)) == den::<Ops>(iterm(instr, m0), xs, n, cs, q));
    }
    slots_step(m0, m1, sc0, scratch_data@, ns, n, vden::<Ops>(xs, n, cs), d, iterm(instr, m0), col);
}
--- after 0
proof {
    assert(instrs.take(__n0 as int) =~= instrs);
    root_val::<Ops, D>(*plan, expr.nodes@, nf, nc, scratch_data@, xs, n, cs);
}
=== raw
/// A context only ever holds a plan of the program it says it holds, and a standard-layout scratch buffer.
pub open spec fn ctx_ok<T: Float, const D: usize>(c: EvalContext<T, D>) -> bool {
    &&& c.plan matches Some(p) ==> plan_for(p, c.plan_nodes@, c.plan_n_features as int, c.plan_n_consts as int) && c.plan_nodes_len == c.plan_nodes@.len()
    &&& c.scratch matches Some(s) ==> s.std()
}
=== fn dynamic_expressions/src/evaluate.rs EvalContext::new
--- ret r
--- spec
ensures ctx_ok(r), r.n_rows == n_rows,
=== fn dynamic_expressions/src/evaluate.rs EvalContext::needs_recompile
--- ret r
--- spec
requires ctx_ok(*self),
ensures
    // a plan is kept only for the very program, feature count and constant count it was compiled for [P06]
    !r ==> self.plan is Some && plan_for(self.plan->0, expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int), // [P06]
--- exit
proof { if !__ret { assert(self.plan_nodes@ =~= expr.nodes@); } }
=== fn dynamic_expressions/src/evaluate.rs EvalContext::ensure_scratch
--- ret r
--- spec
requires ctx_ok(*old(self)),
ensures
    ctx_ok(*final(self)), final(self).scratch is Some,
    final(self).plan == old(self).plan, final(self).n_rows == old(self).n_rows, final(self).plan_nodes == old(self).plan_nodes,
    final(self).plan_n_features == old(self).plan_n_features, final(self).plan_n_consts == old(self).plan_n_consts, final(self).plan_nodes_len == old(self).plan_nodes_len,
=== fn dynamic_expressions/src/evaluate.rs EvalContext::setup
--- panics !compilable(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int)
--- spec
requires ctx_ok(*old(self)), expr.nodes@.len() <= 65535, 
    compilable(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int),
ensures
    ctx_ok(*final(self)), final(self).scratch is Some, final(self).plan is Some, final(self).n_rows == old(self).n_rows,
    plan_for(final(self).plan->0, expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int),
=== fn dynamic_expressions/src/evaluate.rs eval_tree_array_into
--- ret r
--- spec
requires
    expr_ok::<Ops>(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int),
    x_columns.std(), old(out)@.len() == x_columns.cols(), old(ctx).n_rows == x_columns.cols(), ctx_ok(*old(ctx)),
ensures
    ctx_ok(*final(ctx)), final(ctx).n_rows == old(ctx).n_rows,
    eval_post::<Ops>(r, final(out)@, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, *opts),
--- at before let plan
proof { reveal(plan_run_ok); }
=== fn dynamic_expressions/src/evaluate.rs eval_tree_array
--- ret r
--- spec
requires
    expr_ok::<Ops>(expr.nodes@, x_columns.rows() as int, expr.consts@.len() as int, D as int), x_columns.std(),
ensures
    eval_post::<Ops>(r.1, r.0@, expr.nodes@, x_columns.data(), x_columns.cols() as int, expr.consts@, *opts),
