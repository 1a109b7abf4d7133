=== include compile.vx
=== include float.inc
=== include idx.inc
=== include array.inc
=== include opset.inc
=== include slots.inc
=== raw
/// what a source denotes while instruction `d` runs
pub open spec fn src_at<T>(src: Src, x: Seq<T>, n: int, c: Seq<T>, d: int, before: Seq<T>, after: Seq<T>, row: int) -> T {
    match src {
        Src::Var(f) => x[f * n + row],
        Src::Const(k) => c[k as int],
        Src::Slot(s) => other_slot(s as int, d, n, before, after, row),
    }
}
pub open spec fn vden<O: OpSem>(x: Seq<O::T>, n: int, c: Seq<O::T>) -> spec_fn(Term, int) -> O::T { |t: Term, row: int| den::<O>(t, x, n, c, row) }
pub open spec fn slots_hold<O: OpSem>(m: Map<int, Term>, scratch: Seq<O::T>, ns: int, x: Seq<O::T>, n: int, c: Seq<O::T>) -> bool {
    slots_fn(m, scratch, ns, n, vden::<O>(x, n, c))
}
pub open spec fn iop<const D: usize>(i: Instr<D>) -> OpId { OpId { arity: i.arity, id: i.op } }
pub open spec fn iterm<const D: usize>(i: Instr<D>, m: Map<int, Term>) -> Term { Term::Op(i.arity, i.op, arg_terms(i, m)) }
pub open spec fn args_dom<const D: usize>(i: Instr<D>, m: Map<int, Term>) -> bool { forall|j: int| 0 <= j < i.arity ==> src_dom(#[trigger] i.args[j], m) }
/// the k-th instruction of the plan of a program
pub proof fn plan_step<O: OpSem, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int, k: int)
    requires plan_run_ok::<O, D>(p, nodes, nf, nc), 0 <= k < p.instrs@.len(),
    ensures
        instr_ok(p.instrs@[k], p.n_slots as int, nf, nc), args_dom(p.instrs@[k], sym_exec(p.instrs@.take(k))),
        sym_exec(p.instrs@.take(k + 1)) == sym_exec(p.instrs@.take(k)).insert(p.instrs@[k].dst as int, iterm(p.instrs@[k], sym_exec(p.instrs@.take(k)))),
        exec_terms(p.instrs@).len() == p.instrs@.len(), subops(tree_of(nodes)) == exec_terms(p.instrs@),
        exec_terms(p.instrs@)[k] == iterm(p.instrs@[k], sym_exec(p.instrs@.take(k))),
        O::has(iop(p.instrs@[k])), op_of(subops(tree_of(nodes))[k]) == iop(p.instrs@[k]),
{
    reveal(plan_run_ok);
    exec_step(p.instrs@, k); run_ok_at(p.instrs@, k); exec_terms_at(p.instrs@, k);
    assert(O::has(op_of(subops(tree_of(nodes))[k])));
}
/// the operand references of an instruction read the operand terms' values
pub proof fn args_val<O: OpSem, const D: usize>(i: Instr<D>, m: Map<int, Term>, sc: Seq<O::T>, before: Seq<O::T>, after: Seq<O::T>, ns: int, nf: int, nc: int,
    x: Seq<O::T>, n: int, c: Seq<O::T>, refs: Seq<SrcRef<'_, O::T>>)
    requires
        slots_hold::<O>(m, sc, ns, x, n, c), instr_ok(i, ns, nf, nc), args_dom(i, m), n >= 0, sc.len() == ns * n,
        before == sc.take(i.dst * n), after == sc.skip(i.dst * n + n), refs.len() == i.arity,
        forall|j: int, row: int| 0 <= j < i.arity && 0 <= row < n ==> sref(#[trigger] refs[j], row) == #[trigger] src_at(i.args@[j], x, n, c, i.dst as int, before, after, row),
    ensures
        forall|row: int| 0 <= row < n ==> #[trigger] row_of(refs, row) == den_all::<O>(arg_terms(i, m), x, n, c, row),
        forall|row: int| 0 <= row < n ==> O::ev(iop(i), #[trigger] row_of(refs, row)) == den::<O>(iterm(i, m), x, n, c, row),
{
    assert forall|row: int| 0 <= row < n implies #[trigger] row_of(refs, row) == den_all::<O>(arg_terms(i, m), x, n, c, row) by {
        den_all_at::<O>(arg_terms(i, m), x, n, c, row);
        assert forall|j: int| 0 <= j < i.arity implies row_of(refs, row)[j] == den_all::<O>(arg_terms(i, m), x, n, c, row)[j] by {
            let a = i.args@[j];
            assert(sref(refs[j], row) == src_at(a, x, n, c, i.dst as int, before, after, row));
            assert(src_dom(i.args[j], m) && src_ok(i.args[j], ns, nf, nc));
            if let Src::Slot(s) = a {
                slot_read(m, sc, ns, n, vden::<O>(x, n, c), i.dst as int, before, after, s as int);
                assert(other_slot(s as int, i.dst as int, n, before, after, row) == vden::<O>(x, n, c)(m[s as int], row));
            }
        }
        assert(row_of(refs, row) =~= den_all::<O>(arg_terms(i, m), x, n, c, row));
    }
}
pub proof fn fin_step<O: OpSem>(ts: Seq<Term>, k: int, op: OpId, refs: Seq<SrcRef<'_, O::T>>, xs: Seq<O::T>, n: int, cs: Seq<O::T>)
    requires 0 <= k < ts.len(), forall|row: int| 0 <= row < n ==> O::ev(op, #[trigger] row_of(refs, row)) == den::<O>(ts[k], xs, n, cs, row),
    ensures
        terms_fin::<O>(ts, k + 1, xs, n, cs) <==> terms_fin::<O>(ts, k, xs, n, cs) && op_fin_of::<O>(op, refs, n),
        !op_fin_of::<O>(op, refs, n) ==> !terms_fin::<O>(ts, ts.len() as int, xs, n, cs),
        !terms_fin::<O>(ts, k, xs, n, cs) ==> !terms_fin::<O>(ts, ts.len() as int, xs, n, cs),
{
    if terms_fin::<O>(ts, k + 1, xs, n, cs) || terms_fin::<O>(ts, ts.len() as int, xs, n, cs) {
        assert forall|row: int| 0 <= row < n implies (#[trigger] O::ev(op, row_of(refs, row))).fin() by { assert(den::<O>(ts[k], xs, n, cs, row).fin()); }
    }
    if terms_fin::<O>(ts, k, xs, n, cs) && op_fin_of::<O>(op, refs, n) {
        assert forall|i: int, row: int| 0 <= i < k + 1 && 0 <= row < n implies (#[trigger] den::<O>(ts[i], xs, n, cs, row)).fin() by {
            if i == k { assert(O::ev(op, row_of(refs, row)).fin()); }
        }
    }
}
/// what the root source of a plan denotes
pub proof fn root_val<O: OpSem, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int, sc: Seq<O::T>, x: Seq<O::T>, n: int, c: Seq<O::T>)
    requires plan_run_ok::<O, D>(p, nodes, nf, nc), slots_hold::<O>(sym_exec(p.instrs@), sc, p.n_slots as int, x, n, c), n >= 0, sc.len() == p.n_slots * n,
    ensures
        src_ok(p.root, p.n_slots as int, nf, nc), exec_terms(p.instrs@) == subops(tree_of(nodes)), exec_terms(p.instrs@).len() == p.instrs@.len(),
        p.root matches Src::Slot(s) ==> 0 <= s * n && s * n + n <= sc.len() && sym_exec(p.instrs@).dom().contains(s as int) && sym_exec(p.instrs@)[s as int] == tree_of(nodes)
            && forall|row: int| 0 <= row < n ==> #[trigger] sc.subrange(s * n, s * n + n)[row] == den::<O>(tree_of(nodes), x, n, c, row),
        p.root matches Src::Var(f) ==> tree_of(nodes) == Term::Var(f) && 0 <= f * n && f * n + n <= nf * n && (f + 1) * n == f * n + n && subops(tree_of(nodes)).len() == 0,
        p.root matches Src::Const(k) ==> tree_of(nodes) == Term::Const(k) && subops(tree_of(nodes)).len() == 0,
{
    reveal(plan_run_ok);
    exec_terms_len(p.instrs@);
    let m = sym_exec(p.instrs@);
    match p.root {
        Src::Var(f) => { idx_le(f as int, n, nf); assert(subops(tree_of(nodes)) =~= Seq::<Term>::empty()); },
        Src::Slot(s) => {
            assert(src_dom(p.root, m));
            slot_at(m, sc, p.n_slots as int, n, vden::<O>(x, n, c), s as int);
            assert forall|row: int| 0 <= row < n implies #[trigger] sc.subrange(s * n, s * n + n)[row] == den::<O>(tree_of(nodes), x, n, c, row) by {
                assert(sc.subrange(s * n, s * n + n)[row] == vden::<O>(x, n, c)(m[s as int], row));
            }
        },
        Src::Const(c) => { assert(subops(tree_of(nodes)) =~= Seq::<Term>::empty()); },
    }
}
/// operand j of an instruction lies inside the buffers
pub proof fn operand_fits<const D: usize>(i: Instr<D>, ns: int, nf: int, nc: int, n: int, j: int)
    requires instr_ok(i, ns, nf, nc), 0 <= j < i.arity, n >= 0,
    ensures
        src_ok(i.args@[j], ns, nf, nc),
        i.args@[j] matches Src::Var(f) ==> (f + 1) * n <= nf * n,
        i.args@[j] matches Src::Slot(s) ==> s != i.dst && (s < i.dst ==> (s + 1) * n <= i.dst * n) && (s > i.dst ==> (s - i.dst) * n <= (ns - i.dst - 1) * n),
{
    let d = i.dst as int;
    assert(src_ok(i.args[j], ns, nf, nc) && i.args[j] != Src::Slot(i.dst));
    match i.args@[j] {
        Src::Var(f) => { idx_le(f as int, n, nf); },
        Src::Slot(s) => {
            if s < d { idx_le(s as int, n, d); }
            if s > d { idx_after(s as int, d, n, ns); assert((s - d) * n == (s - d - 1) * n + n) by (nonlinear_arith); }
        },
        _ => {},
    }
}
pub open spec fn expr_ok<O: OpSem>(nodes: Seq<PNode>, nf: int, nc: int, d: int) -> bool {
    compilable(nodes, nf, nc, d) && ops_known::<O>(tree_of(nodes)) && nodes.len() <= 65535
}
#[verifier::opaque]
pub open spec fn plan_run_ok<O: OpSem, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int) -> bool {
    plan_for(p, nodes, nf, nc) && ops_known::<O>(tree_of(nodes))
}
=== fn dynamic_expressions/src/evaluate.rs resolve_val_src
--- ret r
--- spec
requires
    src matches Src::Var(f) ==> (f + 1) * n_rows <= x_columns@.len(),
    src matches Src::Const(k) ==> k < consts@.len(),
    src matches Src::Slot(s) ==> s != dst_slot,
    src matches Src::Slot(s) ==> s < dst_slot ==> (s + 1) * n_rows <= before@.len(),
    src matches Src::Slot(s) ==> s > dst_slot ==> (s - dst_slot) * n_rows <= after@.len(),
ensures
    sref_ok(r, n_rows as int),
    src is Slot ==> r is Slice,
    src is Const <==> r is Const,
    forall|row: int| 0 <= row < n_rows ==> #[trigger] sref(r, row) == src_at(src, x_columns@, n_rows as int, consts@, dst_slot as int, before@, after@, row),
--- entry
proof {
    assert(x_columns.len() == x_columns@.len());
    assert(before.len() == before@.len());
    assert(after.len() == after@.len());
    match src {
        Src::Var(f) => { idx_le(f as int, n_rows as int, f + 1); },
        Src::Slot(s) => {
            if s < dst_slot { idx_le(s as int, n_rows as int, s + 1); }
            if s > dst_slot { idx_le(s - dst_slot - 1, n_rows as int, s - dst_slot); }
        },
        _ => {},
    }
}
