=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== type dynamic_expressions/src/dispatch.rs EvalKernelCtx
=== type dynamic_expressions/src/dispatch.rs DiffKernelCtx
=== type dynamic_expressions/src/dispatch.rs GradKernelCtx
=== type dynamic_expressions/src/expression.rs PostfixExpr
drop meta
=== raw
// An operator set: ids it knows, the function each denotes, and a kernel dispatcher.  Each generated `eval`/`diff`/`grad` forwards to the
// kernel of the operator (opset! macro); the kernels' contracts are proved in units kernels/gradkernels and assumed here for the dispatcher.
pub trait OpSem: Sized {
    type T: Float;
    spec fn has(op: OpId) -> bool;
    spec fn ev(op: OpId, args: Seq<Self::T>) -> Self::T;
    /// partial derivative with respect to argument idx
    spec fn pa(op: OpId, args: Seq<Self::T>, idx: int) -> Self::T;
    /// the token is a name of the operator (its name, or the symbol it is displayed with)
    spec fn named(token: &str, op: OpId) -> bool;
}
/// why a token lookup failed (no contract speaks about it)
pub struct LookupError { pub token: String }
pub trait OperatorSet: OpSem {
    fn lookup_with_arity(token: &str, arity: u8) -> (r: Result<OpId, LookupError>)
        ensures r matches Ok(op) ==> op.arity == arity && Self::has(op) && Self::named(token, op);
    fn eval(op: OpId, ctx: EvalKernelCtx<'_, '_, Self::T>) -> (r: bool)
        requires
            Self::has(op), op.arity >= 1, ctx.args@.len() == op.arity,
            forall|j: int| 0 <= j < ctx.args@.len() ==> sref_ok(#[trigger] ctx.args@[j], old(ctx.out)@.len() as int),
        ensures
            final(ctx.out)@.len() == old(ctx.out)@.len(),
            r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out)@.len() ==> #[trigger] final(ctx.out)@[row] == Self::ev(op, row_of(ctx.args@, row)),
            !ctx.opts.check_finite ==> r,
            ctx.opts.check_finite && final(ctx.out)@.len() > 0 ==> (r <==> forall|row: int| 0 <= row < final(ctx.out)@.len() ==> (#[trigger] Self::ev(op, row_of(ctx.args@, row))).fin());
    fn diff(op: OpId, ctx: DiffKernelCtx<'_, '_, Self::T>) -> (r: bool)
        requires
            Self::has(op), op.arity >= 1, ctx.args@.len() == op.arity, ctx.dargs@.len() == op.arity, old(ctx.out_der)@.len() == old(ctx.out_val)@.len(),
            forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.args@[j], old(ctx.out_val)@.len() as int),
            forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.dargs@[j], old(ctx.out_val)@.len() as int),
            forall|j: int| 0 <= j < op.arity ==> (#[trigger] ctx.dargs@[j] is Slice ==> ctx.args@[j] is Slice),
        ensures
            final(ctx.out_val)@.len() == old(ctx.out_val)@.len(), final(ctx.out_der)@.len() == old(ctx.out_val)@.len(),
            r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out_val)@.len() ==> #[trigger] final(ctx.out_val)@[row] == Self::ev(op, row_of(ctx.args@, row)),
            r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < final(ctx.out_val)@.len() ==> #[trigger] final(ctx.out_der)@[row] == chain_of::<Self>(op, row_of(ctx.args@, row), row_of(ctx.dargs@, row), op.arity as int),
            !ctx.opts.check_finite ==> r,
            ctx.opts.check_finite && r ==> op_fin_of::<Self>(op, ctx.args@, final(ctx.out_val)@.len() as int),
            ctx.opts.check_finite && op.arity <= 2 ==> (r <==> op_fin_of::<Self>(op, ctx.args@, final(ctx.out_val)@.len() as int));
    fn grad(op: OpId, ctx: GradKernelCtx<'_, '_, Self::T>) -> (r: bool)
        requires
            Self::has(op), op.arity >= 1, ctx.args@.len() == op.arity, ctx.arg_grads@.len() == op.arity,
            old(ctx.out_val)@.len() == ctx.n_rows, old(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
            forall|j: int| 0 <= j < op.arity ==> sref_ok(#[trigger] ctx.args@[j], ctx.n_rows as int),
            forall|j: int| 0 <= j < op.arity ==> gref_ok(#[trigger] ctx.arg_grads@[j], ctx.n_dir as int, ctx.n_rows as int),
            forall|j: int| 0 <= j < op.arity ==> (#[trigger] ctx.arg_grads@[j] is Slice ==> ctx.args@[j] is Slice),
        ensures
            final(ctx.out_val)@.len() == ctx.n_rows, final(ctx.out_grad)@.len() == ctx.n_dir * ctx.n_rows,
            r || !ctx.opts.early_exit ==> forall|row: int| 0 <= row < ctx.n_rows ==> #[trigger] final(ctx.out_val)@[row] == Self::ev(op, row_of(ctx.args@, row)),
            r || !ctx.opts.early_exit ==> forall|dir: int, row: int| 0 <= dir < ctx.n_dir && 0 <= row < ctx.n_rows ==>
                final(ctx.out_grad)@[#[trigger] at(dir, ctx.n_rows as int, row)] == chain_of::<Self>(op, row_of(ctx.args@, row), grow(ctx.arg_grads@, dir, row, ctx.n_rows as int), op.arity as int),
            !ctx.opts.check_finite ==> r,
            ctx.opts.check_finite ==> (r <==> op_fin_of::<Self>(op, ctx.args@, ctx.n_rows as int));
}
pub open spec fn op_fin_of<O: OpSem>(op: OpId, args: Seq<SrcRef<'_, O::T>>, n: int) -> bool {
    forall|row: int| 0 <= row < n ==> (#[trigger] O::ev(op, row_of(args, row))).fin()
}
/// sum over the first k arguments of (partial of op w.r.t. the argument) * (derivative of the argument)
pub open spec fn chain_of<O: OpSem>(op: OpId, vals: Seq<O::T>, ds: Seq<O::T>, k: int) -> O::T
    decreases k,
{
    if k <= 0 { O::T::s_zero() } else { chain_of::<O>(op, vals, ds, k - 1).add_spec(O::pa(op, vals, k - 1).mul_spec(ds[k - 1])) }
}
/// value of a gradient reference in one direction
pub open spec fn gref<T: Float>(g: GradRef<'_, T>, dir: int, row: int, n: int) -> T {
    match g {
        GradRef::Slice(s) => s@[at(dir, n, row)],
        GradRef::Basis(k) => if dir == k { T::s_one() } else { T::s_zero() },
        GradRef::Zero => T::s_zero(),
    }
}
pub open spec fn gref_ok<T>(g: GradRef<'_, T>, n_dir: int, n: int) -> bool { match g { GradRef::Slice(s) => s@.len() == n_dir * n, _ => true } }
pub open spec fn grow<T: Float>(gs: Seq<GradRef<'_, T>>, dir: int, row: int, n: int) -> Seq<T> { Seq::new(gs.len(), |j: int| gref(gs[j], dir, row, n)) }
pub open spec fn at(s: int, n: int, row: int) -> int { s * n + row }
// ---- the value an operator tree denotes on one row ----
pub open spec fn den<O: OpSem>(t: Term, x: Seq<O::T>, n: int, c: Seq<O::T>, row: int) -> O::T
    decreases t,
{
    match t {
        Term::Var(f) => x[f * n + row],
        Term::Const(k) => c[k as int],
        Term::Op(a, op, ch) => O::ev(OpId { arity: a, id: op }, den_all::<O>(ch, x, n, c, row)),
    }
}
pub open spec fn den_all<O: OpSem>(ts: Seq<Term>, x: Seq<O::T>, n: int, c: Seq<O::T>, row: int) -> Seq<O::T>
    decreases ts,
{
    if ts.len() == 0 { seq![] } else { den_all::<O>(ts.drop_last(), x, n, c, row).push(den::<O>(ts.last(), x, n, c, row)) }
}
pub proof fn den_all_at<O: OpSem>(ts: Seq<Term>, x: Seq<O::T>, n: int, c: Seq<O::T>, row: int)
    ensures
        den_all::<O>(ts, x, n, c, row).len() == ts.len(),
        forall|j: int| 0 <= j < ts.len() ==> #[trigger] den_all::<O>(ts, x, n, c, row)[j] == den::<O>(ts[j], x, n, c, row),
    decreases ts.len(),
{
    if ts.len() > 0 {
        den_all_at::<O>(ts.drop_last(), x, n, c, row);
        assert forall|j: int| 0 <= j < ts.len() implies #[trigger] den_all::<O>(ts, x, n, c, row)[j] == den::<O>(ts[j], x, n, c, row) by {
            if j < ts.len() - 1 { assert(ts.drop_last()[j] == ts[j]); }
        }
    }
}
/// every operator application among the first k terms is finite on every row
pub open spec fn terms_fin<O: OpSem>(ts: Seq<Term>, k: int, x: Seq<O::T>, n: int, c: Seq<O::T>) -> bool {
    forall|i: int, row: int| 0 <= i < k && 0 <= row < n ==> (#[trigger] den::<O>(ts[i], x, n, c, row)).fin()
}
/// "the whole expression is finite": every operator result, and a constant that is the whole expression
pub open spec fn tree_fin<O: OpSem>(t: Term, x: Seq<O::T>, n: int, c: Seq<O::T>) -> bool {
    terms_fin::<O>(subops(t), subops(t).len() as int, x, n, c) && (t matches Term::Const(k) ==> c[k as int].fin())
}
/// every operator of the tree belongs to the operator set
pub open spec fn ops_known<O: OpSem>(t: Term) -> bool {
    forall|i: int| 0 <= i < subops(t).len() ==> O::has(op_of(#[trigger] subops(t)[i]))
}
pub open spec fn op_of(t: Term) -> OpId { OpId { arity: t->Op_0, id: t->Op_1 } }
pub proof fn exec_terms_at<const D: usize>(instrs: Seq<Instr<D>>, i: int)
    requires 0 <= i < instrs.len(),
    ensures
        exec_terms(instrs).len() == instrs.len(),
        exec_terms(instrs)[i] == Term::Op(instrs[i].arity, instrs[i].op, arg_terms(instrs[i], sym_exec(instrs.take(i)))),
    decreases instrs.len(),
{
    let pre = instrs.drop_last();
    if i < pre.len() { exec_terms_at(pre, i); assert(pre.take(i) =~= instrs.take(i)); assert(exec_terms(instrs)[i] == exec_terms(pre)[i]); }
    else { exec_terms_len(pre); assert(pre =~= instrs.take(i)); }
}
pub proof fn exec_terms_len<const D: usize>(instrs: Seq<Instr<D>>)
    ensures exec_terms(instrs).len() == instrs.len(),
    decreases instrs.len(),
{
    if instrs.len() > 0 { exec_terms_len(instrs.drop_last()); }
}
pub proof fn exec_step<const D: usize>(instrs: Seq<Instr<D>>, i: int)
    requires 0 <= i < instrs.len(),
    ensures
        sym_exec(instrs.take(i + 1)) == sym_exec(instrs.take(i)).insert(instrs[i].dst as int,
            Term::Op(instrs[i].arity, instrs[i].op, arg_terms(instrs[i], sym_exec(instrs.take(i))))),
{
    assert(instrs.take(i + 1).drop_last() =~= instrs.take(i));
}
pub proof fn run_ok_at<const D: usize>(instrs: Seq<Instr<D>>, i: int)
    requires 0 <= i < instrs.len(), run_ok(instrs),
    ensures forall|j: int| 0 <= j < instrs[i].arity ==> src_dom(#[trigger] instrs[i].args[j], sym_exec(instrs.take(i))),
    decreases instrs.len(),
{
    let pre = instrs.drop_last();
    if i < pre.len() {
        run_ok_at(pre, i); assert(pre.take(i) =~= instrs.take(i)); assert(pre[i] == instrs[i]);
    } else { assert(pre =~= instrs.take(i)); assert(instrs.last() == instrs[i]); }
}
