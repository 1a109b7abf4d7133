=== raw
pub enum Seed { Var(int), Const(int) }
// ---- the derivative an operator tree denotes on one row, with respect to a feature (Src::Var) or a constant (Src::Const) ----
pub open spec fn dden<O: OpSem>(t: Term, x: Seq<O::T>, n: int, c: Seq<O::T>, seed: Seed, row: int) -> O::T
    decreases t,
{
    match t {
        Term::Var(f) => if seed == Seed::Var(f as int) { O::T::s_one() } else { O::T::s_zero() },
        Term::Const(k) => if seed == Seed::Const(k as int) { O::T::s_one() } else { O::T::s_zero() },
        Term::Op(a, op, ch) => chain_of::<O>(OpId { arity: a, id: op }, den_all::<O>(ch, x, n, c, row), dden_all::<O>(ch, x, n, c, seed, row), a as int),
    }
}
pub open spec fn dden_all<O: OpSem>(ts: Seq<Term>, x: Seq<O::T>, n: int, c: Seq<O::T>, seed: Seed, row: int) -> Seq<O::T>
    decreases ts,
{
    if ts.len() == 0 { seq![] } else { dden_all::<O>(ts.drop_last(), x, n, c, seed, row).push(dden::<O>(ts.last(), x, n, c, seed, row)) }
}
pub proof fn dden_all_at<O: OpSem>(ts: Seq<Term>, x: Seq<O::T>, n: int, c: Seq<O::T>, seed: Seed, row: int)
    ensures
        dden_all::<O>(ts, x, n, c, seed, row).len() == ts.len(),
        forall|j: int| 0 <= j < ts.len() ==> #[trigger] dden_all::<O>(ts, x, n, c, seed, row)[j] == dden::<O>(ts[j], x, n, c, seed, row),
    decreases ts.len(),
{
    if ts.len() > 0 {
        dden_all_at::<O>(ts.drop_last(), x, n, c, seed, row);
        assert forall|j: int| 0 <= j < ts.len() implies #[trigger] dden_all::<O>(ts, x, n, c, seed, row)[j] == dden::<O>(ts[j], x, n, c, seed, row) by {
            if j < ts.len() - 1 { assert(ts.drop_last()[j] == ts[j]); }
        }
    }
}
pub open spec fn dsrc_at<T: Float>(src: Src, dir: int, n: int, d: int, before: Seq<T>, after: Seq<T>, row: int) -> T {
    match src {
        Src::Var(f) => if f == dir { T::s_one() } else { T::s_zero() },
        Src::Const(_) => T::s_zero(),
        Src::Slot(s) => other_slot(s as int, d, n, before, after, row),
    }
}
pub open spec fn vdden<O: OpSem>(x: Seq<O::T>, n: int, c: Seq<O::T>, seed: Seed) -> spec_fn(Term, int) -> O::T { |t: Term, row: int| dden::<O>(t, x, n, c, seed, row) }
pub open spec fn slots_der<O: OpSem>(m: Map<int, Term>, scratch: Seq<O::T>, ns: int, x: Seq<O::T>, n: int, c: Seq<O::T>, seed: Seed) -> bool {
    slots_fn(m, scratch, ns, n, vdden::<O>(x, n, c, seed))
}
/// the operand derivatives of an instruction, and the chain rule at its result
pub proof fn args_der<O: OpSem, const D: usize>(i: Instr<D>, m: Map<int, Term>, sc: Seq<O::T>, before: Seq<O::T>, after: Seq<O::T>, ns: int, nf: int, nc: int,
    x: Seq<O::T>, n: int, c: Seq<O::T>, dir: int, refs: Seq<SrcRef<'_, O::T>>, drefs: Seq<SrcRef<'_, O::T>>)
    requires
        slots_der::<O>(m, sc, ns, x, n, c, Seed::Var(dir)), instr_ok(i, ns, nf, nc), args_dom(i, m), n >= 0, sc.len() == ns * n,
        before == sc.take(i.dst * n), after == sc.skip(i.dst * n + n), drefs.len() == i.arity,
        forall|row: int| 0 <= row < n ==> #[trigger] row_of(refs, row) == den_all::<O>(arg_terms(i, m), x, n, c, row),
        forall|j: int, row: int| 0 <= j < i.arity && 0 <= row < n ==> sref(#[trigger] drefs[j], row) == #[trigger] dsrc_at(i.args@[j], dir, n, i.dst as int, before, after, row),
    ensures
        forall|row: int| 0 <= row < n ==> chain_of::<O>(iop(i), #[trigger] row_of(refs, row), row_of(drefs, row), i.arity as int) == dden::<O>(iterm(i, m), x, n, c, Seed::Var(dir), row),
{
    let seed = Seed::Var(dir);
    assert forall|row: int| 0 <= row < n implies chain_of::<O>(iop(i), #[trigger] row_of(refs, row), row_of(drefs, row), i.arity as int) == dden::<O>(iterm(i, m), x, n, c, seed, row) by {
        dden_all_at::<O>(arg_terms(i, m), x, n, c, seed, row);
        assert forall|j: int| 0 <= j < i.arity implies row_of(drefs, row)[j] == dden_all::<O>(arg_terms(i, m), x, n, c, seed, row)[j] by {
            let a = i.args@[j];
            assert(sref(drefs[j], row) == dsrc_at(a, dir, n, i.dst as int, before, after, row));
            assert(src_dom(i.args[j], m) && src_ok(i.args[j], ns, nf, nc));
            if let Src::Slot(s) = a {
                slot_read(m, sc, ns, n, vdden::<O>(x, n, c, seed), i.dst as int, before, after, s as int);
                assert(other_slot(s as int, i.dst as int, n, before, after, row) == vdden::<O>(x, n, c, seed)(m[s as int], row));
            }
        }
        assert(row_of(drefs, row) =~= dden_all::<O>(arg_terms(i, m), x, n, c, seed, row));
    }
}
pub proof fn root_der<O: OpSem, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int, sc: Seq<O::T>, x: Seq<O::T>, n: int, c: Seq<O::T>, seed: Seed)
    requires plan_run_ok::<O, D>(p, nodes, nf, nc), slots_der::<O>(sym_exec(p.instrs@), sc, p.n_slots as int, x, n, c, seed), n >= 0, sc.len() == p.n_slots * n,
    ensures
        p.root matches Src::Slot(s) ==> 0 <= s * n && s * n + n <= sc.len()
            && forall|row: int| 0 <= row < n ==> #[trigger] sc.subrange(s * n, s * n + n)[row] == dden::<O>(tree_of(nodes), x, n, c, seed, row),
{
    reveal(plan_run_ok);
    let m = sym_exec(p.instrs@);
    if let Src::Slot(s) = p.root {
        assert(src_dom(p.root, m));
        slot_at(m, sc, p.n_slots as int, n, vdden::<O>(x, n, c, seed), s as int);
        assert forall|row: int| 0 <= row < n implies #[trigger] sc.subrange(s * n, s * n + n)[row] == dden::<O>(tree_of(nodes), x, n, c, seed, row) by {
            assert(sc.subrange(s * n, s * n + n)[row] == vdden::<O>(x, n, c, seed)(m[s as int], row));
        }
    }
}
/// every operator of the tree takes at most two arguments
pub open spec fn low_arity(t: Term) -> bool { forall|i: int| 0 <= i < subops(t).len() ==> op_of(#[trigger] subops(t)[i]).arity <= 2 }
/// gradient direction `dir` differentiates with respect to feature or constant number `dir`
pub open spec fn seed_of(variable: bool, dir: int) -> Seed { if variable { Seed::Var(dir) } else { Seed::Const(dir) } }
pub open spec fn vgden<O: OpSem>(x: Seq<O::T>, n: int, c: Seq<O::T>, variable: bool) -> spec_fn(Term, int) -> O::T {
    |t: Term, q: int| dden::<O>(t, x, n, c, seed_of(variable, q / n), q % n)
}
pub open spec fn slots_grad<O: OpSem>(m: Map<int, Term>, scratch: Seq<O::T>, ns: int, w: int, x: Seq<O::T>, n: int, c: Seq<O::T>, variable: bool) -> bool {
    slots_fn(m, scratch, ns, w, vgden::<O>(x, n, c, variable))
}
pub open spec fn gsrc_ok<T: Float>(r: GradRef<'_, T>, src: Src, variable: bool, d: int, w: int, before: Seq<T>, after: Seq<T>) -> bool {
    match src {
        Src::Var(f) => if variable { r == GradRef::<T>::Basis(f as usize) } else { r is Zero },
        Src::Const(k) => if variable { r is Zero } else { r == GradRef::<T>::Basis(k as usize) },
        Src::Slot(s) => r matches GradRef::Slice(v) && v@.len() == w && forall|q: int| 0 <= q < w ==> #[trigger] v@[q] == other_slot(s as int, d, w, before, after, q),
    }
}
pub proof fn block_index(dir: int, row: int, nd: int, n: int, w: int)
    requires 0 <= dir < nd, 0 <= row < n, w == n * nd,
    ensures 0 <= at(dir, n, row) < w, at(dir, n, row) / n == dir, at(dir, n, row) % n == row, 0 <= dir * n, dir * n + n <= w, w == nd * n, (dir + 1) * n == dir * n + n,
{
    idx_in(dir, n, row, nd);
    assert(n * nd == nd * n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(dir * n + row, n, dir, row);
    assert((dir + 1) * n == dir * n + n) by (nonlinear_arith);
}
pub proof fn block_split(q: int, nd: int, n: int, w: int)
    requires 0 <= q < w, w == n * nd, n >= 0, nd >= 0,
    ensures n > 0, 0 <= q / n < nd, 0 <= q % n < n, at(q / n, n, q % n) == q,
{
    assert(n > 0) by (nonlinear_arith) requires 0 < n * nd, n >= 0, nd >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n);
    assert(q / n < nd) by (nonlinear_arith) requires 0 <= q < n * nd, n > 0, q == n * (q / n) + q % n, 0 <= q % n;
    assert(q / n >= 0) by (nonlinear_arith) requires 0 <= q, n > 0;
    assert(n * (q / n) == (q / n) * n) by (nonlinear_arith);
}
pub proof fn args_grad<O: OpSem, const D: usize>(i: Instr<D>, m: Map<int, Term>, sc: Seq<O::T>, before: Seq<O::T>, after: Seq<O::T>, ns: int, nf: int, nc: int,
    x: Seq<O::T>, n: int, c: Seq<O::T>, variable: bool, nd: int, w: int, refs: Seq<SrcRef<'_, O::T>>, grefs: Seq<GradRef<'_, O::T>>)
    requires
        slots_grad::<O>(m, sc, ns, w, x, n, c, variable), instr_ok(i, ns, nf, nc), args_dom(i, m), n >= 0, nd >= 0, w == n * nd, w >= 0, sc.len() == ns * w,
        before == sc.take(i.dst * w), after == sc.skip(i.dst * w + w), grefs.len() == i.arity,
        forall|row: int| 0 <= row < n ==> #[trigger] row_of(refs, row) == den_all::<O>(arg_terms(i, m), x, n, c, row),
        forall|j: int| 0 <= j < i.arity ==> gsrc_ok(#[trigger] grefs[j], i.args@[j], variable, i.dst as int, w, before, after),
    ensures
        forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n ==>
            chain_of::<O>(iop(i), row_of(refs, row), #[trigger] grow(grefs, dir, row, n), i.arity as int) == dden::<O>(iterm(i, m), x, n, c, seed_of(variable, dir), row),
{
    assert forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n implies
        chain_of::<O>(iop(i), row_of(refs, row), #[trigger] grow(grefs, dir, row, n), i.arity as int) == dden::<O>(iterm(i, m), x, n, c, seed_of(variable, dir), row) by {
        let seed = seed_of(variable, dir);
        dden_all_at::<O>(arg_terms(i, m), x, n, c, seed, row);
        assert(row_of(refs, row) == den_all::<O>(arg_terms(i, m), x, n, c, row));
        block_index(dir, row, nd, n, w);
        assert forall|j: int| 0 <= j < i.arity implies grow(grefs, dir, row, n)[j] == dden_all::<O>(arg_terms(i, m), x, n, c, seed, row)[j] by {
            let a = i.args@[j];
            assert(gsrc_ok(grefs[j], a, variable, i.dst as int, w, before, after));
            assert(src_dom(i.args[j], m) && src_ok(i.args[j], ns, nf, nc));
            if let Src::Slot(s) = a {
                slot_read(m, sc, ns, w, vgden::<O>(x, n, c, variable), i.dst as int, before, after, s as int);
                let q = at(dir, n, row);
                assert(other_slot(s as int, i.dst as int, w, before, after, q) == vgden::<O>(x, n, c, variable)(m[s as int], q));
            }
        }
        assert(grow(grefs, dir, row, n) =~= dden_all::<O>(arg_terms(i, m), x, n, c, seed, row));
    }
}
pub proof fn grad_col<O: OpSem, const D: usize>(i: Instr<D>, m: Map<int, Term>, x: Seq<O::T>, n: int, c: Seq<O::T>, variable: bool, nd: int, w: int,
    refs: Seq<SrcRef<'_, O::T>>, grefs: Seq<GradRef<'_, O::T>>, col: Seq<O::T>)
    requires
        n >= 0, nd >= 0, w == n * nd, col.len() == w,
        forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n ==>
            chain_of::<O>(iop(i), row_of(refs, row), #[trigger] grow(grefs, dir, row, n), i.arity as int) == dden::<O>(iterm(i, m), x, n, c, seed_of(variable, dir), row),
        forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n ==> col[#[trigger] at(dir, n, row)] == chain_of::<O>(iop(i), row_of(refs, row), grow(grefs, dir, row, n), i.arity as int),
    ensures forall|q: int| 0 <= q < w ==> #[trigger] col[q] == vgden::<O>(x, n, c, variable)(iterm(i, m), q),
{
    assert forall|q: int| 0 <= q < w implies #[trigger] col[q] == vgden::<O>(x, n, c, variable)(iterm(i, m), q) by {
        block_split(q, nd, n, w);
        assert(col[at(q / n, n, q % n)] == chain_of::<O>(iop(i), row_of(refs, q % n), grow(grefs, q / n, q % n, n), i.arity as int));
    }
}
pub proof fn root_grad<O: OpSem, const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int, sc: Seq<O::T>, x: Seq<O::T>, n: int, c: Seq<O::T>, variable: bool, nd: int, w: int)
    requires plan_run_ok::<O, D>(p, nodes, nf, nc), slots_grad::<O>(sym_exec(p.instrs@), sc, p.n_slots as int, w, x, n, c, variable), n >= 0, nd >= 0, w == n * nd, w >= 0, sc.len() == p.n_slots * w,
    ensures
        p.root matches Src::Slot(s) ==> 0 <= s * w && s * w + w <= sc.len()
            && forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n ==> sc.subrange(s * w, s * w + w)[#[trigger] at(dir, n, row)] == dden::<O>(tree_of(nodes), x, n, c, seed_of(variable, dir), row),
{
    reveal(plan_run_ok);
    let m = sym_exec(p.instrs@);
    if let Src::Slot(s) = p.root {
        assert(src_dom(p.root, m));
        slot_at(m, sc, p.n_slots as int, w, vgden::<O>(x, n, c, variable), s as int);
        assert forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n implies sc.subrange(s * w, s * w + w)[#[trigger] at(dir, n, row)] == dden::<O>(tree_of(nodes), x, n, c, seed_of(variable, dir), row) by {
            block_index(dir, row, nd, n, w);
            let q = at(dir, n, row);
            assert(sc.subrange(s * w, s * w + w)[q] == vgden::<O>(x, n, c, variable)(m[s as int], q));
        }
    }
}
