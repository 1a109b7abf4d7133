=== raw
pub open spec fn op_der<const A: usize, T: Float, Op: Operator<T, A>>(args: Seq<SrcRef<'_, T>>, dargs: Seq<SrcRef<'_, T>>, row: int) -> T {
    chain::<T, A, Op>(row_of(args, row), row_of(dargs, row), A as int)
}
=== type dynamic_expressions/src/dispatch.rs GradKernelCtx
=== raw
pub open spec fn gref_ok<T>(g: GradRef<'_, T>, n_dir: int, n: int) -> bool { match g { GradRef::Slice(s) => s@.len() == n_dir * n, _ => true } }
pub open spec fn grow<T: Float>(gs: Seq<GradRef<'_, T>>, dir: int, row: int, n: int) -> Seq<T> { Seq::new(gs.len(), |j: int| gref(gs[j], dir, row, n)) }
pub open spec fn op_grad<const A: usize, T: Float, Op: Operator<T, A>>(args: Seq<SrcRef<'_, T>>, gs: Seq<GradRef<'_, T>>, dir: int, row: int, n: int) -> T {
    chain::<T, A, Op>(row_of(args, row), grow(gs, dir, row, n), A as int)
}
pub open spec fn at(dir: int, row: int, n: int) -> int { dir * n + row }
