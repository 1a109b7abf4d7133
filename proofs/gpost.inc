=== raw
pub open spec fn gctx_ok<T: Float, const D: usize>(c: GradContext<T, D>) -> bool {
    &&& c.plan matches Some(p) ==> plan_for(p, c.plan_nodes@, c.plan_n_features as int, c.plan_n_consts as int) && c.plan_nodes_len == c.plan_nodes@.len()
    &&& c.val_scratch.std() && c.grad_scratch.std()
}
pub open spec fn gval_post<O: OpSem>(val: Seq<O::T>, nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>) -> bool {
    forall|row: int| 0 <= row < n ==> #[trigger] val[row] == den::<O>(tree_of(nodes), x, n, c, row)
}
pub open spec fn grad_post<O: OpSem>(g: Seq<O::T>, nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>, variable: bool, nd: int) -> bool {
    forall|dir: int, row: int| 0 <= dir < nd && 0 <= row < n ==> g[#[trigger] at(dir, n, row)] == dden::<O>(tree_of(nodes), x, n, c, seed_of(variable, dir), row)
}
pub open spec fn grad_flag<O: OpSem>(r: bool, nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>, opts: EvalOptions) -> bool {
    &&& !opts.check_finite ==> r
    &&& opts.check_finite && n > 0 ==> (r <==> tree_fin::<O>(tree_of(nodes), x, n, c))
}
