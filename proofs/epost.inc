=== raw
pub open spec fn eval_post<O: OpSem>(r: bool, out: Seq<O::T>, nodes: Seq<PNode>, x: Seq<O::T>, n: int, c: Seq<O::T>, opts: EvalOptions) -> bool {
    &&& out.len() == n
    &&& r || !opts.early_exit ==> forall|row: int| 0 <= row < n ==> #[trigger] out[row] == den::<O>(tree_of(nodes), x, n, c, row)
    &&& !opts.check_finite ==> r
    &&& opts.check_finite && n > 0 ==> (r <==> tree_fin::<O>(tree_of(nodes), x, n, c))
}
