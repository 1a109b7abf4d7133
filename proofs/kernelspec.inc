=== raw
/// What one operator application computes on each row.
pub open spec fn op_row<const A: usize, T: Float, Op: Operator<T, A>>(args: Seq<SrcRef<'_, T>>, row: int) -> T { Op::ev(row_of(args, row)) }
pub open spec fn op_fin<const A: usize, T: Float, Op: Operator<T, A>>(args: Seq<SrcRef<'_, T>>, n: int) -> bool {
    forall|row: int| 0 <= row < n ==> (#[trigger] op_row::<A, T, Op>(args, row)).fin()
}
