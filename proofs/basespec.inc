=== raw
/// the loss of predicting zero in every row, when it is a finite number
pub open spec fn base_of<T: Float>(d: Dataset<T>, l: VxLoss<T>) -> Option<T> {
    let v = loss_val(l, Seq::new(d.n_rows as nat, |i: int| T::s_zero()), d.y.v@, d.w());
    if v.fin() { Some(v) } else { None }
}
