=== raw
pub open spec fn wsum_f(s: Seq<Fx>) -> Fx
    decreases s.len(),
{ if s.len() == 0 { fx_lit(0, 1) } else { wsum_f(s.drop_last()).s_add(s.last()) } }
pub open spec fn weight_ok(w: Fx) -> bool { w.isfin() && w.k() >= 0real }
/// the weights a weighted choice accepts; anything else panics
pub open spec fn weights_ok(s: Seq<Fx>) -> bool {
    &&& s.len() > 0
    &&& forall|i: int| 0 <= i < s.len() ==> weight_ok(#[trigger] s[i])
    &&& wsum_f(s).isfin() && wsum_f(s).k() > 0real
}
