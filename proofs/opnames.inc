=== raw
/// an operator set, as far as names go: the metadata it lists for an operator
pub trait OperatorSet: Sized {
    spec fn s_meta(op: OpId) -> Option<OpMeta>;
    /// the identifiers listed for an arity, and the highest arity listed
    spec fn ids(arity: u8) -> Seq<u16>;
    spec fn top() -> u8;
    /// (no set in use lists operators of arity 255)
    fn max_arity() -> (r: u8) ensures r == Self::top() < 255;
    /// an operator is listed once
    proof fn listed_once(arity: u8) ensures Self::ids(arity).no_duplicates();
    fn ops_with_arity(arity: u8) -> (r: &'static [u16]) ensures r@ == Self::ids(arity);
    fn meta(op: OpId) -> (r: Option<&'static OpMeta>) ensures r is Some == Self::s_meta(op) is Some, r is Some ==> *r->0 == Self::s_meta(op)->0;
}
pub open spec fn unknown_op() -> Seq<u8> { seq![117u8, 110u8, 107u8, 110u8, 111u8, 119u8, 110u8, 95u8, 111u8, 112u8] }
pub open spec fn s_name<Ops: OperatorSet>(op: OpId) -> Seq<u8> { match Ops::s_meta(op) { Some(m) => m.name@, None => unknown_op() } }
pub open spec fn s_display<Ops: OperatorSet>(op: OpId) -> Seq<u8> { match Ops::s_meta(op) { Some(m) => m.display@, None => unknown_op() } }
pub open spec fn s_infix<Ops: OperatorSet>(op: OpId) -> Option<Seq<u8>> { match Ops::s_meta(op) { Some(m) => match m.infix { Some(x) => Some(x@), None => None }, None => None } }
