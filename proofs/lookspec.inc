=== include opnames.inc
=== raw
/// the token names the operator: its name (ASCII case ignored), its displayed symbol or its infix symbol,
/// blanks around the token aside
pub open spec fn named<O: OperatorSet>(op: OpId, tok: Seq<u8>) -> bool {
    same_letters(trimmed(tok), s_name::<O>(op)) || trimmed(tok) == s_display::<O>(op) || s_infix::<O>(op) == Some(trimmed(tok))
}
/// the listed identifiers among the first k that the token names, in order
pub open spec fn hits<O: OperatorSet>(tok: Seq<u8>, arity: u8, k: int) -> Seq<OpId>
    decreases k,
{
    if k <= 0 { Seq::empty() } else {
        let op = OpId { arity, id: O::ids(arity)[k - 1] };
        if named::<O>(op, tok) { hits::<O>(tok, arity, k - 1).push(op) } else { hits::<O>(tok, arity, k - 1) }
    }
}
pub open spec fn all_of<O: OperatorSet>(tok: Seq<u8>, arity: u8) -> Seq<OpId> { hits::<O>(tok, arity, O::ids(arity).len() as int) }
/// the operators the token names, of any arity up to `a`
pub open spec fn hits_upto<O: OperatorSet>(tok: Seq<u8>, a: int) -> Seq<OpId>
    decreases a,
{ if a <= 0 { Seq::empty() } else { hits_upto::<O>(tok, a - 1) + all_of::<O>(tok, a as u8) } }
/// an operator the set lists
pub open spec fn listed<O: OperatorSet>(op: OpId) -> bool { 1 <= op.arity <= O::top() && O::ids(op.arity).contains(op.id) }
pub open spec fn among(s: Seq<u16>, k: int, x: u16) -> bool { exists|j: int| 0 <= j < k && #[trigger] s[j] == x }
pub proof fn hits_are<O: OperatorSet>(tok: Seq<u8>, arity: u8, k: int)
    requires 0 <= k <= O::ids(arity).len(),
    ensures
        hits::<O>(tok, arity, k).no_duplicates(),
        forall|i: int| 0 <= i < hits::<O>(tok, arity, k).len() ==> among(O::ids(arity), k, (#[trigger] hits::<O>(tok, arity, k)[i]).id),
        forall|i: int| 0 <= i < hits::<O>(tok, arity, k).len() ==> (#[trigger] hits::<O>(tok, arity, k)[i]).arity == arity && named::<O>(hits::<O>(tok, arity, k)[i], tok) && O::ids(arity).contains(hits::<O>(tok, arity, k)[i].id),
        forall|j: int| 0 <= j < k && named::<O>(OpId { arity, id: #[trigger] O::ids(arity)[j] }, tok) ==> hits::<O>(tok, arity, k).contains(OpId { arity, id: O::ids(arity)[j] }),
    decreases k,
{
    if k > 0 {
        hits_are::<O>(tok, arity, k - 1);
        O::listed_once(arity);
        let h0 = hits::<O>(tok, arity, k - 1); let h = hits::<O>(tok, arity, k);
        let op = OpId { arity, id: O::ids(arity)[k - 1] };
        assert(O::ids(arity).contains(op.id));
        assert forall|j: int| 0 <= j < k && named::<O>(OpId { arity, id: #[trigger] O::ids(arity)[j] }, tok) implies h.contains(OpId { arity, id: O::ids(arity)[j] }) by {
            if j < k - 1 { let i = choose|i: int| 0 <= i < h0.len() && h0[i] == (OpId { arity, id: O::ids(arity)[j] }); assert(h[i] == h0[i]); }
            else { assert(h[h.len() - 1] == op); }
        }
    }
}
pub proof fn upto_are<O: OperatorSet>(tok: Seq<u8>, a: int)
    requires 0 <= a <= O::top(),
    ensures
        hits_upto::<O>(tok, a).no_duplicates(),
        forall|i: int| 0 <= i < hits_upto::<O>(tok, a).len() ==> (#[trigger] hits_upto::<O>(tok, a)[i]).arity <= a,
        forall|i: int| 0 <= i < hits_upto::<O>(tok, a).len() ==> listed::<O>(#[trigger] hits_upto::<O>(tok, a)[i]) && named::<O>(hits_upto::<O>(tok, a)[i], tok),
        forall|op: OpId| #[trigger] listed::<O>(op) && op.arity <= a && named::<O>(op, tok) ==> hits_upto::<O>(tok, a).contains(op),
    decreases a,
{
    if a > 0 {
        upto_are::<O>(tok, a - 1);
        let ar = a as u8;
        hits_are::<O>(tok, ar, O::ids(ar).len() as int);
        let h0 = hits_upto::<O>(tok, a - 1); let h1 = all_of::<O>(tok, ar); let h = hits_upto::<O>(tok, a);
        assert forall|i: int| 0 <= i < h.len() implies listed::<O>(#[trigger] h[i]) && named::<O>(h[i], tok) by {
            if i < h0.len() { assert(h[i] == h0[i]); } else { assert(h[i] == h1[i - h0.len()]); }
        }
        assert forall|op: OpId| #[trigger] listed::<O>(op) && op.arity <= a && named::<O>(op, tok) implies h.contains(op) by {
            if op.arity < a {
                let i = choose|i: int| 0 <= i < h0.len() && h0[i] == op; assert(h[i] == op);
            } else {
                let j = choose|j: int| 0 <= j < O::ids(ar).len() && O::ids(ar)[j] == op.id;
                assert(op == (OpId { arity: ar, id: O::ids(ar)[j] }));
                let i = choose|i: int| 0 <= i < h1.len() && h1[i] == op; assert(h[h0.len() + i] == op);
            }
        }
    }
}
/// the operators meant: those the set lists for the arity asked for, or for any arity
pub open spec fn meant<O: OperatorSet>(a: Option<u8>, op: OpId) -> bool { match a { Some(a) => op.arity == a && O::ids(a).contains(op.id), None => listed::<O>(op) } }
/// the token names exactly one of the operators meant, this one
pub open spec fn the_op<O: OperatorSet>(a: Option<u8>, tok: Seq<u8>, op: OpId) -> bool {
    meant::<O>(a, op) && named::<O>(op, tok) && forall|o: OpId| #[trigger] meant::<O>(a, o) && named::<O>(o, tok) ==> o == op
}
/// no operator meant has this name
pub open spec fn no_op<O: OperatorSet>(a: Option<u8>, tok: Seq<u8>) -> bool { forall|o: OpId| #[trigger] meant::<O>(a, o) ==> !named::<O>(o, tok) }
/// two different operators meant have this name
pub open spec fn two_ops<O: OperatorSet>(a: Option<u8>, tok: Seq<u8>) -> bool {
    exists|o: OpId, p: OpId| #![trigger meant::<O>(a, o), meant::<O>(a, p)] meant::<O>(a, o) && meant::<O>(a, p) && named::<O>(o, tok) && named::<O>(p, tok) && o != p
}
/// what a lookup answers
pub open spec fn looked_up<O: OperatorSet>(a: Option<u8>, tok: Seq<u8>, r: Result<OpId, LookupError>) -> bool {
    match r {
        Ok(op) => the_op::<O>(a, tok, op),
        Err(LookupError::Unknown(_)) => no_op::<O>(a, tok),
        Err(LookupError::Ambiguous { .. }) => two_ops::<O>(a, tok),
    }
}
