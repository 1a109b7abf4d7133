=== raw
pub open spec fn op_app<R, B, FB: Fn(&PNode) -> B, OP: Fn(B, &[R]) -> R>(n: PNode, fb: FB, op: OP, prev: Seq<R>, b: B, sl: &[R], st: Seq<R>) -> bool {
    &&& n is Op && prev.len() >= n->arity && st.len() > 0
    &&& call_ensures(fb, (&n,), b)
    &&& sl@ == prev.skip(prev.len() - n->arity)
    &&& call_ensures(op, (b, sl), st.last())
    &&& st.drop_last() == prev.take(prev.len() - n->arity)
}
// ---- what a stack reduction with arbitrary (stateless) closures computes ----
pub open spec fn red<R, B, FL: Fn(&PNode) -> R, FB: Fn(&PNode) -> B, OP: Fn(B, &[R]) -> R>(nodes: Seq<PNode>, fl: FL, fb: FB, op: OP, st: Seq<R>) -> bool
    decreases nodes.len(),
{
    if nodes.len() == 0 { st.len() == 0 } else {
        let n = nodes.last();
        st.len() > 0 && match n {
            PNode::Op { arity, .. } => exists|prev: Seq<R>, b: B, sl: &[R]| #![trigger op_app(n, fb, op, prev, b, sl, st)]
                red(nodes.drop_last(), fl, fb, op, prev) && op_app(n, fb, op, prev, b, sl, st),
            _ => red(nodes.drop_last(), fl, fb, op, st.drop_last()) && call_ensures(fl, (&n,), st.last()),
        }
    }
}
pub proof fn red_height<R, B, FL: Fn(&PNode) -> R, FB: Fn(&PNode) -> B, OP: Fn(B, &[R]) -> R>(nodes: Seq<PNode>, fl: FL, fb: FB, op: OP, st: Seq<R>)
    requires red(nodes, fl, fb, op, st),
    ensures parse0(nodes) is Some, parse0(nodes)->0.len() == st.len(),
    decreases nodes.len(),
{
    if nodes.len() > 0 {
        match nodes.last() {
            PNode::Op { arity, .. } => {
                let (prev, b, sl) = choose|prev: Seq<R>, b: B, sl: &[R]| #![trigger op_app(nodes.last(), fb, op, prev, b, sl, st)]
                    red(nodes.drop_last(), fl, fb, op, prev) && op_app(nodes.last(), fb, op, prev, b, sl, st);
                red_height(nodes.drop_last(), fl, fb, op, prev);
                assert(st.drop_last().len() == prev.len() - arity);
            }
            _ => { red_height(nodes.drop_last(), fl, fb, op, st.drop_last()); }
        }
    }
}
/// the closures may be called wherever a reduction reaches
pub open spec fn red_req<R, B, FL: Fn(&PNode) -> R, FB: Fn(&PNode) -> B, OP: Fn(B, &[R]) -> R>(nodes: Seq<PNode>, fl: FL, fb: FB, op: OP) -> bool {
    &&& forall|i: int| 0 <= i < nodes.len() ==> match #[trigger] nodes[i] { PNode::Op { .. } => call_requires(fb, (&nodes[i],)), _ => call_requires(fl, (&nodes[i],)) }
    &&& forall|k: int, prev: Seq<R>, b: B, sl: &[R]| #![trigger red(nodes.take(k), fl, fb, op, prev), call_requires(op, (b, sl))]
        0 <= k < nodes.len() && nodes[k] is Op && red(nodes.take(k), fl, fb, op, prev) && nodes[k]->arity <= prev.len()
            && sl@ == prev.skip(prev.len() - nodes[k]->arity) && call_ensures(fb, (&nodes[k],), b) ==> call_requires(op, (b, sl))
}
