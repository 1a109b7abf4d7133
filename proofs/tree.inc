=== raw
// ---- reading with a stack, zero-argument operators allowed (the walk the subtree queries perform) ----
pub open spec fn step0(st: Seq<Term>, n: PNode) -> Option<Seq<Term>> {
    match n {
        PNode::Var { feature } => Some(st.push(Term::Var(feature))),
        PNode::Const { idx } => Some(st.push(Term::Const(idx))),
        PNode::Op { arity, op } =>
            if st.len() < arity { None }
            else { Some(st.take(st.len() - arity).push(Term::Op(arity, op, st.skip(st.len() - arity)))) },
    }
}
pub open spec fn parse0(nodes: Seq<PNode>) -> Option<Seq<Term>>
    decreases nodes.len(),
{
    if nodes.len() == 0 { Some(seq![]) } else {
        match parse0(nodes.drop_last()) { None => None, Some(st) => step0(st, nodes.last()) }
    }
}
/// Every operator finds its operands and one value remains.
pub open spec fn reduces(nodes: Seq<PNode>) -> bool { parse0(nodes) is Some && parse0(nodes)->0.len() == 1 }
pub open spec fn arities_ok(nodes: Seq<PNode>) -> bool { forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Op ==> nodes[i]->arity >= 1 }
/// the subtree whose root is at position i
pub open spec fn sub_at(nodes: Seq<PNode>, i: int) -> Term { parse0(nodes.take(i + 1))->0.last() }

pub proof fn parse0_step(nodes: Seq<PNode>, k: int)
    requires 0 <= k < nodes.len(),
    ensures parse0(nodes.take(k + 1)) == (match parse0(nodes.take(k)) { None => None, Some(st) => step0(st, nodes[k]) }),
{
    assert(nodes.take(k + 1).drop_last() =~= nodes.take(k));
}
pub proof fn parse0_prefix(nodes: Seq<PNode>, k: int)
    requires 0 <= k <= nodes.len(), parse0(nodes) is Some,
    ensures parse0(nodes.take(k)) is Some,
    decreases nodes.len(),
{
    if k < nodes.len() {
        assert(nodes.drop_last().take(k) =~= nodes.take(k));
        parse0_prefix(nodes.drop_last(), k);
    } else { assert(nodes.take(k) =~= nodes); }
}
/// the two readings agree on sequences without zero-argument operators, and only those are well formed
pub proof fn parse_vs_parse0(nodes: Seq<PNode>)
    ensures parse(nodes) is Some <==> (parse0(nodes) is Some && arities_ok(nodes)),
        parse(nodes) is Some ==> parse(nodes) == parse0(nodes),
    decreases nodes.len(),
{
    if nodes.len() > 0 {
        let p = nodes.drop_last();
        parse_vs_parse0(p);
        assert(arities_ok(nodes) <==> (arities_ok(p) && (nodes.last() is Op ==> nodes.last()->arity >= 1))) by {
            if arities_ok(nodes) { assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is Op implies p[i]->arity >= 1 by { assert(nodes[i] == p[i]); } assert(nodes.last() == nodes[nodes.len() - 1]); }
            if arities_ok(p) && (nodes.last() is Op ==> nodes.last()->arity >= 1) {
                assert forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Op implies nodes[i]->arity >= 1 by { if i < p.len() { assert(nodes[i] == p[i]); } }
            }
        }
    }
}
pub proof fn flatten_all_app(a: Seq<Term>, b: Seq<Term>)
    ensures flatten_all(a + b) == flatten_all(a) + flatten_all(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(flatten_all(a) + flatten_all(b) =~= flatten_all(a)); }
    else {
        flatten_all_app(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(flatten_all(a) + flatten_all(b) =~= (flatten_all(a) + flatten_all(b.drop_last())) + flatten(b.last()));
    }
}
/// THEOREM: the trees the stack holds flatten to exactly the nodes read (so reading loses nothing).
pub proof fn flat_parse0(nodes: Seq<PNode>)
    requires parse0(nodes) is Some,
    ensures flatten_all(parse0(nodes)->0) == nodes,
    decreases nodes.len(),
{
    if nodes.len() == 0 { assert(flatten_all(Seq::<Term>::empty()) =~= nodes); }
    else {
        let p = nodes.drop_last();
        flat_parse0(p);
        let st = parse0(p)->0;
        let st1 = parse0(nodes)->0;
        match nodes.last() {
            PNode::Op { arity, op } => {
                let lo = st.take(st.len() - arity);
                let hi = st.skip(st.len() - arity);
                assert(lo + hi =~= st);
                flatten_all_app(lo, hi);
                assert(st1.drop_last() =~= lo);
                assert(flatten(st1.last()) == flatten_all(hi).push(nodes.last()));
                assert(flatten_all(st1) == flatten_all(lo) + flatten(st1.last()));
                assert(flatten_all(lo) + flatten_all(hi).push(nodes.last()) =~= (flatten_all(lo) + flatten_all(hi)).push(nodes.last()));
            }
            _ => {
                assert(st1.drop_last() =~= st);
                assert(flatten(st1.last()) =~= seq![nodes.last()]);
                assert(flatten_all(st1) == flatten_all(st) + flatten(st1.last()));
                assert(flatten_all(st1) =~= p.push(nodes.last()));
            }
        }
        assert(p.push(nodes.last()) =~= nodes);
    }
}
pub open spec fn tsize(t: Term) -> int { flatten(t).len() as int }
/// the nodes of the subtree rooted at i are the tsize nodes ending at i
pub proof fn sub_range(nodes: Seq<PNode>, i: int)
    requires 0 <= i < nodes.len(), parse0(nodes.take(i + 1)) is Some,
    ensures ({ let t = sub_at(nodes, i); 1 <= tsize(t) <= i + 1 && nodes.subrange(i + 1 - tsize(t), i + 1) == flatten(t) }),
        parse0(nodes.take(i + 1))->0.len() > 0,
{
    let p = nodes.take(i + 1);
    parse0_step(nodes, i);
    flat_parse0(p);
    let st = parse0(p)->0;
    let t = st.last();
    assert(flatten_all(st) == flatten_all(st.drop_last()) + flatten(t));
    assert forall|j: int| 0 <= j < tsize(t) implies nodes.subrange(i + 1 - tsize(t), i + 1)[j] == #[trigger] flatten(t)[j] by { assert(p[i + 1 - tsize(t) + j] == flatten(t)[j]); }
    assert(p.len() == i + 1);
    assert(nodes.subrange(i + 1 - tsize(t), i + 1) =~= flatten(t));
    match t { Term::Op(a, o, c) => { assert(flatten(t).len() >= 1); }, _ => { assert(flatten(t).len() == 1); } }
}
// sizes on the stack
pub open spec fn sizes_of(ts: Seq<Term>) -> Seq<int> { ts.map_values(|t: Term| tsize(t)) }
pub proof fn flatten_all_push(ts: Seq<Term>, t: Term)
    ensures flatten_all(ts.push(t)) == flatten_all(ts) + flatten(t),
{ assert(ts.push(t).drop_last() =~= ts); }

// depth
pub open spec fn tdepth(t: Term) -> int
    decreases t,
{ match t { Term::Op(a, o, ch) => max_depth(ch) + 1, _ => 1 } }
pub open spec fn max_depth(ts: Seq<Term>) -> int
    decreases ts,
{ if ts.len() == 0 { 0 } else { let m = max_depth(ts.drop_last()); let d = tdepth(ts.last()); if d >= m { d } else { m } } }
pub proof fn depth_le_size(t: Term)
    ensures 1 <= tdepth(t) <= tsize(t),
    decreases t,
{ match t { Term::Op(a, o, ch) => { max_depth_le(ch); }, _ => {} } }
pub proof fn max_depth_le(ts: Seq<Term>)
    ensures 0 <= max_depth(ts) <= flatten_all(ts).len(),
    decreases ts,
{ if ts.len() > 0 { max_depth_le(ts.drop_last()); depth_le_size(ts.last()); } }
