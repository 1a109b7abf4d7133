=== raw
// ---- replacing one subtree of a postfix program ----
pub open spec fn sub_lo(nodes: Seq<PNode>, i: int) -> int { i + 1 - tsize(sub_at(nodes, i)) }
/// the program with the subtree rooted at i replaced by the nodes `mid`
pub open spec fn cut(nodes: Seq<PNode>, i: int, mid: Seq<PNode>) -> Seq<PNode> { nodes.take(sub_lo(nodes, i)) + mid + nodes.skip(i + 1) }

pub proof fn proper_ix(ts: Seq<Term>, j: int)
    requires proper_all(ts), 0 <= j < ts.len(),
    ensures proper(ts[j]),
    decreases ts.len(),
{ if j < ts.len() - 1 { proper_ix(ts.drop_last(), j); assert(ts.drop_last()[j] == ts[j]); } }
pub proof fn proper_from_ix(ts: Seq<Term>)
    requires forall|j: int| 0 <= j < ts.len() ==> proper(#[trigger] ts[j]),
    ensures proper_all(ts),
    decreases ts.len(),
{ if ts.len() > 0 {
    assert forall|j: int| 0 <= j < ts.drop_last().len() implies proper(#[trigger] ts.drop_last()[j]) by { assert(ts.drop_last()[j] == ts[j]); }
    proper_from_ix(ts.drop_last()); assert(ts.last() == ts[ts.len() - 1]);
} }
pub proof fn proper_sub(ts: Seq<Term>, lo: int, hi: int)
    requires proper_all(ts), 0 <= lo <= hi <= ts.len(),
    ensures proper_all(ts.subrange(lo, hi)),
{
    assert forall|j: int| 0 <= j < hi - lo implies proper(#[trigger] ts.subrange(lo, hi)[j]) by { proper_ix(ts, lo + j); }
    proper_from_ix(ts.subrange(lo, hi));
}
pub proof fn proper_push(ts: Seq<Term>, t: Term)
    requires proper_all(ts), proper(t),
    ensures proper_all(ts.push(t)), flatten_all(ts.push(t)) == flatten_all(ts) + flatten(t),
{ assert(ts.push(t).drop_last() =~= ts); assert(ts.push(t).last() == t); }
/// everything a stack reading yields is proper
pub proof fn parse_proper(nodes: Seq<PNode>)
    requires parse(nodes) is Some,
    ensures proper_all(parse(nodes)->0),
    decreases nodes.len(),
{
    if nodes.len() > 0 {
        parse_proper(nodes.drop_last());
        let st = parse(nodes.drop_last())->0;
        match nodes.last() {
            PNode::Op { arity, op } => {
                proper_sub(st, 0, st.len() - arity);
                proper_sub(st, st.len() - arity, st.len() as int);
                assert(st.subrange(0, st.len() - arity) =~= st.take(st.len() - arity));
                assert(st.subrange(st.len() - arity, st.len() as int) =~= st.skip(st.len() - arity));
                let n = Term::Op(arity, op, st.skip(st.len() - arity));
                assert(proper(n));
                proper_push(st.take(st.len() - arity), n);
            }
            PNode::Var { feature } => { proper_push(st, Term::Var(feature)); }
            PNode::Const { idx } => { proper_push(st, Term::Const(idx)); }
        }
    }
}
/// whether and how high a suffix can be read depends on the height of the stack below it only
pub proof fn suffix_height(a: Seq<PNode>, b: Seq<PNode>, s: Seq<PNode>)
    requires parse(a) is Some, parse(b) is Some, parse(a)->0.len() == parse(b)->0.len(), parse(a + s) is Some,
    ensures parse(b + s) is Some, parse(b + s)->0.len() == parse(a + s)->0.len(),
    decreases s.len(),
{
    if s.len() == 0 { assert(a + s =~= a); assert(b + s =~= b); }
    else {
        assert((a + s).drop_last() =~= a + s.drop_last());
        assert((b + s).drop_last() =~= b + s.drop_last());
        assert((a + s).last() == s.last());
        assert((b + s).last() == s.last());
        suffix_height(a, b, s.drop_last());
    }
}
/// the subtree rooted at i, and the reading in front of it
pub proof fn sub_facts(nodes: Seq<PNode>, i: int)
    requires parse(nodes) is Some, 0 <= i < nodes.len(),
    ensures ({ let t = sub_at(nodes, i); let lo = sub_lo(nodes, i);
        &&& proper(t) && 1 <= tsize(t) <= i + 1 && nodes.subrange(lo, i + 1) == flatten(t)
        &&& parse(nodes.take(lo)) is Some && parse(nodes.take(i + 1)) == Some(parse(nodes.take(lo))->0.push(t))
        &&& nodes[i] is Op ==> t is Op && t->Op_0 == nodes[i]->arity && t->Op_1 == nodes[i]->op && t->Op_2.len() == nodes[i]->arity && proper_all(t->Op_2)
        &&& nodes[i] is Var ==> t == Term::Var(nodes[i]->feature) && tsize(t) == 1
        &&& nodes[i] is Const ==> t == Term::Const(nodes[i]->Const_idx) && tsize(t) == 1 }),
{
    parse_prefix(nodes, i + 1);
    parse_prefix(nodes, i);
    parse_vs_parse0(nodes.take(i + 1));
    parse_vs_parse0(nodes.take(i));
    sub_range(nodes, i);
    parse_proper(nodes.take(i + 1));
    let st = parse(nodes.take(i + 1))->0;
    let t = sub_at(nodes, i);
    let lo = sub_lo(nodes, i);
    proper_ix(st, st.len() - 1);
    parse_prefix(nodes, lo);
    parse_append(nodes.take(lo), t);
    assert(nodes.take(lo) + flatten(t) =~= nodes.take(i + 1));
    parse_step(nodes, i);
}
/// THEOREM: replacing a subtree by any proper tree keeps the program well formed.
pub proof fn replace_sub(nodes: Seq<PNode>, i: int, t1: Term)
    requires well_formed(nodes), 0 <= i < nodes.len(), proper(t1),
    ensures well_formed(cut(nodes, i, flatten(t1))),
{
    sub_facts(nodes, i);
    let lo = sub_lo(nodes, i);
    parse_append(nodes.take(lo), t1);
    assert(nodes.take(i + 1) + nodes.skip(i + 1) =~= nodes);
    suffix_height(nodes.take(i + 1), nodes.take(lo) + flatten(t1), nodes.skip(i + 1));
}
/// the position of the root of child k of the operator at i
pub open spec fn cpos(ch: Seq<Term>, i: int, k: int) -> int { i - 1 - flatten_all(ch.skip(k + 1)).len() }
pub proof fn child_at(nodes: Seq<PNode>, i: int, k: int)
    requires parse(nodes) is Some, 0 <= i < nodes.len(), nodes[i] is Op, 0 <= k < nodes[i]->arity,
    ensures ({ let ch = sub_at(nodes, i)->Op_2; let e = cpos(ch, i, k);
        &&& ch.len() == nodes[i]->arity && sub_lo(nodes, i) <= sub_lo(nodes, e) && 0 <= e < i && sub_at(nodes, e) == ch[k]
        &&& cpos(ch, i, k - 1) == e - tsize(ch[k]) && cpos(ch, i, nodes[i]->arity - 1) == i - 1 }),
{
    sub_facts(nodes, i);
    let ch = sub_at(nodes, i)->Op_2;
    let a = nodes[i]->arity as int;
    parse_prefix(nodes, i);
    parse_prefix(nodes, i + 1);
    parse_step(nodes, i);
    parse_vs_parse0(nodes.take(i));
    parse_vs_parse0(nodes.take(i + 1));
    let p = nodes.take(i);
    let st = parse(p)->0;
    assert(st.skip(st.len() - a) =~= ch);
    let l = st.len() - a + k + 1;
    parse_proper(p);
    flat_parse0(p);
    proper_sub(st, 0, l);
    assert(st.subrange(0, l) =~= st.take(l));
    assert(st.take(l) + st.skip(l) =~= st);
    flatten_all_app(st.take(l), st.skip(l));
    let m = flatten_all(st.take(l)).len() as int;
    let e = Seq::<PNode>::empty();
    assert(parse(e) == Some(Seq::<Term>::empty()));
    parse_append_all(e, st.take(l));
    assert(e + flatten_all(st.take(l)) =~= nodes.take(m));
    assert(Seq::<Term>::empty() + st.take(l) =~= st.take(l));
    assert(st.skip(l) =~= ch.skip(k + 1));
    parse_vs_parse0(nodes.take(m));
    assert(st.take(l).last() == ch[k]);
    assert(cpos(ch, i, k) == m - 1);
    assert(ch.skip(k) =~= seq![ch[k]] + ch.skip(k + 1));
    flatten_all_app(seq![ch[k]], ch.skip(k + 1));
    flatten_all_push(Seq::empty(), ch[k]);
    assert(Seq::<Term>::empty().push(ch[k]) =~= seq![ch[k]]);
    assert(flatten_all(Seq::<Term>::empty()) =~= Seq::<PNode>::empty());
    assert(flatten_all(seq![ch[k]]) =~= flatten(ch[k]));
    assert(ch.skip(a) =~= Seq::<Term>::empty());
    // the children of i lie inside the subtree of i
    assert(ch.take(k) + ch.skip(k) =~= ch);
    flatten_all_app(ch.take(k), ch.skip(k));
    assert(m >= 1) by { proper_ix(st, l - 1); match ch[k] { Term::Op(x, y, z) => { assert(flatten(ch[k]).len() >= 1); } _ => {} } }
}
/// reading succeeds and its height is decided by the shape of the nodes alone
pub open spec fn same_shape(a: PNode, b: PNode) -> bool { if a is Op || b is Op { a == b } else { true } }
pub open spec fn same_shapes(a: Seq<PNode>, b: Seq<PNode>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_shape(#[trigger] a[i], b[i]) }
pub proof fn shape_parse(a: Seq<PNode>, b: Seq<PNode>)
    requires a.len() == b.len(), parse(a) is Some,
        forall|i: int| 0 <= i < a.len() ==> ((#[trigger] a[i]) is Op <==> b[i] is Op) && (a[i] is Op ==> a[i]->arity == b[i]->arity),
    ensures parse(b) is Some, parse(b)->0.len() == parse(a)->0.len(),
    decreases a.len(),
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies ((#[trigger] a.drop_last()[i]) is Op <==> b.drop_last()[i] is Op) && (a.drop_last()[i] is Op ==> a.drop_last()[i]->arity == b.drop_last()[i]->arity) by { assert(a[i] == a.drop_last()[i]); }
        shape_parse(a.drop_last(), b.drop_last());
        assert(a.last() == a[a.len() - 1]);
    }
}
