=== type dynamic_expressions/src/node.rs PNode
derive Copy, Clone
=== type dynamic_expressions/src/node.rs Src
derive Copy, Clone
=== raw
// #[derive(PartialEq)] on PNode / Src: structural equality (written out because the derive macro output is not visible to the verifier)
use vstd::std_specs::cmp::*;
impl PartialEqSpecImpl for PNode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PNode) -> bool { *self == *o } }
impl PartialEq for PNode { fn eq(&self, o: &PNode) -> (r: bool) {
    match (*self, *o) {
        (PNode::Var { feature: a }, PNode::Var { feature: b }) => a == b,
        (PNode::Const { idx: a }, PNode::Const { idx: b }) => a == b,
        (PNode::Op { arity: a, op: p }, PNode::Op { arity: b, op: q }) => a == b && p == q,
        _ => false,
    } } }
// ---- the meaning of a postfix program: operator trees ----
pub enum Term { Var(u16), Const(u16), Op(u8, u16, Seq<Term>) }

/// Post-order flattening of an operator tree (the definition of "postfix").
pub open spec fn flatten(t: Term) -> Seq<PNode>
    decreases t,
{
    match t {
        Term::Var(f) => seq![PNode::Var { feature: f }],
        Term::Const(c) => seq![PNode::Const { idx: c }],
        Term::Op(a, op, ch) => flatten_all(ch).push(PNode::Op { arity: a, op: op }),
    }
}
pub open spec fn flatten_all(ts: Seq<Term>) -> Seq<PNode>
    decreases ts,
{
    if ts.len() == 0 { seq![] } else { flatten_all(ts.drop_last()) + flatten(ts.last()) }
}
/// A tree is proper if every operator has exactly as many children as its arity says, and at least one.
pub open spec fn proper(t: Term) -> bool
    decreases t,
{
    match t {
        Term::Op(a, op, ch) => a >= 1 && ch.len() == a && proper_all(ch),
        _ => true,
    }
}
pub open spec fn proper_all(ts: Seq<Term>) -> bool
    decreases ts,
{
    ts.len() == 0 || (proper_all(ts.drop_last()) && proper(ts.last()))
}
/// Reading a node sequence with a stack: None when an operator lacks operands.
pub open spec fn parse(nodes: Seq<PNode>) -> Option<Seq<Term>>
    decreases nodes.len(),
{
    if nodes.len() == 0 { Some(seq![]) } else {
        match parse(nodes.drop_last()) {
            None => None,
            Some(st) => step(st, nodes.last()),
        }
    }
}
pub open spec fn step(st: Seq<Term>, n: PNode) -> Option<Seq<Term>> {
    match n {
        PNode::Var { feature } => Some(st.push(Term::Var(feature))),
        PNode::Const { idx } => Some(st.push(Term::Const(idx))),
        PNode::Op { arity, op } =>
            if arity == 0 || st.len() < arity { None }
            else { Some(st.take(st.len() - arity).push(Term::Op(arity, op, st.skip(st.len() - arity)))) },
    }
}
pub open spec fn well_formed(nodes: Seq<PNode>) -> bool { parse(nodes) is Some && parse(nodes)->0.len() == 1 }
pub open spec fn tree_of(nodes: Seq<PNode>) -> Term { parse(nodes)->0[0] }

pub proof fn parse_prefix(nodes: Seq<PNode>, k: int)
    requires 0 <= k <= nodes.len(), parse(nodes) is Some,
    ensures parse(nodes.take(k)) is Some,
    decreases nodes.len(),
{
    if k < nodes.len() {
        assert(nodes.drop_last().take(k) =~= nodes.take(k));
        parse_prefix(nodes.drop_last(), k);
    } else { assert(nodes.take(k) =~= nodes); }
}
pub proof fn parse_step(nodes: Seq<PNode>, k: int)
    requires 0 <= k < nodes.len(),
    ensures parse(nodes.take(k + 1)) == (match parse(nodes.take(k)) { None => None, Some(st) => step(st, nodes[k]) }),
{
    assert(nodes.take(k + 1).drop_last() =~= nodes.take(k));
}
/// Stack discipline: pushing a block of complete trees leaves what is below untouched.
pub proof fn parse_append(a: Seq<PNode>, t: Term)
    requires parse(a) is Some, proper(t),
    ensures parse(a + flatten(t)) == Some(parse(a)->0.push(t)),
    decreases t,
{
    match t {
        Term::Var(f) => { assert((a + flatten(t)).drop_last() =~= a); }
        Term::Const(c) => { assert((a + flatten(t)).drop_last() =~= a); }
        Term::Op(ar, op, ch) => {
            parse_append_all(a, ch);
            let whole = a + flatten(t);
            assert(whole.drop_last() =~= a + flatten_all(ch));
            let st = parse(a)->0 + ch;
            assert(st.take(st.len() - ar) =~= parse(a)->0);
            assert(st.skip(st.len() - ar) =~= ch);
        }
    }
}
pub proof fn parse_append_all(a: Seq<PNode>, ts: Seq<Term>)
    requires parse(a) is Some, proper_all(ts),
    ensures parse(a + flatten_all(ts)) == Some(parse(a)->0 + ts),
    decreases ts,
{
    if ts.len() == 0 {
        assert(a + flatten_all(ts) =~= a);
        assert(parse(a)->0 + ts =~= parse(a)->0);
    } else {
        let pre = ts.drop_last();
        parse_append_all(a, pre);
        parse_append(a + flatten_all(pre), ts.last());
        assert(a + flatten_all(pre) + flatten(ts.last()) =~= a + flatten_all(ts));
        assert((parse(a)->0 + pre).push(ts.last()) =~= parse(a)->0 + ts);
    }
}
/// THEOREM: the stack reading of the flattening of any proper tree is that tree.
pub proof fn parse_flatten(t: Term)
    requires proper(t),
    ensures well_formed(flatten(t)), tree_of(flatten(t)) == t,
{
    let e = Seq::<PNode>::empty();
    assert(parse(e) == Some(Seq::<Term>::empty()));
    parse_append(e, t);
    assert(e + flatten(t) =~= flatten(t));
}

// ---- the operator applications of a tree, in post-order ----
pub open spec fn subops(t: Term) -> Seq<Term>
    decreases t,
{
    match t { Term::Op(a, op, ch) => subops_all(ch).push(t), _ => seq![] }
}
pub open spec fn subops_all(ts: Seq<Term>) -> Seq<Term>
    decreases ts,
{
    if ts.len() == 0 { seq![] } else { subops_all(ts.drop_last()) + subops(ts.last()) }
}
pub proof fn subops_app(a: Seq<Term>, b: Seq<Term>)
    ensures subops_all(a + b) == subops_all(a) + subops_all(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(subops_all(a) + subops_all(b) =~= subops_all(a)); }
    else {
        subops_app(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(subops_all(a) + subops_all(b) =~= (subops_all(a) + subops_all(b.drop_last())) + subops(b.last()));
    }
}
pub proof fn subops_leaf(a: Seq<Term>, t: Term)
    requires !(t is Op),
    ensures subops_all(a.push(t)) == subops_all(a),
{
    assert(a.push(t).drop_last() =~= a);
    assert(a.push(t).last() == t);
    assert(subops(t) =~= Seq::<Term>::empty());
    assert(subops_all(a) + Seq::<Term>::empty() =~= subops_all(a));
}
pub proof fn subops_op(a: Seq<Term>, arity: int, t: Term)
    requires t is Op, 0 <= arity <= a.len(), t->Op_2 == a.skip(a.len() - arity),
    ensures subops_all(a.take(a.len() - arity).push(t)) == subops_all(a).push(t),
{
    let lo = a.take(a.len() - arity);
    let hi = a.skip(a.len() - arity);
    assert(lo + hi =~= a);
    subops_app(lo, hi);
    assert(lo.push(t).drop_last() =~= lo);
    assert(subops(t) == subops_all(hi).push(t));
    assert(subops_all(lo) + subops_all(hi).push(t) =~= (subops_all(lo) + subops_all(hi)).push(t));
}
