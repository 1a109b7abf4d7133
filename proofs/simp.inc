=== include plan_common.inc
=== include tree.inc
=== include terms.inc
=== include consts.inc
=== raw
// ---- values do not depend on where a constant sits ----
/// the tree t1 over constants c1 has, on every row of every data set, the value of t0 over c0
pub open spec fn same<O: OpSem>(t0: Term, c0: Seq<O::T>, t1: Term, c1: Seq<O::T>) -> bool {
    forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(t1, x, n, c1, row) == den::<O>(t0, x, n, c0, row)
}
/// t has the same value v whatever the data
pub open spec fn always<O: OpSem>(t: Term, c: Seq<O::T>, v: O::T) -> bool {
    forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(t, x, n, c, row) == v
}
pub open spec fn ext<T>(c0: Seq<T>, c1: Seq<T>) -> bool { c0.len() <= c1.len() && forall|i: int| 0 <= i < c0.len() ==> #[trigger] c1[i] == c0[i] }
/// no new feature or operator: every node that is not a constant occurs in n0
pub open spec fn drawn(n0: Seq<PNode>, n1: Seq<PNode>) -> bool { forall|i: int| 0 <= i < n1.len() ==> (#[trigger] n1[i]) is Const || n0.contains(n1[i]) }
pub open spec fn tc(t: Term, nc: int) -> bool { consts_valid(flatten(t), nc) }
pub proof fn cv_split(a: Seq<PNode>, b: Seq<PNode>, nc: int)
    requires consts_valid(a + b, nc),
    ensures consts_valid(a, nc), consts_valid(b, nc),
{
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Const implies a[i]->Const_idx < nc by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Const implies b[i]->Const_idx < nc by { assert((a + b)[a.len() + i] == b[i]); }
}
pub proof fn cv_all(ts: Seq<Term>, nc: int)
    requires consts_valid(flatten_all(ts), nc),
    ensures forall|j: int| 0 <= j < ts.len() ==> tc(#[trigger] ts[j], nc),
    decreases ts.len(),
{
    if ts.len() > 0 {
        cv_split(flatten_all(ts.drop_last()), flatten(ts.last()), nc);
        cv_all(ts.drop_last(), nc);
        assert forall|j: int| 0 <= j < ts.len() implies tc(#[trigger] ts[j], nc) by { if j < ts.len() - 1 { assert(ts.drop_last()[j] == ts[j]); } }
    }
}
pub proof fn den_ext<O: OpSem>(t: Term, c0: Seq<O::T>, c1: Seq<O::T>)
    requires tc(t, c0.len() as int), ext(c0, c1),
    ensures same::<O>(t, c0, t, c1),
    decreases t,
{
    match t {
        Term::Op(a, op, ch) => {
            let p = flatten_all(ch);
            assert(flatten(t) == p + seq![PNode::Op { arity: a, op: op }]) by { assert(flatten(t) =~= p + seq![PNode::Op { arity: a, op: op }]); }
            cv_split(p, seq![PNode::Op { arity: a, op: op }], c0.len() as int);
            den_all_ext::<O>(ch, c0, c1);
            assert forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(t, x, n, c1, row) == den::<O>(t, x, n, c0, row) by {
                assert(den_all::<O>(ch, x, n, c1, row) == den_all::<O>(ch, x, n, c0, row));
            }
        }
        Term::Const(k) => { assert(flatten(t)[0] is Const); }
        _ => {}
    }
}
pub proof fn den_all_ext<O: OpSem>(ts: Seq<Term>, c0: Seq<O::T>, c1: Seq<O::T>)
    requires consts_valid(flatten_all(ts), c0.len() as int), ext(c0, c1),
    ensures forall|x: Seq<O::T>, n: int, row: int| #[trigger] den_all::<O>(ts, x, n, c1, row) == den_all::<O>(ts, x, n, c0, row),
    decreases ts,
{
    if ts.len() > 0 {
        cv_split(flatten_all(ts.drop_last()), flatten(ts.last()), c0.len() as int);
        den_all_ext::<O>(ts.drop_last(), c0, c1);
        den_ext::<O>(ts.last(), c0, c1);
        assert forall|x: Seq<O::T>, n: int, row: int| #[trigger] den_all::<O>(ts, x, n, c1, row) == den_all::<O>(ts, x, n, c0, row) by {
            assert(den_all::<O>(ts.drop_last(), x, n, c1, row) == den_all::<O>(ts.drop_last(), x, n, c0, row));
            assert(den::<O>(ts.last(), x, n, c1, row) == den::<O>(ts.last(), x, n, c0, row));
        }
    }
}
/// equal operands, equal applications
pub proof fn same_op<O: OpSem>(a: u8, op: u16, ch0: Seq<Term>, c0: Seq<O::T>, ch1: Seq<Term>, c1: Seq<O::T>)
    requires ch0.len() == ch1.len(), forall|j: int| 0 <= j < ch0.len() ==> same::<O>(#[trigger] ch0[j], c0, ch1[j], c1),
    ensures same::<O>(Term::Op(a, op, ch0), c0, Term::Op(a, op, ch1), c1),
{
    assert forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(Term::Op(a, op, ch1), x, n, c1, row) == den::<O>(Term::Op(a, op, ch0), x, n, c0, row) by {
        den_all_at::<O>(ch0, x, n, c0, row);
        den_all_at::<O>(ch1, x, n, c1, row);
        assert forall|j: int| 0 <= j < ch0.len() implies den::<O>(ch1[j], x, n, c1, row) == den::<O>(ch0[j], x, n, c0, row) by { assert(same::<O>(ch0[j], c0, ch1[j], c1)); }
        assert(den_all::<O>(ch0, x, n, c0, row) =~= den_all::<O>(ch1, x, n, c1, row));
    }
}
pub proof fn same_trans<O: OpSem>(t0: Term, c0: Seq<O::T>, t1: Term, c1: Seq<O::T>, t2: Term, c2: Seq<O::T>)
    requires same::<O>(t0, c0, t1, c1), same::<O>(t1, c1, t2, c2),
    ensures same::<O>(t0, c0, t2, c2),
{
    assert forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(t2, x, n, c2, row) == den::<O>(t0, x, n, c0, row) by {
        assert(den::<O>(t2, x, n, c2, row) == den::<O>(t1, x, n, c1, row));
    }
}
/// what a simplification pass guarantees about the expression it rewrote (values compared under `hyp`)
pub open spec fn simplified<O: OpSem>(n0: Seq<PNode>, c0: Seq<O::T>, n1: Seq<PNode>, c1: Seq<O::T>, hyp: bool) -> bool {
    &&& well_formed(n1) && consts_valid(n1, c1.len() as int) && n1.len() <= n0.len() && drawn(n0, n1)
    &&& hyp ==> same::<O>(tree_of(n0), c0, tree_of(n1), c1)
}
/// every operator is one of the set's and takes at most d operands
pub open spec fn ops_in<O: OpSem>(nodes: Seq<PNode>, d: int) -> bool {
    forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Op ==> nodes[i]->arity <= d && O::has(OpId { arity: nodes[i]->arity, id: nodes[i]->op })
}
