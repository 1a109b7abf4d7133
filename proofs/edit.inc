=== include terms.inc
=== raw
// ---- the operators an expression may use, the features it may read ----
pub open spec fn listed<const D: usize>(o: Operators<D>, a: u8, op: u16) -> bool {
    1 <= a <= D && exists|k: int| 0 <= k < o.ops_by_arity@[a - 1]@.len() && (#[trigger] o.ops_by_arity@[a - 1]@[k]).id == op
}
pub open spec fn node_ok<const D: usize>(n: PNode, nc: int, nf: int, o: Operators<D>) -> bool {
    match n { PNode::Var { feature } => feature < nf, PNode::Const { idx } => idx < nc, PNode::Op { arity, op } => listed(o, arity, op) }
}
pub open spec fn all_ok<const D: usize>(nodes: Seq<PNode>, nc: int, nf: int, o: Operators<D>) -> bool { forall|i: int| 0 <= i < nodes.len() ==> node_ok(#[trigger] nodes[i], nc, nf, o) }
/// a well-formed program over the listed operators, the first nf features and nc constants
pub open spec fn good<const D: usize>(nodes: Seq<PNode>, nc: int, nf: int, o: Operators<D>) -> bool { well_formed(nodes) && all_ok(nodes, nc, nf, o) }
/// (a clone of) each constant of c0 stays where it was, new ones follow
pub open spec fn extends<T>(c0: Seq<T>, c1: Seq<T>) -> bool { c0.len() <= c1.len() && forall|i: int| 0 <= i < c0.len() ==> #[trigger] c1[i] == c0[i] }
pub proof fn cut_ok<const D: usize>(nodes: Seq<PNode>, i: int, mid: Seq<PNode>, nc0: int, nc: int, nf: int, o: Operators<D>)
    requires all_ok(nodes, nc0, nf, o), nc0 <= nc, all_ok(mid, nc, nf, o), 0 <= sub_lo(nodes, i) <= i + 1 <= nodes.len(),
    ensures all_ok(cut(nodes, i, mid), nc, nf, o),
{
    let r = cut(nodes, i, mid);
    let lo = sub_lo(nodes, i);
    assert forall|j: int| 0 <= j < r.len() implies node_ok(#[trigger] r[j], nc, nf, o) by {
        if j < lo { assert(r[j] == nodes[j]); assert(node_ok(nodes[j], nc0, nf, o)); }
        else if j < lo + mid.len() { assert(r[j] == mid[j - lo]); }
        else { let x = j - lo - mid.len() + i + 1; assert(r[j] == nodes[x]); assert(node_ok(nodes[x], nc0, nf, o)); }
    }
}
pub proof fn range_ok<const D: usize>(nodes: Seq<PNode>, lo: int, hi: int, nc: int, nf: int, o: Operators<D>)
    requires all_ok(nodes, nc, nf, o), 0 <= lo <= hi <= nodes.len(),
    ensures all_ok(nodes.subrange(lo, hi), nc, nf, o),
{ assert forall|j: int| 0 <= j < hi - lo implies node_ok(#[trigger] nodes.subrange(lo, hi)[j], nc, nf, o) by { assert(nodes.subrange(lo, hi)[j] == nodes[lo + j]); } }
pub proof fn ok_app<const D: usize>(a: Seq<PNode>, b: Seq<PNode>, nc: int, nf: int, o: Operators<D>)
    requires all_ok(a, nc, nf, o), all_ok(b, nc, nf, o),
    ensures all_ok(a + b, nc, nf, o),
{ assert forall|j: int| 0 <= j < (a + b).len() implies node_ok(#[trigger] (a + b)[j], nc, nf, o) by { if j < a.len() { assert((a + b)[j] == a[j]); } else { assert((a + b)[j] == b[j - a.len()]); } } }
pub proof fn ok_more<const D: usize>(a: Seq<PNode>, nc0: int, nc: int, nf: int, o: Operators<D>)
    requires all_ok(a, nc0, nf, o), nc0 <= nc,
    ensures all_ok(a, nc, nf, o),
{ assert forall|j: int| 0 <= j < a.len() implies node_ok(#[trigger] a[j], nc, nf, o) by { assert(node_ok(a[j], nc0, nf, o)); } }
/// compressing the constant table keeps a good program good
pub proof fn compress_good<T: Clone, const D: usize>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>, nf: int, o: Operators<D>)
    requires compressed(n0, c0, n1, c1), good(n0, c0.len() as int, nf, o), order(n0, n0.len() as int).len() <= 65535,
    ensures good(n1, c1.len() as int, nf, o), n1.len() == n0.len(),
{
    assert(consts_valid(n0, c0.len() as int)) by { assert forall|i: int| 0 <= i < n0.len() && (#[trigger] n0[i]) is Const implies n0[i]->Const_idx < c0.len() by { assert(node_ok(n0[i], c0.len() as int, nf, o)); } }
    compressed_means(n0, c0, n1, c1);
    assert forall|i: int| 0 <= i < n0.len() implies ((#[trigger] n0[i]) is Op <==> n1[i] is Op) && (n0[i] is Op ==> n0[i]->arity == n1[i]->arity) by { assert(n1[i] == renum(order(n0, n0.len() as int), n0[i])); }
    shape_parse(n0, n1);
    assert forall|i: int| 0 <= i < n1.len() implies node_ok(#[trigger] n1[i], c1.len() as int, nf, o) by { assert(node_ok(n0[i], c0.len() as int, nf, o)); assert(n1[i] == renum(order(n0, n0.len() as int), n0[i])); }
}
pub proof fn good_consts<const D: usize>(n: Seq<PNode>, nc: int, nf: int, o: Operators<D>)
    requires all_ok(n, nc, nf, o),
    ensures consts_valid(n, nc),
{ assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]) is Const implies n[i]->Const_idx < nc by { assert(node_ok(n[i], nc, nf, o)); } }
