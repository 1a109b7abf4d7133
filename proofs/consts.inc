=== raw
/// the constants used by the first k nodes, in order of first use
pub open spec fn order(nodes: Seq<PNode>, k: int) -> Seq<int>
    decreases k,
{
    if k <= 0 { seq![] } else {
        let p = order(nodes, k - 1);
        match nodes[k - 1] { PNode::Const { idx } => if p.contains(idx as int) { p } else { p.push(idx as int) }, _ => p }
    }
}
pub open spec fn consts_valid(nodes: Seq<PNode>, n: int) -> bool { forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Const ==> nodes[i]->Const_idx < n }
pub open spec fn pos(o: Seq<int>, c: int) -> int { choose|j: int| 0 <= j < o.len() && o[j] == c }
/// node after renumbering constants by first use
pub open spec fn renum(o: Seq<int>, n: PNode) -> PNode { match n { PNode::Const { idx } => PNode::Const { idx: pos(o, idx as int) as u16 }, _ => n } }
pub open spec fn upto(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i) }

/// some node among the first k uses constant c
pub open spec fn seen(nodes: Seq<PNode>, k: int, c: int) -> bool { exists|i: int| #![trigger nodes[i]] 0 <= i < k && nodes[i] is Const && nodes[i]->Const_idx == c }
pub proof fn order_facts(nodes: Seq<PNode>, k: int, n: int)
    requires 0 <= k <= nodes.len(), consts_valid(nodes, n),
    ensures ({ let o = order(nodes, k);
        &&& o.no_duplicates() && o.len() <= k
        &&& forall|j: int| 0 <= j < o.len() ==> 0 <= (#[trigger] o[j]) < n && o[j] <= 65535
        &&& forall|j: int| 0 <= j < o.len() ==> seen(nodes, k, #[trigger] o[j])
        &&& forall|i: int| 0 <= i < k && (#[trigger] nodes[i]) is Const ==> o.contains(nodes[i]->Const_idx as int) }),
    decreases k,
{
    if k > 0 {
        order_facts(nodes, k - 1, n);
        let p = order(nodes, k - 1);
        let o = order(nodes, k);
        assert forall|j: int| 0 <= j < p.len() implies seen(nodes, k, #[trigger] p[j]) by {
            assert(seen(nodes, k - 1, p[j]));
            let i = choose|i: int| #![trigger nodes[i]] 0 <= i < k - 1 && nodes[i] is Const && nodes[i]->Const_idx == p[j];
            assert(0 <= i < k && nodes[i] is Const);
        }
        match nodes[k - 1] {
            PNode::Const { idx } if !p.contains(idx as int) => {
                assert(o == p.push(idx as int));
                assert(seen(nodes, k, idx as int)) by { assert(nodes[k - 1] is Const); }
                assert forall|i: int| 0 <= i < k && (#[trigger] nodes[i]) is Const implies o.contains(nodes[i]->Const_idx as int) by {
                    if i < k - 1 { let j = choose|j: int| 0 <= j < p.len() && p[j] == nodes[i]->Const_idx; assert(o[j] == p[j]); } else { assert(o[o.len() - 1] == idx); }
                }
                assert forall|j: int| #![trigger o[j]] 0 <= j < o.len() implies seen(nodes, k, o[j]) && 0 <= o[j] < n && o[j] <= 65535 by { if j < p.len() { assert(o[j] == p[j]); } }
                assert forall|a: int, b: int| 0 <= a < o.len() && 0 <= b < o.len() && a != b implies o[a] != o[b] by { if a < p.len() { assert(o[a] == p[a]); assert(p.contains(p[a])); } if b < p.len() { assert(o[b] == p[b]); assert(p.contains(p[b])); } }
            }
            _ => { assert(o == p); }
        }
    }
}
pub proof fn order_mono(nodes: Seq<PNode>, k: int, m: int)
    requires 0 <= k <= m <= nodes.len(),
    ensures order(nodes, k).len() <= order(nodes, m).len(), forall|j: int| 0 <= j < order(nodes, k).len() ==> order(nodes, m)[j] == #[trigger] order(nodes, k)[j],
    decreases m,
{ if k < m { order_mono(nodes, k, m - 1); } }
pub proof fn pos_is(o: Seq<int>, c: int, j: int)
    requires o.no_duplicates(), 0 <= j < o.len(), o[j] == c,
    ensures pos(o, c) == j,
{ let x = pos(o, c); assert(0 <= x < o.len() && o[x] == c); }
pub open spec fn used(nodes: Seq<PNode>, j: int) -> bool { exists|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Const && nodes[i]->Const_idx == j }
/// what compress_constants makes of an expression
pub open spec fn compressed<T: Clone>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>) -> bool {
    let o = order(n0, n0.len() as int);
    &&& n1.len() == n0.len() && c1.len() == o.len()
    &&& forall|i: int| 0 <= i < n0.len() ==> #[trigger] n1[i] == renum(o, n0[i])
    &&& forall|j: int| 0 <= j < o.len() ==> cloned(c0[o[j]], #[trigger] c1[j])
}
/// THEOREM: same tree shape, every constant node reads (a clone of) the value it read before, all remaining constants are used, indices valid.
pub proof fn compressed_means<T: Clone>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>)
    requires compressed(n0, c0, n1, c1), consts_valid(n0, c0.len() as int), order(n0, n0.len() as int).len() <= 65535,
    ensures
        consts_valid(n1, c1.len() as int), c1.len() <= c0.len(), c1.len() <= n1.len(),
        forall|i: int| 0 <= i < n0.len() ==> match (#[trigger] n0[i]) {
            PNode::Const { idx } => n1[i] is Const && cloned(c0[idx as int], c1[n1[i]->Const_idx as int]), _ => n1[i] == n0[i] },
        forall|i: int, j: int| 0 <= i < n0.len() && 0 <= j < n0.len() && (#[trigger] n0[i]) is Const && (#[trigger] n0[j]) is Const ==> (n0[i] == n0[j] <==> n1[i] == n1[j]),
        forall|j: int| 0 <= j < c1.len() ==> #[trigger] used(n1, j),
        order(n1, n1.len() as int) == upto(c1.len() as int),
{
    let n = n0.len() as int;
    let o = order(n0, n);
    order_facts(n0, n, c0.len() as int);
    assert forall|i: int| 0 <= i < n0.len() && n0[i] is Const implies 0 <= #[trigger] pos(o, n0[i]->Const_idx as int) < o.len() && o[pos(o, n0[i]->Const_idx as int)] == n0[i]->Const_idx by {
        assert(o.contains(n0[i]->Const_idx as int));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == n0[i]->Const_idx;
        pos_is(o, n0[i]->Const_idx as int, j);
    }
    assert forall|j: int| 0 <= j < c1.len() implies #[trigger] used(n1, j) by {
        assert(o[j] >= 0);
        assert(seen(n0, n, o[j]));
        let i = choose|i: int| #![trigger n0[i]] 0 <= i < n && n0[i] is Const && n0[i]->Const_idx == o[j];
        pos_is(o, o[j], j);
        assert(n1[i] is Const);
    }
    // at most as many constants as before: distinct indices below c0.len()
    distinct_below(o, c0.len() as int);
    assert forall|k: int| 0 <= k <= n implies #[trigger] order(n1, k) == upto(order(n0, k).len() as int) by { order_renum(n0, n1, k, c0.len() as int); }
}
pub proof fn distinct_below(o: Seq<int>, n: int)
    requires o.no_duplicates(), forall|j: int| 0 <= j < o.len() ==> 0 <= (#[trigger] o[j]) < n, n >= 0,
    ensures o.len() <= n,
{
    let s = o.to_set();
    o.unique_seq_to_set();
    let f = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(s.subset_of(f));
    vstd::set_lib::lemma_len_subset(s, f);
}
pub proof fn order_renum(n0: Seq<PNode>, n1: Seq<PNode>, k: int, n: int)
    requires 0 <= k <= n0.len(), n1.len() == n0.len(), consts_valid(n0, n), order(n0, n0.len() as int).len() <= 65535,
        forall|i: int| 0 <= i < n0.len() ==> #[trigger] n1[i] == renum(order(n0, n0.len() as int), n0[i]),
    ensures order(n1, k) == upto(order(n0, k).len() as int),
    decreases k,
{
    if k > 0 {
        order_renum(n0, n1, k - 1, n);
        let o = order(n0, n0.len() as int);
        order_facts(n0, k, n);
        order_facts(n0, k - 1, n);
        order_facts(n0, n0.len() as int, n);
        order_mono(n0, k, n0.len() as int);
        let p = order(n0, k - 1);
        let q = upto(p.len() as int);
        assert(n1[k - 1] == renum(o, n0[k - 1]));
        if let PNode::Const { idx } = n0[k - 1] {
            let ok = order(n0, k);
            let j = choose|j: int| 0 <= j < ok.len() && ok[j] == idx;
            assert(o[j] == ok[j]);
            pos_is(o, idx as int, j);
            if p.contains(idx as int) {
                let x = choose|x: int| 0 <= x < p.len() && p[x] == idx;
                assert(x == j);
                assert(q[j] == j);
                assert(q.contains(j));
            } else {
                assert(j == p.len()) by { if j < p.len() { assert(p[j] == idx); } }
                assert(!q.contains(j));
                assert(q.push(j) =~= upto(ok.len() as int));
            }
        }
    } else { assert(upto(0) =~= Seq::<int>::empty()); }
}
/// THEOREM: compressing again changes nothing.
pub proof fn compressed_fixed<T: Clone>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>)
    requires compressed(n0, c0, n1, c1), order(n0, n0.len() as int) == upto(c0.len() as int), consts_valid(n0, c0.len() as int), c0.len() <= 65535,
    ensures n1 == n0, c1.len() == c0.len(), forall|j: int| 0 <= j < c0.len() ==> cloned(c0[j], #[trigger] c1[j]),
{
    let o = order(n0, n0.len() as int);
    assert forall|i: int| 0 <= i < n0.len() implies #[trigger] n1[i] == n0[i] by { if let PNode::Const { idx } = n0[i] { assert(o[idx as int] == idx); order_facts(n0, n0.len() as int, c0.len() as int); pos_is(o, idx as int, idx as int); } }
    assert(n1 =~= n0);
    assert forall|j: int| 0 <= j < c0.len() implies cloned(c0[j], #[trigger] c1[j]) by { assert(o[j] == j); }
}
