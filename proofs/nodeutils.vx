# dynamic_expressions/src/node_utils.rs: the validity test and the subtree queries
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== raw
/// thread-local scratch buffers: content unspecified
#[verifier::external_body]
pub fn vx_any_vec<T>() -> (r: Vec<T>) { unimplemented!() }

=== include reduce.inc
=== fn dynamic_expressions/src/node_utils.rs tree_mapreduce_impl
--- ret r
--- panics !reduces(nodes@)
--- subst &mut impl FnMut => &impl Fn
--- spec
requires old(stack)@.len() == 0, red_req(nodes@, *f_leaf, *f_branch, *op),
ensures red(nodes@, *f_leaf, *f_branch, *op, seq![r]), reduces(nodes@),
--- loops 1
--- entry
proof { assert(nodes@.take(0) =~= Seq::<PNode>::empty()); assert(stack@ =~= Seq::<R>::empty()); }
--- loop 0
invariant
    __n0 == nodes.len(), __k0 <= __n0, red_req(nodes@, *f_leaf, *f_branch, *op),
    red(nodes@.take(__k0 as int), *f_leaf, *f_branch, *op, stack@),
decreases __n0 - __k0,
--- head 0
let ghost st0 = stack@;
let ghost mut gparent: Option<B> = None;
proof {
    let i = __k0 - 1;
    assert(nodes@.take(i + 1).drop_last() =~= nodes@.take(i));
    assert(nodes@.take(i + 1).last() == nodes@[i]);
    red_height(nodes@.take(i), *f_leaf, *f_branch, *op, st0);
    parse0_step(nodes@, i);
    if parse0(nodes@) is Some { parse0_prefix(nodes@, i + 1); }
}
--- at before let out=op
proof { gparent = Some(parent); }
--- tail 0
proof {
    let i = __k0 - 1;
    match nodes@[i] {
        PNode::Op { arity, .. } => {
            let parent0 = gparent->0;
            assert(stack@.drop_last() =~= st0.take(st0.len() - arity));
            let n = nodes@[i];
            let sl = choose|sl: &[R]| sl@ == st0.skip(st0.len() - n->arity) && call_ensures(*op, (parent0, sl), stack@.last());
            assert(op_app(n, *f_branch, *op, st0, parent0, sl, stack@));
        }
        _ => { assert(stack@.drop_last() =~= st0); }
    }
    assert(red(nodes@.take(i + 1), *f_leaf, *f_branch, *op, stack@));
}
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); red_height(nodes@, *f_leaf, *f_branch, *op, stack@); if stack@.len() == 1 { assert(stack@ =~= seq![stack@[0]]); } }

=== fn dynamic_expressions/src/node_utils.rs tree_mapreduce_with_stack
--- ret r
--- panics !reduces(nodes@)
--- subst impl FnMut => impl Fn
--- subst mut f_leaf: => f_leaf:
--- subst mut f_branch: => f_branch:
--- subst mut op: => op:
--- subst &mut f_leaf => &f_leaf
--- subst &mut f_branch => &f_branch
--- subst &mut op => &op
--- spec
requires red_req(nodes@, f_leaf, f_branch, op),
ensures red(nodes@, f_leaf, f_branch, op, seq![r]), reduces(nodes@),

=== fn dynamic_expressions/src/node_utils.rs tree_mapreduce
--- ret r
--- subst impl FnMut => impl Fn
--- spec
requires red_req(nodes@, f_leaf, f_branch, op),
ensures red(nodes@, f_leaf, f_branch, op, seq![r]), reduces(nodes@),

=== raw
pub open spec fn smax(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { let m = smax(s.drop_last()); if s.last() >= m { s.last() as int } else { m } } }
pub proof fn smax_depths(s: Seq<usize>, ts: Seq<Term>)
    requires s.len() == ts.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == tdepth(ts[i]),
    ensures smax(s) == max_depth(ts),
    decreases s.len(),
{ if s.len() > 0 { smax_depths(s.drop_last(), ts.drop_last()); assert(s.last() == s[s.len() - 1]); } }
pub open spec fn depth_fns<FL: Fn(&PNode) -> usize, FB: Fn(&PNode) -> usize, OP: Fn(usize, &[usize]) -> usize>(fl: FL, fb: FB, op: OP) -> bool {
    &&& forall|n: &PNode, r: usize| #[trigger] call_ensures(fl, (n,), r) ==> r == 1
    &&& forall|b: usize, sl: &[usize], r: usize| #[trigger] call_ensures(op, (b, sl), r) ==> r == smax(sl@) + 1
}
pub proof fn red_depth<FL: Fn(&PNode) -> usize, FB: Fn(&PNode) -> usize, OP: Fn(usize, &[usize]) -> usize>(nodes: Seq<PNode>, fl: FL, fb: FB, op: OP, st: Seq<usize>)
    requires red(nodes, fl, fb, op, st), depth_fns(fl, fb, op),
    ensures parse0(nodes) is Some, parse0(nodes)->0.len() == st.len(), forall|i: int| 0 <= i < st.len() ==> #[trigger] st[i] == tdepth(parse0(nodes)->0[i]),
    decreases nodes.len(),
{
    if nodes.len() > 0 {
        match nodes.last() {
            PNode::Op { arity, .. } => {
                let (prev, b, sl) = choose|prev: Seq<usize>, b: usize, sl: &[usize]| #![trigger op_app(nodes.last(), fb, op, prev, b, sl, st)]
                    red(nodes.drop_last(), fl, fb, op, prev) && op_app(nodes.last(), fb, op, prev, b, sl, st);
                red_depth(nodes.drop_last(), fl, fb, op, prev);
                let ts = parse0(nodes.drop_last())->0;
                assert(st.drop_last().len() == prev.len() - arity);
                smax_depths(sl@, ts.skip(ts.len() - arity));
                assert forall|i: int| 0 <= i < st.len() implies #[trigger] st[i] == tdepth(parse0(nodes)->0[i]) by {
                    if i < st.len() - 1 { assert(st[i] == st.drop_last()[i]); assert(prev.take(prev.len() - arity)[i] == prev[i]); }
                }
            }
            _ => {
                red_depth(nodes.drop_last(), fl, fb, op, st.drop_last());
                assert forall|i: int| 0 <= i < st.len() implies #[trigger] st[i] == tdepth(parse0(nodes)->0[i]) by {
                    if i < st.len() - 1 { assert(st[i] == st.drop_last()[i]); }
                }
            }
        }
    }
}
/// depths stay below the number of nodes read, so `+ 1` cannot overflow
pub proof fn depth_bound(nodes: Seq<PNode>, i: int)
    requires parse0(nodes) is Some, 0 <= i < parse0(nodes)->0.len(),
    ensures tdepth(parse0(nodes)->0[i]) <= nodes.len(),
{
    let ts = parse0(nodes)->0;
    flat_parse0(nodes);
    assert(ts.take(i) + seq![ts[i]] + ts.skip(i + 1) =~= ts);
    flatten_all_app(ts.take(i) + seq![ts[i]], ts.skip(i + 1));
    flatten_all_app(ts.take(i), seq![ts[i]]);
    assert(seq![ts[i]].drop_last() =~= Seq::<Term>::empty());
    depth_le_size(ts[i]);
}
pub proof fn smax_le(s: Seq<usize>, m: int)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m, m >= 0,
    ensures smax(s) <= m,
    decreases s.len(),
{ if s.len() > 0 { smax_le(s.drop_last(), m); assert(s.last() == s[s.len() - 1]); } }
=== fn dynamic_expressions/src/node_utils.rs count_depth
--- ret r
--- opt tls:COUNT_DEPTH_STACK
--- spec
requires nodes.len() < usize::MAX,
ensures reduces(nodes@), r == tdepth(sub_at(nodes@, nodes.len() - 1)), well_formed(nodes@) ==> r == tdepth(tree_of(nodes@)),
--- closure 0
types &PNode -> usize
ensures r == 1
--- closure 1
types &PNode -> usize
--- closure 2
types usize ; &[usize] -> usize
requires smax(children@) < usize::MAX
ensures r == smax(children@) + 1
--- closures
proof {
    assert(depth_fns(__cl0, __cl1, __cl2));
    assert forall|k: int, prev: Seq<usize>, b: usize, sl: &[usize]| #![trigger red(nodes@.take(k), __cl0, __cl1, __cl2, prev), call_requires(__cl2, (b, sl))]
        0 <= k < nodes@.len() && nodes@[k] is Op && red(nodes@.take(k), __cl0, __cl1, __cl2, prev) && nodes@[k]->arity <= prev.len()
            && sl@ == prev.skip(prev.len() - nodes@[k]->arity) && call_ensures(__cl1, (&nodes@[k],), b) implies call_requires(__cl2, (b, sl)) by {
        red_depth(nodes@.take(k), __cl0, __cl1, __cl2, prev);
        assert forall|i: int| 0 <= i < sl@.len() implies #[trigger] sl@[i] <= nodes@.len() - 1 by {
            depth_bound(nodes@.take(k), prev.len() - nodes@[k]->arity + i);
        }
        smax_le(sl@, nodes@.len() - 1);
    }
}
--- closed
proof {
    red_depth(nodes@, __cl0, __cl1, __cl2, seq![__vxr]);
    assert(nodes@.take(nodes@.len() as int) =~= nodes@);
    assert(seq![__vxr][0] == __vxr);
    parse_vs_parse0(nodes@);
}
--- loops 1
--- loop 0
invariant __n0 == children.len(), __k0 <= __n0,
    __k0 == 0 ==> __acc0 is None, __k0 > 0 ==> __acc0 == Some(smax(children@.take(__k0 as int)) as usize) && smax(children@.take(__k0 as int)) <= usize::MAX,
decreases __n0 - __k0,
--- head 0
proof { let i = __k0 - 1; assert(children@.take(i + 1).drop_last() =~= children@.take(i)); assert(children@.take(i + 1).last() == children@[i]); }
--- after 0
proof { assert(children@.take(__n0 as int) =~= children@); }

=== raw
pub open spec fn any_node(nodes: Seq<PNode>, p: spec_fn(PNode) -> bool) -> bool { exists|i: int| 0 <= i < nodes.len() && p(#[trigger] nodes[i]) }
pub open spec fn cnt(nodes: Seq<PNode>, p: spec_fn(PNode) -> bool) -> int
    decreases nodes.len(),
{ if nodes.len() == 0 { 0 } else { cnt(nodes.drop_last(), p) + (if p(nodes.last()) { 1int } else { 0int }) } }
pub proof fn cnt_step(nodes: Seq<PNode>, i: int, p: spec_fn(PNode) -> bool)
    requires 0 <= i < nodes.len(),
    ensures cnt(nodes.take(i + 1), p) == cnt(nodes.take(i), p) + (if p(nodes[i]) { 1int } else { 0int }), 0 <= cnt(nodes.take(i), p) <= i,
    decreases i,
{
    assert(nodes.take(i + 1).drop_last() =~= nodes.take(i));
    assert(nodes.take(i + 1).last() == nodes[i]);
    if i > 0 { cnt_step(nodes, i - 1, p); } else { assert(nodes.take(0).len() == 0); }
}
pub open spec fn is_var() -> spec_fn(PNode) -> bool { |n: PNode| n is Var }
pub open spec fn is_const() -> spec_fn(PNode) -> bool { |n: PNode| n is Const }
pub open spec fn is_op() -> spec_fn(PNode) -> bool { |n: PNode| n is Op }
pub open spec fn top_arity(nodes: Seq<PNode>) -> int
    decreases nodes.len(),
{ if nodes.len() == 0 { 0 } else { let m = top_arity(nodes.drop_last()); match nodes.last() { PNode::Op { arity, .. } => if arity >= m { arity as int } else { m }, _ => m } } }
/// a sequence holding exactly one leaf and nothing else
pub open spec fn one_leaf(nodes: Seq<PNode>) -> bool { nodes.len() == 1 && !(nodes[0] is Op) }
=== fn dynamic_expressions/src/node_utils.rs count_nodes
--- ret r
--- spec
ensures r == nodes.len(), reduces(nodes@) ==> r == tsize(parse0(nodes@)->0[0]),
--- entry
proof { if reduces(nodes@) { flat_parse0(nodes@); let st = parse0(nodes@)->0; assert(st.drop_last() =~= Seq::<Term>::empty()); assert(flatten_all(st.drop_last()) =~= Seq::<PNode>::empty()); assert(st.last() == st[0]); assert(flatten_all(st) =~= flatten(st[0])); } }
=== fn dynamic_expressions/src/node_utils.rs has_constants
--- ret r
--- spec
ensures r == any_node(nodes@, is_const()),
--- loops 1
--- loop 0
invariant_except_break !__acc0, forall|i: int| 0 <= i < __k0 ==> !is_const()(#[trigger] nodes@[i]),
invariant __n0 == nodes.len(), __k0 <= __n0,
ensures __acc0 ==> any_node(nodes@, is_const()), !__acc0 ==> forall|i: int| 0 <= i < __n0 ==> !is_const()(#[trigger] nodes@[i]),
decreases __n0 - __k0,
--- head 0
proof { let j = __k0 - 1; if is_const()(nodes@[j]) { assert(any_node(nodes@, is_const())); } }
=== fn dynamic_expressions/src/node_utils.rs has_operators
--- ret r
--- spec
ensures r == any_node(nodes@, is_op()),
--- loops 1
--- loop 0
invariant_except_break !__acc0, forall|i: int| 0 <= i < __k0 ==> !is_op()(#[trigger] nodes@[i]),
invariant __n0 == nodes.len(), __k0 <= __n0,
ensures __acc0 ==> any_node(nodes@, is_op()), !__acc0 ==> forall|i: int| 0 <= i < __n0 ==> !is_op()(#[trigger] nodes@[i]),
decreases __n0 - __k0,
--- head 0
proof { let j = __k0 - 1; if is_op()(nodes@[j]) { assert(any_node(nodes@, is_op())); } }
=== fn dynamic_expressions/src/node_utils.rs has_variables
--- ret r
--- spec
ensures r == any_node(nodes@, is_var()),
--- loops 1
--- loop 0
invariant_except_break !__acc0, forall|i: int| 0 <= i < __k0 ==> !is_var()(#[trigger] nodes@[i]),
invariant __n0 == nodes.len(), __k0 <= __n0,
ensures __acc0 ==> any_node(nodes@, is_var()), !__acc0 ==> forall|i: int| 0 <= i < __n0 ==> !is_var()(#[trigger] nodes@[i]),
decreases __n0 - __k0,
--- head 0
proof { let j = __k0 - 1; if is_var()(nodes@[j]) { assert(any_node(nodes@, is_var())); } }
=== fn dynamic_expressions/src/node_utils.rs count_constant_nodes
--- ret r
--- spec
ensures r == cnt(nodes@, is_const()),
--- loops 1
--- loop 0
invariant __n0 == nodes.len(), __k0 <= __n0, __acc0 == cnt(nodes@.take(__k0 as int), is_const()), __acc0 <= __k0,
decreases __n0 - __k0,
--- head 0
proof { cnt_step(nodes@, __k0 - 1, is_const()); }
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); }
=== fn dynamic_expressions/src/node_utils.rs count_variable_nodes
--- ret r
--- spec
ensures r == cnt(nodes@, is_var()),
--- loops 1
--- loop 0
invariant __n0 == nodes.len(), __k0 <= __n0, __acc0 == cnt(nodes@.take(__k0 as int), is_var()), __acc0 <= __k0,
decreases __n0 - __k0,
--- head 0
proof { cnt_step(nodes@, __k0 - 1, is_var()); }
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); }
=== fn dynamic_expressions/src/node_utils.rs count_operator_nodes
--- ret r
--- spec
ensures r == cnt(nodes@, is_op()),
--- loops 1
--- loop 0
invariant __n0 == nodes.len(), __k0 <= __n0, __acc0 == cnt(nodes@.take(__k0 as int), is_op()), __acc0 <= __k0,
decreases __n0 - __k0,
--- head 0
proof { cnt_step(nodes@, __k0 - 1, is_op()); }
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); }
=== fn dynamic_expressions/src/node_utils.rs max_arity
--- ret r
--- spec
ensures r == top_arity(nodes@),
--- loops 1
--- loop 0
invariant __n0 == nodes.len(), __k0 <= __n0,
    match __acc0 { None => top_arity(nodes@.take(__k0 as int)) == 0, Some(m) => m == top_arity(nodes@.take(__k0 as int)) },
decreases __n0 - __k0,
--- head 0
proof { let i = __k0 - 1; assert(nodes@.take(i + 1).drop_last() =~= nodes@.take(i)); assert(nodes@.take(i + 1).last() == nodes@[i]); }
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); }
=== fn dynamic_expressions/src/node_utils.rs is_leaf
--- ret r
--- spec
ensures r == one_leaf(nodes@),
=== fn dynamic_expressions/src/node_utils.rs is_valid_postfix
--- ret r
--- spec
requires nodes.len() <= isize::MAX,
ensures r == well_formed(nodes@),
--- loops 1
--- entry
proof { assert(nodes@.take(0) =~= Seq::<PNode>::empty()); }
--- loop 0
invariant
    __n0 == nodes.len(), __k0 <= __n0, __n0 <= isize::MAX,
    parse(nodes@.take(__k0 as int)) is Some, stack == parse(nodes@.take(__k0 as int))->0.len(), 0 <= stack <= __k0,
decreases __n0 - __k0,
--- head 0
proof { parse_step(nodes@, __k0 - 1); if parse(nodes@) is Some { parse_prefix(nodes@, __k0 as int); } }
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); }
=== raw
pub open spec fn tot(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { tot(s.drop_last()) + s.last() } }
pub proof fn sum_sizes(s: Seq<usize>, ts: Seq<Term>)
    requires s.len() == ts.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == tsize(ts[i]),
    ensures tot(s) == flatten_all(ts).len(),
    decreases s.len(),
{ if s.len() > 0 { sum_sizes(s.drop_last(), ts.drop_last()); assert(s.last() == s[s.len() - 1]); } }
pub proof fn sum_app(a: Seq<usize>, b: Seq<usize>)
    ensures tot(a + b) == tot(a) + tot(b), tot(b) >= 0,
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { sum_app(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } }
/// what the walk knows after k nodes: the stack holds the sizes of the trees read so far
pub open spec fn sz_walk(nodes: Seq<PNode>, k: int, sizes: Seq<usize>, stack: Seq<usize>) -> bool {
    &&& parse0(nodes.take(k)) is Some && stack.len() == parse0(nodes.take(k))->0.len()
    &&& forall|j: int| 0 <= j < stack.len() ==> #[trigger] stack[j] == tsize(parse0(nodes.take(k))->0[j])
    &&& forall|j: int| 0 <= j < k ==> #[trigger] sizes[j] == tsize(sub_at(nodes, j))
}
=== fn dynamic_expressions/src/node_utils.rs subtree_sizes
--- ret r
--- panics !reduces(nodes@)
--- spec
ensures
    reduces(nodes@), r.len() == nodes.len(),
    forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] r[i]) == tsize(sub_at(nodes@, i)),
    forall|i: int| 0 <= i < nodes.len() ==> 1 <= (#[trigger] r[i]) <= i + 1 && nodes@.subrange(i + 1 - r[i], i + 1) == flatten(sub_at(nodes@, i)),
--- loops 2
--- entry
proof { assert(nodes@.take(0) =~= Seq::<PNode>::empty()); }
--- loop 0
invariant
    __n0 == nodes.len(), __k0 <= __n0, sizes.len() == nodes.len(),
    sz_walk(nodes@, __k0 as int, sizes@, stack@),
decreases __n0 - __k0,
--- head 0
let ghost st0 = stack@;
let ghost sz0 = sizes@;
let ghost ts0 = parse0(nodes@.take(__k0 - 1))->0;
proof {
    parse0_step(nodes@, __k0 - 1);
    if parse0(nodes@) is Some { parse0_prefix(nodes@, __k0 as int); }
    flat_parse0(nodes@.take(__k0 - 1));
    sum_sizes(st0, ts0);
}
--- tail 0
proof {
    let k = __k0 as int;
    let ts1 = parse0(nodes@.take(k))->0;
    assert forall|j: int| 0 <= j < stack@.len() implies #[trigger] stack@[j] == tsize(ts1[j]) by {
        if j < stack@.len() - 1 { assert(stack@[j] == st0[j]); assert(ts1[j] == ts0[j]); }
        else {
            match nodes@[k - 1] {
                PNode::Op { arity, .. } => {
                    assert(flatten(ts1.last()) == flatten_all(ts0.skip(ts0.len() - arity)).push(nodes@[k - 1]));
                }
                _ => { assert(tsize(ts1.last()) == 1); }
            }
        }
    }
    assert forall|j: int| 0 <= j < k implies #[trigger] sizes@[j] == tsize(sub_at(nodes@, j)) by {
        if j < k - 1 { assert(sizes@[j] == sz0[j]); } else { assert(sizes@[j] == stack@.last()); assert(stack@.last() == stack@[stack@.len() - 1]); assert(ts1.last() == ts1[ts1.len() - 1]); }
    }
}
--- loop 1
invariant
    __n1 == a, __k1 <= a, stack@.len() + __k1 == st0.len(), stack@ == st0.take(stack@.len() as int),
    sum == 1 + tot(st0.skip(st0.len() - __k1)), tot(st0) == __k0 - 1, __k0 <= usize::MAX,
    nodes@[__k0 - 1] is Op, nodes@[__k0 - 1]->arity == a, 1 <= __k0 <= nodes@.len(),
    parse0(nodes@.take(__k0 - 1)) is Some, st0.len() == parse0(nodes@.take(__k0 - 1))->0.len(),
    st0.len() < a ==> parse0(nodes@.take(__k0 as int)) is None,
    parse0(nodes@) is Some ==> parse0(nodes@.take(__k0 as int)) is Some,
decreases __n1 - __k1,
--- head 1
proof {
    if stack@.len() > 0 {
        let m = stack@.len() - 1;
        assert(st0.skip(m) =~= seq![st0[m]] + st0.skip(m + 1));
        sum_app(seq![st0[m]], st0.skip(m + 1));
        assert(seq![st0[m]].drop_last() =~= Seq::<usize>::empty());
        assert(st0 =~= st0.take(m) + st0.skip(m));
        sum_app(st0.take(m), st0.skip(m));
        sum_app(Seq::empty(), st0.take(m));
        assert(Seq::<usize>::empty() + st0.take(m) =~= st0.take(m));
        assert(stack@.last() == st0[m]);
        assert(stack@.drop_last() =~= st0.take(m));
    }
}
--- before 1
proof { assert(st0.skip(st0.len() as int) =~= Seq::<usize>::empty()); assert(st0.take(st0.len() as int) =~= st0); }
--- after 1
proof {
    assert(st0.len() >= a);
    let hi = st0.skip(st0.len() - a);
    let th = ts0.skip(ts0.len() - a);
    assert forall|i: int| 0 <= i < hi.len() implies #[trigger] hi[i] == tsize(th[i]) by { assert(hi[i] == st0[st0.len() - a + i]); }
    sum_sizes(hi, th);
}
--- after 0
proof {
    assert(nodes@.take(__n0 as int) =~= nodes@);
    assert forall|i: int| 0 <= i < nodes@.len() implies 1 <= (#[trigger] sizes@[i]) <= i + 1 && nodes@.subrange(i + 1 - sizes@[i], i + 1) == flatten(sub_at(nodes@, i)) by {
        parse0_prefix(nodes@, i + 1);
        sub_range(nodes@, i);
    }
}
=== fn dynamic_expressions/src/node_utils.rs subtree_range
--- ret r
--- spec
requires root_idx < subtree_sizes.len(), subtree_sizes[root_idx as int] <= root_idx + 1, root_idx < usize::MAX,
ensures r.0 == root_idx + 1 - subtree_sizes[root_idx as int], r.1 == root_idx,
