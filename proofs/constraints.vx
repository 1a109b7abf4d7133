# symbolic_regression: complexity and structural constraints
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include constraints_spec.inc
=== uses nodeutils.vx count_depth
=== uses nodeutils.vx subtree_sizes
=== include complexity.inc
=== raw
// ---- children of the operator at i, found by walking sizes leftwards ----
/// end position of the child m places left of the rightmost one
pub open spec fn cend(sizes: Seq<usize>, i: int, m: int) -> int
    decreases m,
{ if m <= 0 { i - 1 } else { cend(sizes, i, m - 1) - sizes[cend(sizes, i, m - 1)] } }
pub open spec fn cends_ok(sizes: Seq<usize>, i: int, a: int) -> bool {
    forall|m: int| 0 <= m < a ==> 0 <= #[trigger] cend(sizes, i, m) < sizes.len() && 1 <= sizes[cend(sizes, i, m)] <= cend(sizes, i, m) + 1
}
/// reading without the nodes of the last m trees leaves the other trees
pub proof fn pop_n(nodes: Seq<PNode>, e: int, m: int)
    requires 0 <= e <= nodes.len(), parse0(nodes.take(e)) is Some, 0 <= m <= parse0(nodes.take(e))->0.len(),
    ensures ({ let st = parse0(nodes.take(e))->0; let f = flatten_all(st.skip(st.len() - m)).len(); f <= e && parse0(nodes.take(e - f)) == Some(st.take(st.len() - m)) }),
    decreases e, m,
{
    let st = parse0(nodes.take(e))->0;
    if m == 0 {
        assert(st.skip(st.len() as int) =~= Seq::<Term>::empty());
        assert(st.take(st.len() as int) =~= st);
    } else {
        assert(e > 0);
        parse0_step(nodes, e - 1);
        let prev = parse0(nodes.take(e - 1))->0;
        let t = st.last();
        let e1 = e - tsize(t);
        sub_range(nodes, e - 1);
        match nodes[e - 1] {
            PNode::Op { arity, op } => {
                pop_n(nodes, e - 1, arity as int);
                assert(tsize(t) == 1 + flatten_all(prev.skip(prev.len() - arity)).len());
                assert(st.drop_last() =~= prev.take(prev.len() - arity));
            }
            _ => { assert(st.drop_last() =~= prev); }
        }
        assert(parse0(nodes.take(e1)) == Some(st.drop_last()));
        pop_n(nodes, e1, m - 1);
        let sd = st.drop_last();
        assert(st.skip(st.len() - m) =~= sd.skip(sd.len() - (m - 1)).push(t));
        flatten_all_push(sd.skip(sd.len() - (m - 1)), t);
        assert(sd.take(sd.len() - (m - 1)) =~= st.take(st.len() - m));
    }
}
pub open spec fn sizes_right(nodes: Seq<PNode>, sizes: Seq<usize>) -> bool {
    sizes.len() == nodes.len() && forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] sizes[i]) == tsize(sub_at(nodes, i))
}
/// walking sizes leftwards meets exactly the children
pub proof fn cend_child(nodes: Seq<PNode>, sizes: Seq<usize>, i: int, m: int)
    requires sizes_right(nodes, sizes), 0 <= i < nodes.len(), parse0(nodes) is Some, nodes[i] is Op, 0 <= m < nodes[i]->arity,
    ensures ({ let e = cend(sizes, i, m); let ch = sub_at(nodes, i)->Op_2; &&& 0 <= e < i && sub_at(nodes, e) == ch[nodes[i]->arity - 1 - m] && 1 <= sizes[e] <= e + 1
        &&& parse0(nodes.take(e + 1)) is Some && ({ let st = parse0(nodes.take(i))->0; parse0(nodes.take(e + 1))->0 == st.take(st.len() - m) }) && ch.len() == nodes[i]->arity }),
    decreases m,
{
    parse0_prefix(nodes, i + 1);
    parse0_prefix(nodes, i);
    parse0_step(nodes, i);
    let st = parse0(nodes.take(i))->0;
    let a = nodes[i]->arity;
    let ch = sub_at(nodes, i)->Op_2;
    assert(ch =~= st.skip(st.len() - a));
    let e = cend(sizes, i, m);
    if m == 0 {
        assert(st.take(st.len() as int) =~= st);
        if i == 0 { assert(nodes.take(0) =~= Seq::<PNode>::empty()); }
    } else {
        cend_child(nodes, sizes, i, m - 1);
        let e0 = cend(sizes, i, m - 1);
        let s0 = st.take(st.len() - (m - 1));
        pop_n(nodes, e0 + 1, 1);
        assert(s0.skip(s0.len() - 1) =~= seq![s0.last()]);
        flatten_all_push(Seq::empty(), s0.last());
        assert(Seq::<Term>::empty().push(s0.last()) =~= seq![s0.last()]);
        assert(flatten_all(seq![s0.last()]) =~= flatten(s0.last()));
        assert(s0.take(s0.len() - 1) =~= st.take(st.len() - m));
        assert(st.take(st.len() - m).len() > 0);
        if e < 0 { assert(nodes.take(0) =~= Seq::<PNode>::empty()); }
    }
    sub_range(nodes, e);
    let sm = st.take(st.len() - m);
    assert(sm.last() == st[st.len() - m - 1]);
    assert(ch[a - 1 - m] == st[st.len() - a + (a - 1 - m)]);
}
pub proof fn cends_of(nodes: Seq<PNode>, sizes: Seq<usize>, i: int)
    requires sizes_right(nodes, sizes), 0 <= i < nodes.len(), parse0(nodes) is Some, nodes[i] is Op,
    ensures cends_ok(sizes, i, nodes[i]->arity as int),
{
    assert forall|m: int| 0 <= m < nodes[i]->arity implies 0 <= #[trigger] cend(sizes, i, m) < sizes.len() && 1 <= sizes[cend(sizes, i, m)] <= cend(sizes, i, m) + 1 by { cend_child(nodes, sizes, i, m); }
}
=== fn symbolic_regression/src/check_constraints.rs child_ranges
--- ret r
--- opt results
--- spec
requires root_idx < sizes.len() <= isize::MAX, cends_ok(sizes@, root_idx as int, arity as int),
ensures r.len() == arity,
    forall|k: int| 0 <= k < arity ==> (#[trigger] r[k]).1 == cend(sizes@, root_idx as int, arity - 1 - k) && r[k].0 == r[k].1 + 1 - sizes[r[k].1 as int],
--- loops 1
--- loop 0
invariant
    __n0 == 0, __k0 <= arity, out.len() == arity, root_idx < sizes.len() <= isize::MAX, cends_ok(sizes@, root_idx as int, arity as int),
    end == cend(sizes@, root_idx as int, arity - __k0),
    forall|k: int| __k0 <= k < arity ==> (#[trigger] out[k]).1 == cend(sizes@, root_idx as int, arity - 1 - k) && out[k].0 == out[k].1 + 1 - sizes[out[k].1 as int],
decreases __k0,
--- head 0
proof { assert(0 <= cend(sizes@, root_idx as int, arity - 1 - __k0) < sizes.len()); }
=== fn symbolic_regression/src/check_constraints.rs check_default_op_arg_constraints
--- subst node_utils:: =>
--- ret r
--- spec
requires arity_le(nodes@, D as int), reduces(nodes@), plain_weights(*options), nodes.len() <= isize::MAX,
ensures r == limits_ok(*options, options.op_constraints.limits@, nodes@),
--- loops 2
--- entry
proof { opid_key(); broadcast use vstd::std_specs::hash::group_hash_axioms; }
--- loop 0
invariant
    vstd::std_specs::hash::obeys_key_model::<OpId>(),
    __n0 == nodes.len(), __k0 <= __n0, arity_le(nodes@, D as int), reduces(nodes@), plain_weights(*options), nodes.len() <= isize::MAX,
    sizes_right(nodes@, sizes@),
    forall|i: int| 0 <= i < __k0 ==> #[trigger] limit_ok_at(*options, options.op_constraints.limits@, nodes@, i),
decreases __n0 - __k0,
--- head 0
broadcast use vstd::std_specs::hash::group_hash_axioms;
proof { if nodes@[__k0 - 1] is Op { cends_of(nodes@, sizes@, __k0 - 1); } }
--- before 1
proof { assert(nodes@[__k0 - 1]->arity <= D); }
--- loop 1
invariant
    __n1 == a, __k1 <= a, a <= D, a == nodes@[__k0 - 1]->arity, nodes@[__k0 - 1] is Op, 1 <= __k0 <= nodes@.len(), lims@.len() == D, ranges.len() == a, i == __k0 - 1,
    options.op_constraints.limits@.contains_key(oid), options.op_constraints.limits@[oid] == *lims, oid == (OpId { arity: nodes@[__k0 - 1]->arity, id: nodes@[__k0 - 1]->op }),
    sizes_right(nodes@, sizes@), reduces(nodes@), plain_weights(*options),
    forall|k: int| 0 <= k < a ==> (#[trigger] ranges[k]).1 == cend(sizes@, __k0 - 1, a - 1 - k),
    forall|j: int| 0 <= j < __k1 ==> match (#[trigger] lims@[j]) { Some(l) => cx(*options, sub_at(nodes@, __k0 - 1)->Op_2[j]) <= l, None => true },
decreases __n1 - __k1,
--- head 1
proof {
    let j = __k1 - 1;
    cend_child(nodes@, sizes@, __k0 - 1, a - 1 - j);
    let ch = sub_at(nodes@, __k0 - 1)->Op_2[j];
    wsum_plain(*options, flatten(ch));
    assert(sizes@[ranges[j].1 as int] == tsize(ch));
    if let Some(l) = lims@[j] { if tsize(ch) > l { assert(!limit_ok_at(*options, options.op_constraints.limits@, nodes@, __k0 - 1)); } }
}
=== raw
// ---- nestedness: how many times target occurs on the worst path from the root of a tree down ----
pub open spec fn cap(x: int) -> int { if x <= 65535 { x } else { 65535 } }
pub open spec fn nest_walk(nodes: Seq<PNode>, k: int, target: OpId, st: Seq<u16>, out: Seq<u16>) -> bool {
    &&& parse0(nodes.take(k)) is Some && parse0(nodes.take(k))->0.len() == st.len() && out.len() == k
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) == cap(nest(parse0(nodes.take(k))->0[i], target))
    &&& nest_of(nodes, k, target, out)
}
pub open spec fn nest_of(nodes: Seq<PNode>, k: int, target: OpId, out: Seq<u16>) -> bool {
    out.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] out[i]) == cap(nest(sub_at(nodes, i), target))
}
/// the rule (op, max) holds at the operator application at position i: op occurs at most max times below it on any path
pub open spec fn all_right(c: Map<OpId, Vec<u16>>, nodes: Seq<PNode>) -> bool { forall|k: OpId| #[trigger] c.contains_key(k) ==> cached(c, nodes, k) }
pub open spec fn cached(c: Map<OpId, Vec<u16>>, nodes: Seq<PNode>, k: OpId) -> bool { c.contains_key(k) && nest_of(nodes, nodes.len() as int, k, c[k]@) }
=== fn symbolic_regression/src/check_constraints.rs check_nested_constraints/nestedness_vec
--- ret r
--- spec
ensures r is Some <==> reduces(nodes@), r is Some ==> nest_of(nodes@, nodes.len() as int, target, r->0@),
--- loops 2
--- entry
proof { assert(nodes@.take(0) =~= Seq::<PNode>::empty()); }
--- loop 0
invariant __n0 == nodes.len(), __k0 <= __n0, nest_walk(nodes@, __k0 as int, target, st@, out@),
decreases __n0 - __k0,
--- head 0
let ghost st0 = st@;
let ghost out0 = out@;
let ghost ts0 = parse0(nodes@.take(__k0 - 1))->0;
proof {
    parse0_step(nodes@, __k0 - 1);
    if parse0(nodes@) is Some { parse0_prefix(nodes@, __k0 as int); }
    max_nest_pos(ts0, target);
}
--- tail 0
proof {
    let k = __k0 as int;
    let ts1 = parse0(nodes@.take(k))->0;
    assert forall|j: int| 0 <= j < st@.len() implies #[trigger] st@[j] == cap(nest(ts1[j], target)) by {
        if j < st@.len() - 1 { assert(st@[j] == st0[j]); assert(ts1[j] == ts0[j]); }
    }
    assert forall|j: int| 0 <= j < k implies #[trigger] out@[j] == cap(nest(sub_at(nodes@, j), target)) by {
        if j < k - 1 { assert(out@[j] == out0[j]); } else { assert(out@[j] == st@.last()); assert(st@.last() == st@[st@.len() - 1]); assert(ts1.last() == ts1[ts1.len() - 1]); }
    }
}
--- loop 1
invariant
    __n1 == a, __k1 <= a, a <= st0.len(), st@.len() + __k1 == st0.len(), st@ == st0.take(st@.len() as int),
    st0.len() == ts0.len(), forall|i: int| 0 <= i < st0.len() ==> (#[trigger] st0[i]) == cap(nest(ts0[i], target)), forall|i: int| 0 <= i < ts0.len() ==> nest(#[trigger] ts0[i], target) >= 0,
    m == cap(max_nest(ts0.skip(ts0.len() - __k1), target)),
decreases __n1 - __k1,
--- before 1
proof { assert(st0.take(st0.len() as int) =~= st0); assert(ts0.skip(ts0.len() as int) =~= Seq::<Term>::empty()); }
--- head 1
proof { let x = ts0.len() - __k1; max_nest_cons(ts0[x], ts0.skip(x + 1), target); assert(ts0.skip(x) =~= seq![ts0[x]] + ts0.skip(x + 1)); }
--- after 0
proof { assert(nodes@.take(__n0 as int) =~= nodes@); }
=== raw
pub proof fn max_nest_cons(t: Term, ts: Seq<Term>, target: OpId)
    ensures max_nest(seq![t] + ts, target) == (if nest(t, target) >= max_nest(ts, target) { nest(t, target) } else { max_nest(ts, target) }),
    decreases ts.len(),
{
    nest_pos(t, target);
    let s = seq![t] + ts;
    if ts.len() == 0 { assert(s.drop_last() =~= Seq::<Term>::empty()); assert(s.last() == t); assert(max_nest(Seq::<Term>::empty(), target) == 0); }
    else { max_nest_cons(t, ts.drop_last(), target); assert(s.drop_last() =~= seq![t] + ts.drop_last()); assert(s.last() == ts.last()); max_nest_pos(ts, target); }
}
=== fn symbolic_regression/src/check_constraints.rs check_nested_constraints
--- ret r
--- opt optcopied
--- spec
requires reduces(nodes@),
ensures r == nested_ok(nested.limits@, nodes@),
--- entry
proof { opid_key(); broadcast use vstd::std_specs::hash::group_hash_axioms; }
--- loop 0
invariant
    vstd::std_specs::hash::obeys_key_model::<OpId>(), reduces(nodes@),
    __it0.seq().unref().to_set() == nested.limits@.values(),
    forall|j: int, r: int| 0 <= j < __it0.index() && 0 <= r < __it0.seq()[j]@.len() ==> cached(nested_cache@, nodes@, (#[trigger] __it0.seq()[j]@[r]).0),
    all_right(nested_cache@, nodes@),
--- head 0
broadcast use vstd::std_specs::hash::group_hash_axioms;
--- loop 1
invariant
    vstd::std_specs::hash::obeys_key_model::<OpId>(), reduces(nodes@),
    __n1 == rules.len(), __k1 <= __n1, 
    forall|j: int, r: int| 0 <= j < __it0.index() && 0 <= r < __it0.seq()[j]@.len() ==> cached(nested_cache@, nodes@, (#[trigger] __it0.seq()[j]@[r]).0),
    forall|r: int| 0 <= r < __k1 ==> cached(nested_cache@, nodes@, (#[trigger] rules@[r]).0),
    all_right(nested_cache@, nodes@),
decreases __n1 - __k1,
--- head 1
broadcast use vstd::std_specs::hash::group_hash_axioms;
let ghost c0 = nested_cache@;
--- tail 1
proof {
    assert(forall|k: OpId| #[trigger] cached(c0, nodes@, k) ==> cached(nested_cache@, nodes@, k));
    assert(cached(nested_cache@, nodes@, *nested_op));
}
--- after 0
let ghost vals = nested.limits@.values();
proof {
    assert forall|id: OpId, r: int| nested.limits@.contains_key(id) && 0 <= r < nested.limits@[id]@.len() implies cached(nested_cache@, nodes@, (#[trigger] nested.limits@[id]@[r]).0) by {
        assert(nested.limits@.values().contains(nested.limits@[id]));
        assert(vals.contains(nested.limits@[id]));
    }
}
--- loop 2
invariant
    vstd::std_specs::hash::obeys_key_model::<OpId>(), reduces(nodes@), __n2 == nodes.len(), __k2 <= __n2,
    forall|id: OpId, r: int| nested.limits@.contains_key(id) && 0 <= r < nested.limits@[id]@.len() ==> cached(nested_cache@, nodes@, (#[trigger] nested.limits@[id]@[r]).0),
    forall|i: int| 0 <= i < __k2 ==> #[trigger] nested_ok_at(nested.limits@, nodes@, i),
decreases __n2 - __k2,
--- head 2
broadcast use vstd::std_specs::hash::group_hash_axioms;
--- loop 3
invariant
    vstd::std_specs::hash::obeys_key_model::<OpId>(), reduces(nodes@), __n3 == rules.len(), __k3 <= __n3, 1 <= __k2 <= nodes.len(), i == __k2 - 1,
    nodes@[i as int] is Op, root == (OpId { arity: nodes@[i as int]->arity, id: nodes@[i as int]->op }), nested.limits@.contains_key(root), *rules == nested.limits@[root],
    forall|id: OpId, r: int| nested.limits@.contains_key(id) && 0 <= r < nested.limits@[id]@.len() ==> cached(nested_cache@, nodes@, (#[trigger] nested.limits@[id]@[r]).0),
    forall|r: int| 0 <= r < __k3 ==> #[trigger] rule_ok(nodes@, i as int, rules@[r]),
decreases __n3 - __k3,
--- head 3
broadcast use vstd::std_specs::hash::group_hash_axioms;
proof {
    let rule = nested.limits@[root]@[__k3 - 1];
    assert(cached(nested_cache@, nodes@, rule.0));
    assert(rules@[__k3 - 1] == rule);
    parse0_prefix(nodes@, i + 1);
    parse0_prefix(nodes@, i as int);
    parse0_step(nodes@, i as int);
    assert(sub_at(nodes@, i as int) is Op);
    let t = sub_at(nodes@, i as int);
    assert(nest(t, rule.0) == max_nest(t->Op_2, rule.0) + is_target(root.arity, root.id, rule.0));
    max_nest_pos(t->Op_2, rule.0);
    if !rule_ok(nodes@, i as int, rule) { assert(!nested_ok_at(nested.limits@, nodes@, i as int)); }
}
=== fn symbolic_regression/src/check_constraints.rs check_constraints
--- ret r
--- subst node_utils:: =>
--- subst complexity:: =>
--- spec
requires sound_expr(*expr),
ensures r == admissible(*expr, *options, curmaxsize),
--- entry
proof {
    let ns = expr.nodes@;
    assert(ns.take(ns.len() as int) =~= ns);
    let t = parse0(ns)->0[0];
    assert(sub_at(ns, ns.len() - 1) == t);
    if ns.len() == 0 { assert(parse0(ns)->0.len() == 0); }
    sub_range(ns, ns.len() - 1);
    depth_le_size(t);
    if plain_weights(*options) { wsum_plain(*options, ns); }
}
=== fn symbolic_regression/src/check_constraints.rs OpConstraints::set_op_arg_constraint
--- panics arg_idx >= D
--- spec
ensures arg_idx < D, final(self).limits@ == old(self).limits@.insert(op, final(self).limits@[op]),
    final(self).limits@[op]@ == (if old(self).limits@.contains_key(op) { old(self).limits@[op]@ } else { Seq::new(D as nat, |j: int| None::<u16>) }).update(arg_idx as int, Some(max_complexity)),
=== fn symbolic_regression/src/check_constraints.rs NestedConstraints::add_nested_constraint
--- spec
ensures final(self).limits@ == old(self).limits@.insert(root, final(self).limits@[root]),
    final(self).limits@[root]@ == (if old(self).limits@.contains_key(root) { old(self).limits@[root]@ } else { Seq::empty() }).push((nested, max_nestedness)),
