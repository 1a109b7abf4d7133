=== raw
// ---- the stack of subtree complexities ----
pub open spec fn cx_walk<T: Float, const D: usize>(o: Options<T, D>, nodes: Seq<PNode>, st: Seq<usize>) -> bool {
    &&& parse0(nodes) is Some && parse0(nodes)->0.len() == st.len()
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) == sat(cx(o, parse0(nodes)->0[i]))
}
/// saturating sum
pub open spec fn ssum(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { sat(ssum(s.drop_last()) + s.last()) } }
pub proof fn ssum_cx<T: Float, const D: usize>(o: Options<T, D>, s: Seq<usize>, ts: Seq<Term>)
    requires s.len() == ts.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == sat(cx(o, ts[i])),
    ensures ssum(s) == sat(wsum(o, flatten_all(ts))), wsum(o, flatten_all(ts)) >= 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]) == sat(cx(o, ts.drop_last()[i])) by { assert(s[i] == s.drop_last()[i]); }
        ssum_cx(o, s.drop_last(), ts.drop_last());
        wsum_app(o, flatten_all(ts.drop_last()), flatten(ts.last()));
        assert(s.last() == s[s.len() - 1]);
    }
}
pub proof fn ssum_zeros(s: Seq<usize>, a: int)
    requires 0 <= a <= s.len(), forall|j: int| a <= j < s.len() ==> (#[trigger] s[j]) == 0,
    ensures ssum(s) == ssum(s.take(a)), 0 <= ssum(s) <= usize::MAX,
    decreases s.len(),
{
    if s.len() == a {
        assert(s.take(a) =~= s);
        ssum_range(s);
    } else {
        assert forall|j: int| a <= j < s.drop_last().len() implies (#[trigger] s.drop_last()[j]) == 0 by { assert(s[j] == s.drop_last()[j]); }
        ssum_zeros(s.drop_last(), a);
        assert(s.drop_last().take(a) =~= s.take(a));
        assert(s.last() == s[s.len() - 1]);
    }
}
pub proof fn ssum_range(s: Seq<usize>)
    ensures 0 <= ssum(s) <= usize::MAX,
    decreases s.len(),
{ if s.len() > 0 { ssum_range(s.drop_last()); } }
=== fn symbolic_regression/src/options.rs Options::uses_default_complexity
--- ret r
--- spec
ensures r == plain_weights(*self),
--- entry
proof { opid_key(); broadcast use vstd::std_specs::hash::group_hash_axioms; }
=== fn symbolic_regression/src/complexity.rs compute_custom_complexity_checked
--- ret r
--- opt optcopied owned:child
--- spec
requires arity_le(nodes@, D as int), reduces(nodes@),
ensures
    op_arg_limits is None ==> r is Some,
    op_arg_limits is Some ==> (r is Some <==> limits_ok(*options, op_arg_limits->0@, nodes@)),
    r is Some ==> r->0 == sat(wsum(*options, nodes@)),
--- loops 4
--- entry
proof { opid_key(); broadcast use vstd::std_specs::hash::group_hash_axioms; assert(nodes@.take(0) =~= Seq::<PNode>::empty()); }
--- loop 0
invariant
    vstd::std_specs::hash::obeys_key_model::<OpId>(),
    __n0 == nodes.len(), __k0 <= __n0, arity_le(nodes@, D as int), reduces(nodes@),
    cx_walk(*options, nodes@.take(__k0 as int), st@),
    op_arg_limits is Some ==> forall|i: int| 0 <= i < __k0 ==> #[trigger] limit_ok_at(*options, op_arg_limits->0@, nodes@, i),
decreases __n0 - __k0,
--- head 0
broadcast use vstd::std_specs::hash::group_hash_axioms;
let ghost st0 = st@;
let ghost ts0 = parse0(nodes@.take(__k0 - 1))->0;
let ghost mut gsum = 0int;
proof {
    parse0_step(nodes@, __k0 - 1);
    parse0_prefix(nodes@, __k0 as int);
}
--- tail 0
proof {
    let k = __k0 as int;
    let ts1 = parse0(nodes@.take(k))->0;
    let o = *options;
    assert forall|j: int| 0 <= j < st@.len() implies #[trigger] st@[j] == sat(cx(o, ts1[j])) by {
        if j < st@.len() - 1 { assert(st@[j] == st0[j]); assert(ts1[j] == ts0[j]); }
        else {
            assert(ts1.last() == ts1[ts1.len() - 1]);
            match nodes@[k - 1] {
                PNode::Op { arity, op } => {
                    let th = ts0.skip(ts0.len() - arity);
                    let n = nodes@[k - 1];
                    assert(flatten_all(th).push(n).drop_last() =~= flatten_all(th));
                    assert(st@[j] == sat(weight(o, n) + gsum));
                    assert(gsum == sat(wsum(o, flatten_all(th))));
                    assert(cx(o, ts1[j]) == wsum(o, flatten_all(th)) + weight(o, n));
                }
                _ => {
                    assert(flatten(ts1.last()).drop_last() =~= Seq::<PNode>::empty());
                    assert(flatten(ts1.last()).last() == nodes@[k - 1]);
                    assert(wsum(o, Seq::<PNode>::empty()) == 0);
                    assert(cx(o, ts1[j]) == weight(o, nodes@[k - 1]));
                    assert(st@[j] == weight(o, nodes@[k - 1]));
                }
            }
        }
    }
}
--- loop 1
invariant
    __n1 == 0, __k1 <= a, a <= D, a <= st0.len(), st@.len() + (a - __k1) == st0.len(), st@ == st0.take(st@.len() as int),
    child@.len() == D,
    forall|j: int| 0 <= j < D ==> (#[trigger] child@[j]) == (if __k1 <= j < a { st0[st0.len() - a + j] } else { 0 }),
decreases __k1,
--- before 1
proof { assert(nodes@[__k0 - 1]->arity <= D); assert(st0.take(st0.len() as int) =~= st0); }
--- after 1
let ghost th = ts0.skip(ts0.len() - a);
let ghost hi = child@.take(a as int);
proof {
    assert forall|i: int| 0 <= i < hi.len() implies #[trigger] hi[i] == sat(cx(*options, th[i])) by { assert(hi[i] == st0[st0.len() - a + i]); assert(th[i] == ts0[ts0.len() - a + i]); }
    ssum_cx(*options, hi, th);
    ssum_zeros(child@, a as int);
    assert(sub_at(nodes@, __k0 - 1)->Op_2 == th);
}
--- loop 2
invariant
    __n2 == a, __k2 <= a, a <= D, child@.len() == D, limits@.len() == D, oid == (OpId { arity: nodes@[__k0 - 1]->arity, id: nodes@[__k0 - 1]->op }), nodes@[__k0 - 1] is Op,
    a == nodes@[__k0 - 1]->arity, 1 <= __k0 <= nodes@.len(),
    op_arg_limits is Some, op_arg_limits->0@.contains_key(oid), op_arg_limits->0@[oid] == *limits,
    sub_at(nodes@, __k0 - 1)->Op_2 == th,
    forall|i: int| 0 <= i < a ==> (#[trigger] child@[i]) == sat(cx(*options, th[i])),
    forall|j: int| 0 <= j < __k2 ==> match (#[trigger] limits@[j]) { Some(l) => cx(*options, th[j]) <= l, None => true },
decreases __n2 - __k2,
--- before 2
proof { assert forall|i: int| 0 <= i < a implies (#[trigger] child@[i]) == sat(cx(*options, th[i])) by { assert(hi[i] == child@[i]); } }
--- head 2
proof { let j = __k2 - 1; if let Some(l) = limits@[j] { if child@[j] > l { assert(!limit_ok_at(*options, op_arg_limits->0@, nodes@, __k0 - 1)); } } }
--- before 3
proof { gsum = ssum(child@); }
--- loop 3
invariant __n3 == D, __k3 <= D, child@.len() == D, sum == ssum(child@.take(__k3 as int)),
decreases __n3 - __k3,
--- head 3
proof { let i = __k3 - 1; assert(child@.take(i + 1).drop_last() =~= child@.take(i)); assert(child@.take(i + 1).last() == child@[i]); ssum_range(child@.take(i)); ssum_range(child@.take(i + 1)); }
--- after 3
proof { assert(child@.take(D as int) =~= child@); }
--- after 0
proof {
    assert(nodes@.take(__n0 as int) =~= nodes@);
    flat_parse0(nodes@);
    let t = parse0(nodes@)->0[0];
    let ts = parse0(nodes@)->0;
    assert(ts.drop_last() =~= Seq::<Term>::empty());
    assert(flatten_all(ts) == flatten_all(ts.drop_last()) + flatten(ts.last()));
    assert(flatten_all(ts) =~= flatten(t));
}
=== fn symbolic_regression/src/complexity.rs compute_complexity
--- ret r
--- spec
requires arity_le(nodes@, D as int), reduces(nodes@),
ensures r == sat(wsum(*options, nodes@)),
--- entry
proof { if plain_weights(*options) { wsum_plain(*options, nodes@); } assert(nodes.len() == nodes@.len()); }
