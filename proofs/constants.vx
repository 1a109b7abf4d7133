# dynamic_expressions/src/utils.rs: constant tables
=== include prelude.inc
=== include node.inc
=== type dynamic_expressions/src/expression.rs PostfixExpr
drop meta
=== raw
use std::marker::PhantomData;
=== include consts.inc
=== fn dynamic_expressions/src/utils.rs compress_constants
--- ret r
--- opt boolops
--- panics order(old(expr).nodes@, old(expr).nodes@.len() as int).len() > 65535
--- spec
requires consts_valid(old(expr).nodes@, old(expr).consts@.len() as int),
ensures
    compressed(old(expr).nodes@, old(expr).consts@, final(expr).nodes@, final(expr).consts@),
    order(old(expr).nodes@, old(expr).nodes@.len() as int).len() <= 65535,
    r <==> (final(expr).nodes@ != old(expr).nodes@ || final(expr).consts@.len() != old(expr).consts@.len()),
--- loops 1
--- loop 0
invariant
    n0 == old(expr).nodes@, __n0 == n0.len(), __k0 <= __n0, expr.nodes@.len() == n0.len(), expr.consts@ == c0, remap@.len() == c0.len(), consts_valid(n0, c0.len() as int), SENTINEL == 65535,
    new_consts@.len() == order(n0, __k0 as int).len(), new_consts@.len() <= 65535,
    forall|i: int| 0 <= i < __k0 ==> #[trigger] expr.nodes@[i] == renum(order(n0, __k0 as int), n0[i]),
    forall|i: int| __k0 <= i < n0.len() ==> #[trigger] expr.nodes@[i] == n0[i],
    forall|j: int| 0 <= j < new_consts@.len() ==> cloned(c0[order(n0, __k0 as int)[j]], #[trigger] new_consts@[j]),
    forall|c: int| 0 <= c < c0.len() ==> #[trigger] remap@[c] == (if order(n0, __k0 as int).contains(c) { pos(order(n0, __k0 as int), c) } else { 65535 }),
    changed <==> exists|i: int| 0 <= i < __k0 && #[trigger] expr.nodes@[i] != n0[i],
decreases __n0 - __k0,
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
--- top 0
let ghost m0 = remap@;
let ghost nn = expr.nodes@;
let ghost ch0 = changed;
proof {
    let k = __k0 as int;
    order_facts(n0, k, c0.len() as int);
    order_facts(n0, k + 1, c0.len() as int);
    order_mono(n0, k + 1, n0.len() as int);
    let p = order(n0, k);
    let o = order(n0, k + 1);
    assert forall|i: int| 0 <= i < n0.len() && n0[i] is Const && p.contains(n0[i]->Const_idx as int) implies pos(o, n0[i]->Const_idx as int) == pos(p, n0[i]->Const_idx as int) && pos(p, n0[i]->Const_idx as int) < p.len() by {
        let c = n0[i]->Const_idx as int;
        let j = choose|j: int| 0 <= j < p.len() && p[j] == c;
        assert(o[j] == c);
        pos_is(o, c, j); pos_is(p, c, j);
    }
    assert forall|c: int| #![trigger p.contains(c)] p.contains(c) implies pos(o, c) == pos(p, c) && 0 <= pos(p, c) < p.len() && o.contains(c) by {
        let j = choose|j: int| 0 <= j < p.len() && p[j] == c;
        assert(o[j] == c);
        pos_is(o, c, j); pos_is(p, c, j);
    }
    if let PNode::Const { idx } = n0[k] { if !p.contains(idx as int) { assert(o[p.len() as int] == idx); pos_is(o, idx as int, p.len() as int); assert(o.contains(idx as int)); } }
    assert(nn[k] == n0[k]);
    if let PNode::Const { idx } = n0[k] { assert(m0[idx as int] == (if p.contains(idx as int) { pos(p, idx as int) } else { 65535 })); if m0[idx as int] == 65535 { assert(!p.contains(idx as int)); assert(o.len() == p.len() + 1); } }
}
--- tail 0
proof {
    let k = __k0 - 1;
    assert forall|i: int| 0 <= i < k implies #[trigger] expr.nodes@[i] == nn[i] by {}
    assert(changed <==> (ch0 || expr.nodes@[k] != n0[k]));
    assert(changed <==> exists|i: int| 0 <= i < __k0 && #[trigger] expr.nodes@[i] != n0[i]) by {
        if ch0 { let i = choose|i: int| 0 <= i < k && #[trigger] nn[i] != n0[i]; assert(expr.nodes@[i] != n0[i]); }
        else { assert forall|i: int| 0 <= i < k implies #[trigger] expr.nodes@[i] == n0[i] by { assert(nn[i] == n0[i]); } }
    }
}
--- after 0
proof {
    order_facts(n0, n0.len() as int, c0.len() as int);
    if expr.nodes@ != n0 { assert(exists|i: int| 0 <= i < n0.len() && #[trigger] expr.nodes@[i] != n0[i]) by { if forall|i: int| 0 <= i < n0.len() ==> #[trigger] expr.nodes@[i] == n0[i] { assert(expr.nodes@ =~= n0); } } }
}
=== type dynamic_expressions/src/utils.rs ConstRef
=== raw
/// after the first k writes: the last of them aimed at j decides c1[j]; with none, c1[j] is c0[j]
pub open spec fn written<T: Clone>(idx: Seq<usize>, vals: Seq<T>, c0: Seq<T>, c1: Seq<T>, k: int, j: int) -> bool
    decreases k,
{
    if k <= 0 { c1[j] == c0[j] } else if idx[k - 1] == j { cloned(vals[k - 1], c1[j]) } else { written(idx, vals, c0, c1, k - 1, j) }
}
/// frame of `written`: it speaks about c1[j] only
pub proof fn written_frame<T: Clone>(idx: Seq<usize>, vals: Seq<T>, c0: Seq<T>, c1: Seq<T>, c2: Seq<T>, k: int, j: int)
    requires written(idx, vals, c0, c1, k, j), c1[j] == c2[j],
    ensures written(idx, vals, c0, c2, k, j),
    decreases k,
{ if k > 0 && idx[k - 1] != j { written_frame(idx, vals, c0, c1, c2, k - 1, j); } }
=== fn dynamic_expressions/src/utils.rs get_scalar_constants
--- ret r
--- spec
ensures r.0@.len() == expr.consts@.len(), forall|i: int| 0 <= i < expr.consts@.len() ==> cloned(expr.consts@[i], #[trigger] r.0@[i]),
    r.1.const_indices@.len() == expr.consts@.len(), forall|i: int| 0 <= i < expr.consts@.len() ==> #[trigger] r.1.const_indices@[i] == i,
--- loop 0
invariant __n0 == expr.consts@.len(), __k0 <= __n0, __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __acc0@[i] == i,
decreases __n0 - __k0,
=== fn dynamic_expressions/src/utils.rs set_scalar_constants
--- panics new_values@.len() != cref.const_indices@.len()
--- spec
requires forall|i: int| 0 <= i < cref.const_indices@.len() ==> (#[trigger] cref.const_indices@[i]) < old(expr).consts@.len(),
ensures
    new_values@.len() == cref.const_indices@.len(),
    final(expr).nodes@ == old(expr).nodes@, final(expr).consts@.len() == old(expr).consts@.len(),
    // a position named by some entry holds (a clone of) the value of the last entry naming it; every other position is untouched
    forall|j: int| 0 <= j < old(expr).consts@.len() ==> #[trigger] written(cref.const_indices@, new_values@, old(expr).consts@, final(expr).consts@, new_values@.len() as int, j),
--- loop 0
invariant
    __n0 == cref.const_indices@.len(), __n0 == new_values@.len(), __k0 <= __n0,
    forall|i: int| 0 <= i < cref.const_indices@.len() ==> (#[trigger] cref.const_indices@[i]) < expr.consts@.len(),
    expr.nodes@ == old(expr).nodes@, expr.consts@.len() == old(expr).consts@.len(),
    forall|j: int| 0 <= j < old(expr).consts@.len() ==> #[trigger] written(cref.const_indices@, new_values@, old(expr).consts@, expr.consts@, __k0 as int, j),
decreases __n0 - __k0,
--- head 0
let ghost cb = expr.consts@;
--- tail 0
proof {
    assert forall|j: int| 0 <= j < old(expr).consts@.len() implies #[trigger] written(cref.const_indices@, new_values@, old(expr).consts@, expr.consts@, __k0 as int, j) by {
        assert(written(cref.const_indices@, new_values@, old(expr).consts@, cb, __k0 - 1, j));
        if cref.const_indices@[__k0 - 1] != j { written_frame(cref.const_indices@, new_values@, old(expr).consts@, cb, expr.consts@, __k0 - 1, j); }
    }
}
