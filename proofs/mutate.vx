# symbolic_regression/src/mutation_functions.rs: the mutation operators
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== include options.inc
=== include operators.inc
=== include consts.inc
=== include edit.inc
=== include rng.inc
=== include leafs.inc
=== raw
pub proof fn all_push<const D: usize>(a: Seq<PNode>, n: PNode, nc: int, nf: int, o: Operators<D>)
    requires all_ok(a, nc, nf, o), node_ok(n, nc, nf, o),
    ensures all_ok(a.push(n), nc, nf, o),
{ assert forall|j: int| 0 <= j < a.len() + 1 implies node_ok(#[trigger] a.push(n)[j], nc, nf, o) by { if j < a.len() { assert(a.push(n)[j] == a[j]); } } }
=== include child.inc
=== uses nodeutils.vx subtree_sizes
=== uses nodeutils.vx subtree_range
=== uses constants.vx compress_constants
=== uses operators.vx Operators::nops
=== uses operators.vx Operators::total_ops_up_to
=== uses operators.vx Operators::sample_arity
=== uses operators.vx Operators::sample_op
=== uses randexpr.vx random_leaf
=== raw
pub open spec fn at_ops(ps: Seq<usize>, nodes: Seq<PNode>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]) < nodes.len() && nodes[ps[j] as int] is Op }
pub open spec fn at_bin(ps: Seq<usize>, nodes: Seq<PNode>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]) < nodes.len() && nodes[ps[j] as int] is Op && nodes[ps[j] as int]->arity == 2 }
pub open spec fn at_consts(ps: Seq<usize>, nodes: Seq<PNode>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]) < nodes.len() && nodes[ps[j] as int] is Const }
pub open spec fn at_vars(ps: Seq<usize>, nodes: Seq<PNode>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]) < nodes.len() && nodes[ps[j] as int] is Var }
=== fn symbolic_regression/src/mutation_functions.rs op_indices
--- ret r
--- spec
ensures at_ops(r@, nodes@), r@.len() == 0 ==> forall|i: int| 0 <= i < nodes@.len() ==> !((#[trigger] nodes@[i]) is Op),
--- loop 0
invariant __n0 == nodes@.len(), __k0 <= __n0, at_ops(__acc0@, nodes@), __acc0@.len() == 0 ==> forall|i: int| 0 <= i < __k0 ==> !((#[trigger] nodes@[i]) is Op),
decreases __n0 - __k0,
=== fn symbolic_regression/src/mutation_functions.rs const_node_indices
--- ret r
--- spec
ensures at_consts(r@, nodes@), r@.len() == 0 ==> forall|i: int| 0 <= i < nodes@.len() ==> !((#[trigger] nodes@[i]) is Const),
--- loop 0
invariant __n0 == nodes@.len(), __k0 <= __n0, at_consts(__acc0@, nodes@), __acc0@.len() == 0 ==> forall|i: int| 0 <= i < __k0 ==> !((#[trigger] nodes@[i]) is Const),
decreases __n0 - __k0,
=== fn symbolic_regression/src/mutation_functions.rs var_node_indices
--- ret r
--- spec
ensures at_vars(r@, nodes@), r@.len() == 0 ==> forall|i: int| 0 <= i < nodes@.len() ==> !((#[trigger] nodes@[i]) is Var),
--- loop 0
invariant __n0 == nodes@.len(), __k0 <= __n0, at_vars(__acc0@, nodes@), __acc0@.len() == 0 ==> forall|i: int| 0 <= i < __k0 ==> !((#[trigger] nodes@[i]) is Var),
decreases __n0 - __k0,
=== raw
/// exactly one node differs
pub open spec fn one_node(n0: Seq<PNode>, n1: Seq<PNode>, i: int) -> bool { n1.len() == n0.len() && 0 <= i < n0.len() && n1 == n0.update(i, n1[i]) }
=== fn symbolic_regression/src/mutation_functions.rs mutate_constant_in_place
--- ret r
--- opt fx
--- panics false
--- spec
requires consts_valid(old(expr).nodes@, old(expr).consts@.len() as int),
ensures
    final(expr).nodes@ == old(expr).nodes@,
    !r ==> final(expr).consts@ == old(expr).consts@,
    // one constant that the expression uses may change, nothing else
    r ==> exists|c: int| used(old(expr).nodes@, c) && 0 <= c < old(expr).consts@.len() && final(expr).consts@ == #[trigger] old(expr).consts@.update(c, final(expr).consts@[c]),
    r <==> exists|i: int| 0 <= i < old(expr).nodes@.len() && #[trigger] old(expr).nodes@[i] is Const,
--- entry
proof { T::laws(); }
--- at after expr.consts[ci]=
proof { { assert(used(old(expr).nodes@, ci as int)); assert(expr.consts@ =~= old(expr).consts@.update(ci as int, expr.consts@[ci as int])); } }
=== fn symbolic_regression/src/mutation_functions.rs mutate_operator_in_place
--- ret r
--- spec
requires ops_ok(*operators), forall|i: int| 0 <= i < old(expr).nodes@.len() && (#[trigger] old(expr).nodes@[i]) is Op ==> 1 <= old(expr).nodes@[i]->arity <= D,
ensures
    final(expr).consts == old(expr).consts,
    !r ==> final(expr).nodes@ == old(expr).nodes@,
    r ==> exists|i: int| #[trigger] one_node(old(expr).nodes@, final(expr).nodes@, i) && old(expr).nodes@[i] is Op && final(expr).nodes@[i] is Op
        && final(expr).nodes@[i]->arity == old(expr).nodes@[i]->arity && listed(*operators, final(expr).nodes@[i]->arity, final(expr).nodes@[i]->op),
    well_formed(old(expr).nodes@) ==> well_formed(final(expr).nodes@),
    forall|nc: int, nf: int| #[trigger] good(old(expr).nodes@, nc, nf, *operators) ==> good(final(expr).nodes@, nc, nf, *operators),
--- at after expr.nodes[i]=
proof {
    {
        let n0 = old(expr).nodes@; let n1 = expr.nodes@;
        assert(n1 =~= n0.update(i as int, n1[i as int]));
        assert(one_node(n0, n1, i as int));
        if parse(n0) is Some { shape_parse(n0, n1); }
        assert forall|nc: int, nf: int| #[trigger] good(n0, nc, nf, *operators) implies good(n1, nc, nf, *operators) by {
            assert forall|j: int| 0 <= j < n1.len() implies node_ok(#[trigger] n1[j], nc, nf, *operators) by { assert(node_ok(n0[j], nc, nf, *operators)); }
        }
    }
}
=== fn symbolic_regression/src/mutation_functions.rs mutate_feature_in_place
--- ret r
--- panics false
--- spec
requires n_features <= 65536,
ensures
    final(expr).consts == old(expr).consts,
    !r ==> final(expr).nodes@ == old(expr).nodes@,
    r ==> exists|i: int| #[trigger] one_node(old(expr).nodes@, final(expr).nodes@, i) && old(expr).nodes@[i] is Var && final(expr).nodes@[i] is Var
        && final(expr).nodes@[i]->feature != old(expr).nodes@[i]->feature && final(expr).nodes@[i]->feature < n_features,
    well_formed(old(expr).nodes@) ==> well_formed(final(expr).nodes@),
    forall|nc: int, o: Operators<D>| #[trigger] good(old(expr).nodes@, nc, n_features as int, o) ==> good(final(expr).nodes@, nc, n_features as int, o),
--- entry
let ghost e0 = *expr;
--- lattr 0
#[verifier::loop_isolation(false)]
--- loop 0
invariant *expr == e0, n_features <= 65536, n_features > 1, node_i < expr.nodes@.len(), expr.nodes@[node_i as int] is Var, expr.nodes@[node_i as int]->feature == old,
decreases __n0 - __k0,
--- at after expr.nodes[node_i]=
proof {
    {
        let n0 = e0.nodes@; let n1 = expr.nodes@;
        assert(n1 =~= n0.update(node_i as int, n1[node_i as int]));
        assert(one_node(n0, n1, node_i as int));
        if parse(n0) is Some { shape_parse(n0, n1); }
        assert forall|nc: int, o: Operators<D>| #[trigger] good(n0, nc, n_features as int, o) implies good(n1, nc, n_features as int, o) by {
            assert forall|j: int| 0 <= j < n1.len() implies node_ok(#[trigger] n1[j], nc, n_features as int, o) by { assert(node_ok(n0[j], nc, n_features as int, o)); }
        }
    }
}
=== raw
/// what every structural change keeps: a well-formed program over the same operators, features and constants
pub open spec fn keeps<const D: usize>(n0: Seq<PNode>, nc0: int, n1: Seq<PNode>, nc1: int) -> bool {
    well_formed(n1) && forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, nc0, nf, o) ==> all_ok(n1, nc1, nf, o)
}
pub proof fn sub_ok<const D: usize>(n: Seq<PNode>, i: int, nc: int, nf: int, o: Operators<D>)
    requires parse(n) is Some, 0 <= i < n.len(), all_ok(n, nc, nf, o),
    ensures all_ok(flatten(sub_at(n, i)), nc, nf, o),
{ sub_facts(n, i); range_ok(n, sub_lo(n, i), i + 1, nc, nf, o); }
/// the operands of the binary operator at i, exchanged
pub open spec fn swapped(n: Seq<PNode>, i: int) -> Seq<PNode> { let t = sub_at(n, i); cut(n, i, flatten(Term::Op(2, t->Op_1, seq![t->Op_2[1], t->Op_2[0]]))) }
pub proof fn flat2(a: u8, op: u16, x: Term, y: Term)
    ensures flatten(Term::Op(a, op, seq![x, y])) == (flatten(x) + flatten(y)).push(PNode::Op { arity: a, op: op }), proper(x) && proper(y) && a == 2 ==> proper(Term::Op(a, op, seq![x, y])),
{
    let e = Seq::<Term>::empty();
    flatten_all_push(e, x); flatten_all_push(e.push(x), y);
    assert(e.push(x).push(y) =~= seq![x, y]);
    assert(flatten_all(e) =~= Seq::<PNode>::empty());
    assert(flatten_all(seq![x, y]) =~= flatten(x) + flatten(y));
    if proper(x) && proper(y) { assert(proper_all(e)); proper_push(e, x); proper_push(e.push(x), y); }
}
=== fn symbolic_regression/src/mutation_functions.rs swap_operands_in_place
--- ret r
--- opt extslice
--- subst node_utils::subtree_sizes => subtree_sizes
--- subst node_utils::subtree_range => subtree_range
--- spec
requires well_formed(old(expr).nodes@), old(expr).nodes@.len() <= isize::MAX,
ensures
    final(expr).consts == old(expr).consts,
    !r ==> final(expr).nodes@ == old(expr).nodes@,
    r ==> exists|i: int| 0 <= i < old(expr).nodes@.len() && old(expr).nodes@[i] is Op && old(expr).nodes@[i]->arity == 2 && final(expr).nodes@ == #[trigger] swapped(old(expr).nodes@, i),
    r <==> exists|i: int| 0 <= i < old(expr).nodes@.len() && (#[trigger] old(expr).nodes@[i]) is Op && old(expr).nodes@[i]->arity == 2,
    keeps::<D>(old(expr).nodes@, old(expr).consts@.len() as int, final(expr).nodes@, final(expr).consts@.len() as int),
--- entry
let ghost n0 = expr.nodes@;
--- loop 0
invariant
    __n0 == expr.nodes@.len(), __k0 <= __n0, at_bin(__acc0@, expr.nodes@),
    __acc0@.len() == 0 ==> forall|i: int| 0 <= i < __k0 ==> !((#[trigger] expr.nodes@[i]) is Op && expr.nodes@[i]->arity == 2),
decreases __n0 - __k0,
--- at before let child=
proof {
    let i = root_idx as int;
    parse_vs_parse0(n0);
    cends(n0, sizes@, i);
    assert(cend(sizes@, i, 2, 0) >= 0); assert(cend(sizes@, i, 2, 1) >= 0);
}
--- at before expr.nodes.splice
let ghost mid = new_sub@;
proof {
    let i = root_idx as int;
    let t = sub_at(n0, i);
    flat2(2, t->Op_1, t->Op_2[1], t->Op_2[0]);
    proper_ix(t->Op_2, 0); proper_ix(t->Op_2, 1);
    assert(mid =~= flatten(Term::Op(2, t->Op_1, seq![t->Op_2[1], t->Op_2[0]])));
    replace_sub(n0, i, Term::Op(2, t->Op_1, seq![t->Op_2[1], t->Op_2[0]]));
    let nc = expr.consts@.len() as int;
    assert forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, nc, nf, o) implies all_ok(swapped(n0, i), nc, nf, o) by {
        sub_ok(n0, cend(sizes@, i, 2, 0), nc, nf, o); sub_ok(n0, cend(sizes@, i, 2, 1), nc, nf, o);
        ok_app(flatten(t->Op_2[1]), flatten(t->Op_2[0]), nc, nf, o);
        assert(node_ok(n0[i], nc, nf, o));
        all_push(flatten(t->Op_2[1]) + flatten(t->Op_2[0]), n0[i], nc, nf, o);
        cut_ok(n0, i, mid, nc, nc, nf, o);
    }
}
--- at after expr.nodes.splice
proof { assert(expr.nodes@ =~= swapped(n0, root_idx as int)); }
=== raw
pub proof fn take_step(ts: Seq<Term>, k: int)
    requires 0 <= k < ts.len(),
    ensures flatten_all(ts.take(k + 1)) == flatten_all(ts.take(k)) + flatten(ts[k]),
{ assert(ts.take(k + 1).drop_last() =~= ts.take(k)); }
pub proof fn proper_update(ts: Seq<Term>, k: int, t: Term)
    requires proper_all(ts), 0 <= k < ts.len(), proper(t),
    ensures proper_all(ts.update(k, t)),
{ assert forall|j: int| 0 <= j < ts.len() implies proper(#[trigger] ts.update(k, t)[j]) by { if j != k { proper_ix(ts, j); } } proper_from_ix(ts.update(k, t)); }
pub proof fn row_ok<const D: usize>(ts: Seq<Term>, nc: int, nf: int, o: Operators<D>)
    requires forall|j: int| 0 <= j < ts.len() ==> all_ok(flatten(#[trigger] ts[j]), nc, nf, o),
    ensures all_ok(flatten_all(ts), nc, nf, o),
    decreases ts.len(),
{ if ts.len() > 0 {
    assert forall|j: int| 0 <= j < ts.drop_last().len() implies all_ok(flatten(#[trigger] ts.drop_last()[j]), nc, nf, o) by { assert(ts.drop_last()[j] == ts[j]); }
    row_ok(ts.drop_last(), nc, nf, o); assert(ts.last() == ts[ts.len() - 1]); ok_app(flatten_all(ts.drop_last()), flatten(ts.last()), nc, nf, o);
} }
/// the edge from the operator at i to its child p, rotated: the child takes the place of its parent, its own child g goes down
pub open spec fn old_root(t: Term, p: int, g: int) -> Term { Term::Op(t->Op_0, t->Op_1, t->Op_2.update(p, t->Op_2[p]->Op_2[g])) }
pub open spec fn new_root(t: Term, p: int, g: int) -> Term { let v = t->Op_2[p]; Term::Op(v->Op_0, v->Op_1, v->Op_2.update(g, old_root(t, p, g))) }
pub open spec fn rotated(n: Seq<PNode>, i: int, p: int, g: int) -> Seq<PNode> { cut(n, i, flatten(new_root(sub_at(n, i), p, g))) }
pub open spec fn can_rotate(n: Seq<PNode>, i: int, p: int, g: int) -> bool {
    let t = sub_at(n, i); &&& 0 <= i < n.len() && n[i] is Op && t is Op && 0 <= p < t->Op_2.len() && t->Op_2[p] is Op && 0 <= g < t->Op_2[p]->Op_2.len()
}
=== fn symbolic_regression/src/mutation_functions.rs rotate_tree_in_place
--- ret r
--- opt extslice
--- subst node_utils::subtree_sizes => subtree_sizes
--- subst node_utils::subtree_range => subtree_range
--- spec
requires well_formed(old(expr).nodes@), old(expr).nodes@.len() <= isize::MAX,
ensures
    final(expr).consts == old(expr).consts,
    !r ==> final(expr).nodes@ == old(expr).nodes@,
    r ==> exists|i: int, p: int, g: int| can_rotate(old(expr).nodes@, i, p, g) && final(expr).nodes@ == #[trigger] rotated(old(expr).nodes@, i, p, g),
    keeps::<D>(old(expr).nodes@, old(expr).consts@.len() as int, final(expr).nodes@, final(expr).consts@.len() as int),
--- entry
let ghost n0 = expr.nodes@;
proof { parse_vs_parse0(n0); }
--- loops 5
--- loop 0
invariant
    __n0 == n0.len(), __k0 <= __n0, expr.nodes@ == n0, well_formed(n0), sizes_ok(sizes@, n0), n0.len() <= isize::MAX, at_ops(valid_roots@, n0),
decreases __n0 - __k0,
--- head 0
proof { if n0[__k0 - 1] is Op { cends(n0, sizes@, __k0 - 1); } }
--- loop 1
invariant
    __n1 == children@.len(), __k1 <= __n1, expr.nodes@ == n0, sizes_ok(sizes@, n0), a == children@.len(),
    forall|k: int| 0 <= k < a ==> (#[trigger] children@[k]).1 < n0.len(),
decreases __n1 - __k1,
--- before 1
proof { assert forall|k: int| 0 <= k < a implies (#[trigger] children@[k]).1 < n0.len() by { assert(cend(sizes@, i as int, a as int, k) < n0.len()); } }
--- at before let root_children=
proof { cends(n0, sizes@, root_idx as int); }
--- at before let pivot_positions
let ghost t = sub_at(n0, root_idx as int);
let ghost ra = root_arity as int;
proof { assert forall|k: int| 0 <= k < ra implies (#[trigger] root_children@[k]).1 < n0.len() by { assert(cend(sizes@, root_idx as int, ra, k) < n0.len()); } }
--- loop 2
invariant
    __n2 == root_children@.len(), __k2 <= __n2, expr.nodes@ == n0, forall|k: int| 0 <= k < root_children@.len() ==> (#[trigger] root_children@[k]).1 < n0.len(),
    at_pivots(__acc2@, root_children@, n0),
decreases __n2 - __k2,
--- at before let pivot_children=
proof {
    assert(cend(sizes@, root_idx as int, ra, pivot_pos as int) == pivot_root_idx);
    cends(n0, sizes@, pivot_root_idx as int);
}
--- at before let mut rotated_root
let ghost pv = sub_at(n0, pivot_root_idx as int);
let ghost p = pivot_pos as int;
let ghost g = grandchild_pos as int;
let ghost ro = old_root(t, p, g);
let ghost nr = new_root(t, p, g);
proof {
    assert(pv == t->Op_2[p]);
    assert(cend(sizes@, pivot_root_idx as int, pivot_arity as int, g) == grandchild.1);
    assert(ro->Op_2.take(0) =~= Seq::<Term>::empty());
    assert(nr->Op_2.take(0) =~= Seq::<Term>::empty());
    assert(flatten_all(Seq::<Term>::empty()) =~= Seq::<PNode>::empty());
    assert forall|k: int| 0 <= k < ra implies ({ let c = #[trigger] root_children@[k]; c.0 <= c.1 + 1 <= n0.len() && n0.subrange(c.0 as int, c.1 + 1) == flatten(t->Op_2[k]) }) by { assert(cend(sizes@, root_idx as int, ra, k) < n0.len()); }
    assert forall|k: int| 0 <= k < pivot_arity implies ({ let c = #[trigger] pivot_children@[k]; c.0 <= c.1 + 1 <= n0.len() && n0.subrange(c.0 as int, c.1 + 1) == flatten(pv->Op_2[k]) }) by { assert(cend(sizes@, pivot_root_idx as int, pivot_arity as int, k) < n0.len()); }
}
--- loop 3
invariant
    __n3 == root_children@.len(), __k3 <= __n3, expr.nodes@ == n0, n0.len() <= isize::MAX, __n3 == t->Op_2.len(), p == pivot_pos, 0 <= p < __n3, pv == t->Op_2[p], 0 <= g < pv->Op_2.len(), ro == old_root(t, p, g),
    forall|k: int| 0 <= k < root_children@.len() ==> ({ let c = #[trigger] root_children@[k]; c.0 <= c.1 + 1 <= n0.len() && n0.subrange(c.0 as int, c.1 + 1) == flatten(t->Op_2[k]) }),
    grandchild.0 <= grandchild.1 + 1 <= n0.len(), n0.subrange(grandchild.0 as int, grandchild.1 + 1) == flatten(pv->Op_2[g]),
    rotated_root@ == flatten_all(ro->Op_2.take(__k3 as int)),
decreases __n3 - __k3,
--- head 3
proof { take_step(ro->Op_2, __k3 - 1); }
--- after 3
proof { assert(ro->Op_2.take(__n3 as int) =~= ro->Op_2); }
--- before 4
proof { assert(rotated_root@ =~= flatten(ro)); }
--- loop 4
invariant
    __n4 == pivot_children@.len(), __k4 <= __n4, expr.nodes@ == n0, n0.len() <= isize::MAX, __n4 == pv->Op_2.len(), g == grandchild_pos, 0 <= g < __n4, nr == new_root(t, p, g), pv == t->Op_2[p], ro == old_root(t, p, g),
    forall|k: int| 0 <= k < pivot_children@.len() ==> ({ let c = #[trigger] pivot_children@[k]; c.0 <= c.1 + 1 <= n0.len() && n0.subrange(c.0 as int, c.1 + 1) == flatten(pv->Op_2[k]) }),
    rotated_root@ == flatten(ro),
    new_sub@ == flatten_all(nr->Op_2.take(__k4 as int)),
decreases __n4 - __k4,
--- head 4
proof { take_step(nr->Op_2, __k4 - 1); assert(rotated_root@.subrange(0, rotated_root@.len() as int) =~= rotated_root@); }
--- after 4
proof { assert(nr->Op_2.take(__n4 as int) =~= nr->Op_2); }
--- at before expr.nodes.splice
let ghost mid = new_sub@;
proof {
    let i = root_idx as int;
    assert(mid =~= flatten(nr));
    proper_ix(pv->Op_2, g);
    proper_update(t->Op_2, p, pv->Op_2[g]);
    proper_update(pv->Op_2, g, ro);
    replace_sub(n0, i, nr);
    let nc = expr.consts@.len() as int;
    assert forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, nc, nf, o) implies all_ok(rotated(n0, i, p, g), nc, nf, o) by {
        assert(node_ok(n0[i], nc, nf, o));
        assert(node_ok(n0[pivot_root_idx as int], nc, nf, o));
        assert forall|j: int| 0 <= j < ro->Op_2.len() implies all_ok(flatten(#[trigger] ro->Op_2[j]), nc, nf, o) by {
            if j == p { sub_ok(n0, grandchild.1 as int, nc, nf, o); assert(sub_at(n0, grandchild.1 as int) == pv->Op_2[g]); }
            else { sub_ok(n0, cend(sizes@, i, ra, j), nc, nf, o); }
        }
        row_ok(ro->Op_2, nc, nf, o);
        all_push(flatten_all(ro->Op_2), n0[i], nc, nf, o);
        assert forall|j: int| 0 <= j < nr->Op_2.len() implies all_ok(flatten(#[trigger] nr->Op_2[j]), nc, nf, o) by {
            if j != g { sub_ok(n0, cend(sizes@, pivot_root_idx as int, pivot_arity as int, j), nc, nf, o); }
        }
        row_ok(nr->Op_2, nc, nf, o);
        all_push(flatten_all(nr->Op_2), n0[pivot_root_idx as int], nc, nf, o);
        cut_ok(n0, i, mid, nc, nc, nf, o);
    }
}
--- at after expr.nodes.splice
proof { assert(expr.nodes@ =~= rotated(n0, root_idx as int, p, g)); assert(can_rotate(n0, root_idx as int, p, g)); }
=== raw
pub open spec fn at_pivots(ps: Seq<usize>, cs: Seq<(usize, usize)>, nodes: Seq<PNode>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]) < cs.len() && nodes[cs[ps[j] as int].1 as int] is Op }
=== raw
/// a row of operands: the tree `keep` at position `at` (none if at is -1), fresh leaves elsewhere
pub open spec fn fresh_row(row: Seq<Term>, at: int, keep: Term, nc0: int, nc: int, nf: int) -> bool {
    forall|j: int| 0 <= j < row.len() ==> (if j == at { #[trigger] row[j] == keep } else { match row[j] { Term::Var(f) => f < nf, Term::Const(c) => nc0 <= c < nc, _ => false } })
}
/// the subtree at i becomes the listed operator (a, op) applied to `row`, in which the old subtree is operand `at` (at = -1: a leaf expanded);
/// cc: the constant table before unused entries are dropped
pub open spec fn wrapped<T: Clone, const D: usize>(n0: Seq<PNode>, c0: Seq<T>, nf: int, o: Operators<D>, n1: Seq<PNode>, c1: Seq<T>, i: int, at: int, a: u8, op: u16, row: Seq<Term>, cc: Seq<T>) -> bool {
    &&& 0 <= i < n0.len() && row.len() == a && listed(o, a, op) && extends(c0, cc)
    &&& (if at == -1 { !(n0[i] is Op) } else { 0 <= at < a })
    &&& fresh_row(row, at, sub_at(n0, i), c0.len() as int, cc.len() as int, nf)
    &&& compressed(cut(n0, i, flatten(Term::Op(a, op, row))), cc, n1, c1)
}
/// as built up so far
pub open spec fn row_so_far<const D: usize>(row: Seq<Term>, nodes: Seq<PNode>, at: int, keep: Term, nc0: int, nc: int, nf: int, o: Operators<D>) -> bool {
    nodes == flatten_all(row) && proper_all(row) && all_ok(nodes, nc, nf, o) && fresh_row(row, at, keep, nc0, nc, nf)
}
pub proof fn row_add_leaf<T, const D: usize>(row: Seq<Term>, nodes: Seq<PNode>, n: PNode, c0: Seq<T>, c1: Seq<T>, at: int, keep: Term, nc0: int, nf: int, o: Operators<D>)
    requires row_so_far(row, nodes, at, keep, nc0, c0.len() as int, nf, o), fresh_leaf(n, c0, c1, nf), nc0 <= c0.len(), at != row.len(),
    ensures row_so_far(row.push(leaf_term(n)), nodes.push(n), at, keep, nc0, c1.len() as int, nf, o),
{
    ok_more(nodes, c0.len() as int, c1.len() as int, nf, o);
    row_leaf(row, n);
    all_push(nodes, n, c1.len() as int, nf, o);
    let r1 = row.push(leaf_term(n));
    assert forall|j: int| 0 <= j < r1.len() implies (if j == at { #[trigger] r1[j] == keep } else { match r1[j] { Term::Var(f) => f < nf, Term::Const(c) => nc0 <= c < c1.len(), _ => false } }) by { if j < row.len() { assert(r1[j] == row[j]); } }
}
pub proof fn row_add_keep<const D: usize>(row: Seq<Term>, nodes: Seq<PNode>, keep: Term, nc0: int, nc: int, nf: int, o: Operators<D>)
    requires row_so_far(row, nodes, row.len() as int, keep, nc0, nc, nf, o), proper(keep), all_ok(flatten(keep), nc0, nf, o), nc0 <= nc,
    ensures row_so_far(row.push(keep), nodes + flatten(keep), row.len() as int, keep, nc0, nc, nf, o),
{
    proper_push(row, keep);
    ok_more(flatten(keep), nc0, nc, nf, o);
    ok_app(nodes, flatten(keep), nc, nf, o);
    let r1 = row.push(keep);
    assert forall|j: int| 0 <= j < r1.len() implies (if j == row.len() { #[trigger] r1[j] == keep } else { match r1[j] { Term::Var(f) => f < nf, Term::Const(c) => nc0 <= c < nc, _ => false } }) by { if j < row.len() { assert(r1[j] == row[j]); } }
}
/// THEOREM: wrapping (or expanding) any subtree leaves a good program
pub proof fn wrapped_good<const D: usize>(n0: Seq<PNode>, i: int, at: int, a: u8, op: u16, row: Seq<Term>, nodes: Seq<PNode>, nc0: int, nc: int, nf: int, o: Operators<D>)
    requires good(n0, nc0, nf, o), 0 <= i < n0.len(), nc0 <= nc, row.len() == a, listed(o, a, op), row_so_far(row, nodes, at, sub_at(n0, i), nc0, nc, nf, o),
    ensures good(cut(n0, i, flatten(Term::Op(a, op, row))), nc, nf, o), flatten(Term::Op(a, op, row)) == nodes.push(PNode::Op { arity: a, op: op }),
        consts_valid(cut(n0, i, flatten(Term::Op(a, op, row))), nc),
{
    let t = Term::Op(a, op, row);
    sub_facts(n0, i);
    replace_sub(n0, i, t);
    all_push(nodes, PNode::Op { arity: a, op: op }, nc, nf, o);
    cut_ok(n0, i, flatten(t), nc0, nc, nf, o);
    good_consts(cut(n0, i, flatten(t)), nc, nf, o);
}
pub proof fn row_empty<const D: usize>(at: int, keep: Term, nc0: int, nc: int, nf: int, o: Operators<D>)
    ensures row_so_far(Seq::<Term>::empty(), Seq::<PNode>::empty(), at, keep, nc0, nc, nf, o),
{ assert(flatten_all(Seq::<Term>::empty()) =~= Seq::<PNode>::empty()); }
/// the whole program is the subtree of its last node
pub proof fn root_sub(n: Seq<PNode>)
    requires well_formed(n),
    ensures n.len() >= 1, flatten(sub_at(n, n.len() - 1)) == n, sub_lo(n, n.len() - 1) == 0, forall|mid: Seq<PNode>| #[trigger] cut(n, n.len() - 1, mid) == mid,
{
    if n.len() > 0 {
        assert(n.take(n.len() as int) =~= n);
        parse_vs_parse0(n);
        flat_parse0(n);
        let st = parse0(n)->0;
        flatten_all_push(st.drop_last(), st.last());
        assert(st =~= Seq::<Term>::empty().push(st[0]));
        flatten_all_push(Seq::empty(), st[0]);
        assert(flatten_all(Seq::<Term>::empty()) =~= Seq::<PNode>::empty());
        assert(flatten(st[0]) =~= n);
        assert forall|mid: Seq<PNode>| #[trigger] cut(n, n.len() - 1, mid) == mid by { assert(cut(n, n.len() - 1, mid) =~= mid); }
    }
}
=== fn symbolic_regression/src/mutation_functions.rs insert_random_op_in_place
--- ret r
--- opt extslice
--- subst node_utils::subtree_sizes => subtree_sizes
--- subst node_utils::subtree_range => subtree_range
--- subst dynamic_expressions::compress_constants => compress_constants
--- spec
requires ops_ok(*operators), 1 <= n_features <= 65536, good(old(expr).nodes@, old(expr).consts@.len() as int, n_features as int, *operators),
    old(expr).consts@.len() <= 65280, old(expr).nodes@.len() < usize::MAX,
ensures
    !r ==> *final(expr) == *old(expr),
    r <==> nsum(*operators, D as int) > 0,
    r ==> exists|i: int, at: int, a: u8, op: u16, row: Seq<Term>, cc: Seq<T>| at >= 0 && #[trigger] wrapped(old(expr).nodes@, old(expr).consts@, n_features as int, *operators, final(expr).nodes@, final(expr).consts@, i, at, a, op, row, cc),
    good(final(expr).nodes@, final(expr).consts@.len() as int, n_features as int, *operators),
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
let ghost mut row: Seq<Term> = Seq::empty();
proof { parse_vs_parse0(n0); }
--- at before let mut new_sub
let ghost keep = sub_at(n0, root_idx as int);
let ghost nf = n_features as int;
proof { sub_facts(n0, root_idx as int); sub_ok(n0, root_idx as int, c0.len() as int, nf, *operators); row_empty(carry_pos as int, keep, c0.len() as int, c0.len() as int, nf, *operators); }
--- loop 0
invariant
    __n0 == arity, __k0 <= __n0, arity <= 255, 1 <= n_features <= 65536, expr.nodes@ == n0, nf == n_features, c0.len() <= 65280, row.len() == __k0,
    c0.len() <= expr.consts@.len() <= c0.len() + __k0, extends(c0, expr.consts@), old_sub@ == flatten(keep), proper(keep), all_ok(flatten(keep), c0.len() as int, nf, *operators),
    row_so_far(row, new_sub@, carry_pos as int, keep, c0.len() as int, expr.consts@.len() as int, nf, *operators),
decreases __n0 - __k0,
--- head 0
let ghost rb = new_sub@;
let ghost cb = expr.consts@;
--- tail 0
proof {
    if __k0 - 1 == carry_pos { row_add_keep(row, rb, keep, c0.len() as int, cb.len() as int, nf, *operators); row = row.push(keep); assert(old_sub@.subrange(0, old_sub@.len() as int) =~= old_sub@); }
    else { let n = new_sub@.last(); assert(new_sub@ =~= rb.push(n)); row_add_leaf(row, rb, n, cb, expr.consts@, carry_pos as int, keep, c0.len() as int, nf, *operators); row = row.push(leaf_term(n));
        assert(extends(cb, expr.consts@)) by { if expr.consts@.len() > cb.len() { assert forall|i: int| 0 <= i < cb.len() implies #[trigger] expr.consts@[i] == cb[i] by { assert(expr.consts@.drop_last()[i] == cb[i]); } } } }
}
--- at before expr.nodes.splice
let ghost mid = new_sub@;
let ghost cc = expr.consts@;
let ghost nx = cut(n0, root_idx as int, mid);
proof {
    assert(listed(*operators, arity as u8, op_id));
    wrapped_good(n0, root_idx as int, carry_pos as int, arity as u8, op_id, row, flatten_all(row), c0.len() as int, cc.len() as int, nf, *operators);
    assert(mid =~= flatten(Term::Op(arity as u8, op_id, row)));
}
--- at after expr.nodes.splice
proof { assert(expr.nodes@ =~= nx); }
--- at after dynamic_expressions::compress_constants
proof {
    compress_good(nx, cc, expr.nodes@, expr.consts@, nf, *operators);
    assert(wrapped(n0, c0, nf, *operators, expr.nodes@, expr.consts@, root_idx as int, carry_pos as int, arity as u8, op_id, row, cc));
}
=== fn symbolic_regression/src/mutation_functions.rs prepend_random_op_in_place
--- ret r
--- opt extslice
--- subst dynamic_expressions::compress_constants => compress_constants
--- spec
requires ops_ok(*operators), 1 <= n_features <= 65536, good(old(expr).nodes@, old(expr).consts@.len() as int, n_features as int, *operators),
    old(expr).consts@.len() <= 65280, old(expr).nodes@.len() < usize::MAX,
ensures
    !r ==> *final(expr) == *old(expr),
    r <==> nsum(*operators, D as int) > 0,
    r ==> exists|i: int, at: int, a: u8, op: u16, row: Seq<Term>, cc: Seq<T>| at >= 0 && i == old(expr).nodes@.len() - 1 && #[trigger] wrapped(old(expr).nodes@, old(expr).consts@, n_features as int, *operators, final(expr).nodes@, final(expr).consts@, i, at, a, op, row, cc),
    good(final(expr).nodes@, final(expr).consts@.len() as int, n_features as int, *operators),
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
let ghost mut row: Seq<Term> = Seq::empty();
let ghost root_idx = expr.nodes@.len() - 1;
proof { root_sub(n0); }
--- at before let mut new_nodes
let ghost keep = sub_at(n0, root_idx as int);
let ghost nf = n_features as int;
proof { sub_facts(n0, root_idx as int); sub_ok(n0, root_idx as int, c0.len() as int, nf, *operators); row_empty(carry_pos as int, keep, c0.len() as int, c0.len() as int, nf, *operators); }
--- loop 0
invariant
    __n0 == arity, __k0 <= __n0, arity <= 255, 1 <= n_features <= 65536, expr.nodes@ == n0, nf == n_features, c0.len() <= 65280, row.len() == __k0,
    c0.len() <= expr.consts@.len() <= c0.len() + __k0, extends(c0, expr.consts@), old@ == flatten(keep), proper(keep), all_ok(flatten(keep), c0.len() as int, nf, *operators),
    row_so_far(row, new_nodes@, carry_pos as int, keep, c0.len() as int, expr.consts@.len() as int, nf, *operators),
decreases __n0 - __k0,
--- head 0
let ghost rb = new_nodes@;
let ghost cb = expr.consts@;
--- tail 0
proof {
    if __k0 - 1 == carry_pos { row_add_keep(row, rb, keep, c0.len() as int, cb.len() as int, nf, *operators); row = row.push(keep); assert(old@.subrange(0, old@.len() as int) =~= old@); }
    else { let n = new_nodes@.last(); assert(new_nodes@ =~= rb.push(n)); row_add_leaf(row, rb, n, cb, expr.consts@, carry_pos as int, keep, c0.len() as int, nf, *operators); row = row.push(leaf_term(n));
        assert(extends(cb, expr.consts@)) by { if expr.consts@.len() > cb.len() { assert forall|i: int| 0 <= i < cb.len() implies #[trigger] expr.consts@[i] == cb[i] by { assert(expr.consts@.drop_last()[i] == cb[i]); } } } }
}
--- at before expr.nodes=
let ghost mid = new_nodes@;
let ghost cc = expr.consts@;
let ghost nx = cut(n0, root_idx as int, mid);
proof {
    assert(listed(*operators, arity as u8, op_id));
    wrapped_good(n0, root_idx as int, carry_pos as int, arity as u8, op_id, row, flatten_all(row), c0.len() as int, cc.len() as int, nf, *operators);
    assert(mid =~= flatten(Term::Op(arity as u8, op_id, row)));
}
--- at after expr.nodes=
proof { assert(expr.nodes@ == nx); }
--- at after dynamic_expressions::compress_constants
proof {
    compress_good(nx, cc, expr.nodes@, expr.consts@, nf, *operators);
    assert(wrapped(n0, c0, nf, *operators, expr.nodes@, expr.consts@, root_idx as int, carry_pos as int, arity as u8, op_id, row, cc));
}
=== fn symbolic_regression/src/mutation_functions.rs append_random_op_in_place
--- ret r
--- opt extslice
--- subst dynamic_expressions::compress_constants => compress_constants
--- spec
requires ops_ok(*operators), 1 <= n_features <= 65536, good(old(expr).nodes@, old(expr).consts@.len() as int, n_features as int, *operators),
    old(expr).consts@.len() <= 65280, old(expr).nodes@.len() < usize::MAX,
ensures
    !r ==> *final(expr) == *old(expr),
    r <==> nsum(*operators, D as int) > 0,
    r ==> exists|i: int, at: int, a: u8, op: u16, row: Seq<Term>, cc: Seq<T>| at == -1 && #[trigger] wrapped(old(expr).nodes@, old(expr).consts@, n_features as int, *operators, final(expr).nodes@, final(expr).consts@, i, at, a, op, row, cc),
    good(final(expr).nodes@, final(expr).consts@.len() as int, n_features as int, *operators),
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
let ghost mut row: Seq<Term> = Seq::empty();
proof { first_is_leaf(n0); }
--- loop 0
invariant
    __n0 == expr.nodes@.len(), __k0 <= __n0, !(expr.nodes@[0] is Op), expr.nodes@.len() >= 1,
    leaves_at(__acc0@, expr.nodes@), __k0 > 0 ==> __acc0@.len() > 0,
decreases __n0 - __k0,
--- at before let mut replace_with
let ghost root_idx = leaf_idx as int;
let ghost carry_pos = -1int;
let ghost keep = sub_at(n0, root_idx as int);
let ghost nf = n_features as int;
proof { sub_facts(n0, root_idx as int); sub_ok(n0, root_idx as int, c0.len() as int, nf, *operators); row_empty(carry_pos as int, keep, c0.len() as int, c0.len() as int, nf, *operators); }
--- loop 1
invariant
    __n1 == arity, __k1 <= __n1, arity <= 255, 1 <= n_features <= 65536, expr.nodes@ == n0, nf == n_features, c0.len() <= 65280, row.len() == __k1,
    c0.len() <= expr.consts@.len() <= c0.len() + __k1, extends(c0, expr.consts@), carry_pos == -1,
    row_so_far(row, replace_with@, carry_pos as int, keep, c0.len() as int, expr.consts@.len() as int, nf, *operators),
decreases __n1 - __k1,
--- head 1
let ghost rb = replace_with@;
let ghost cb = expr.consts@;
--- tail 1
proof {
    let n = replace_with@.last(); assert(replace_with@ =~= rb.push(n)); row_add_leaf(row, rb, n, cb, expr.consts@, carry_pos as int, keep, c0.len() as int, nf, *operators); row = row.push(leaf_term(n));
    assert(extends(cb, expr.consts@)) by { if expr.consts@.len() > cb.len() { assert forall|i: int| 0 <= i < cb.len() implies #[trigger] expr.consts@[i] == cb[i] by { assert(expr.consts@.drop_last()[i] == cb[i]); } } }
}
--- at before expr.nodes.splice
let ghost mid = replace_with@;
let ghost cc = expr.consts@;
let ghost nx = cut(n0, root_idx as int, mid);
proof {
    assert(listed(*operators, arity as u8, op_id));
    wrapped_good(n0, root_idx as int, carry_pos as int, arity as u8, op_id, row, flatten_all(row), c0.len() as int, cc.len() as int, nf, *operators);
    assert(mid =~= flatten(Term::Op(arity as u8, op_id, row)));
}
--- at after expr.nodes.splice
proof { assert(expr.nodes@ =~= nx); }
--- at after dynamic_expressions::compress_constants
proof {
    compress_good(nx, cc, expr.nodes@, expr.consts@, nf, *operators);
    assert(wrapped(n0, c0, nf, *operators, expr.nodes@, expr.consts@, root_idx as int, carry_pos as int, arity as u8, op_id, row, cc));
}
=== fn symbolic_regression/src/mutation_functions.rs add_node_in_place
--- ret r
--- spec
requires ops_ok(*operators), 1 <= n_features <= 65536, good(old(expr).nodes@, old(expr).consts@.len() as int, n_features as int, *operators),
    old(expr).consts@.len() <= 65280, old(expr).nodes@.len() < usize::MAX,
ensures
    !r ==> *final(expr) == *old(expr),
    r <==> nsum(*operators, D as int) > 0,
    r ==> exists|i: int, at: int, a: u8, op: u16, row: Seq<Term>, cc: Seq<T>| (at == -1 || i == old(expr).nodes@.len() - 1) && #[trigger] wrapped(old(expr).nodes@, old(expr).consts@, n_features as int, *operators, final(expr).nodes@, final(expr).consts@, i, at, a, op, row, cc),
    good(final(expr).nodes@, final(expr).consts@.len() as int, n_features as int, *operators),
=== raw
/// the operator at i replaced by its operand k
pub open spec fn hoisted(n: Seq<PNode>, i: int, k: int) -> Seq<PNode> { cut(n, i, flatten(sub_at(n, i)->Op_2[k])) }
pub proof fn compress_keeps<T: Clone, const D: usize>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>)
    requires compressed(n0, c0, n1, c1), well_formed(n0), consts_valid(n0, c0.len() as int), order(n0, n0.len() as int).len() <= 65535,
    ensures keeps::<D>(n0, c0.len() as int, n1, c1.len() as int),
{
    compressed_means(n0, c0, n1, c1);
    assert forall|i: int| 0 <= i < n0.len() implies ((#[trigger] n0[i]) is Op <==> n1[i] is Op) && (n0[i] is Op ==> n0[i]->arity == n1[i]->arity) by { assert(n1[i] == renum(order(n0, n0.len() as int), n0[i])); }
    shape_parse(n0, n1);
    assert forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, c0.len() as int, nf, o) implies all_ok(n1, c1.len() as int, nf, o) by { compress_good(n0, c0, n1, c1, nf, o); }
}
=== fn symbolic_regression/src/mutation_functions.rs delete_random_op_in_place
--- ret r
--- subst node_utils::subtree_sizes => subtree_sizes
--- subst node_utils::subtree_range => subtree_range
--- subst dynamic_expressions::compress_constants => compress_constants
--- spec
requires well_formed(old(expr).nodes@), consts_valid(old(expr).nodes@, old(expr).consts@.len() as int), old(expr).consts@.len() <= 65535, old(expr).nodes@.len() <= isize::MAX,
ensures
    !r ==> *final(expr) == *old(expr),
    r <==> exists|i: int| 0 <= i < old(expr).nodes@.len() && (#[trigger] old(expr).nodes@[i]) is Op,
    r ==> exists|i: int, k: int| 0 <= i < old(expr).nodes@.len() && old(expr).nodes@[i] is Op && 0 <= k < old(expr).nodes@[i]->arity && compressed(#[trigger] hoisted(old(expr).nodes@, i, k), old(expr).consts@, final(expr).nodes@, final(expr).consts@),
    keeps::<D>(old(expr).nodes@, old(expr).consts@.len() as int, final(expr).nodes@, final(expr).consts@.len() as int),
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
proof { parse_vs_parse0(n0); }
--- at before let a=
proof { sub_facts(n0, root_idx as int); }
--- at before let(sub_start
proof { cends(n0, sizes@, root_idx as int); cend_cpos(n0, sizes@, root_idx as int, 0); }
--- at before let kept_nodes
let ghost k = choose|k: int| 0 <= k < a && child@[k] == keep;
proof { assert(cend(sizes@, root_idx as int, a as int, k) == keep.1); }
--- at before expr.nodes.splice
let ghost t = sub_at(n0, root_idx as int);
let ghost nx = hoisted(n0, root_idx as int, k);
proof {
    proper_ix(t->Op_2, k);
    assert(kept_nodes@ == flatten(t->Op_2[k]));
    replace_sub(n0, root_idx as int, t->Op_2[k]);
    assert forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, c0.len() as int, nf, o) implies all_ok(nx, c0.len() as int, nf, o) by {
        sub_ok(n0, keep.1 as int, c0.len() as int, nf, o);
        cut_ok(n0, root_idx as int, kept_nodes@, c0.len() as int, c0.len() as int, nf, o);
    }
    assert forall|i: int| 0 <= i < nx.len() && (#[trigger] nx[i]) is Const implies nx[i]->Const_idx < c0.len() by {
        let lo = sub_lo(n0, root_idx as int);
        let m = tsize(t->Op_2[k]);
        if i < lo { assert(nx[i] == n0[i]); } else if i < lo + m { assert(nx[i] == n0[keep.0 + (i - lo)]); } else { assert(nx[i] == n0[i - lo - m + root_idx + 1]); }
    }
}
--- at after expr.nodes.splice
proof { assert(expr.nodes@ =~= nx); }
--- at after dynamic_expressions::compress_constants
proof { compress_keeps::<T, D>(nx, c0, expr.nodes@, expr.consts@); }
