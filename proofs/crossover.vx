# symbolic_regression/src/mutation_functions.rs: crossover
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== raw
use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== include operators.inc
=== include consts.inc
=== include edit.inc
=== include rng.inc
=== include leafs.inc
=== include postfix.inc
=== uses nodeutils.vx subtree_sizes
=== uses nodeutils.vx subtree_range
=== uses constants.vx compress_constants
=== raw
/// mid is the program part d (reading constants dc), renumbered to read (clones of) the same values from the table cc, at or after entry lo
pub open spec fn renamed<T: Clone>(d: Seq<PNode>, dc: Seq<T>, mid: Seq<PNode>, cc: Seq<T>, lo: int) -> bool {
    &&& mid.len() == d.len()
    &&& forall|k: int| 0 <= k < d.len() ==> match #[trigger] d[k] {
        PNode::Const { idx } => mid[k] is Const && lo <= mid[k]->Const_idx < cc.len() && cloned(dc[idx as int], cc[mid[k]->Const_idx as int]),
        _ => mid[k] == d[k] }
    // nodes that shared a constant still do, and no others
    &&& forall|k: int, l: int| 0 <= k < d.len() && 0 <= l < d.len() && (#[trigger] d[k]) is Const && (#[trigger] d[l]) is Const ==> (d[k] == d[l] <==> mid[k] == mid[l])
}
pub open spec fn keeps_clones<T: Clone>(c0: Seq<T>, c1: Seq<T>) -> bool { c0.len() <= c1.len() && forall|k: int| 0 <= k < c0.len() ==> cloned(c0[k], #[trigger] c1[k]) }
/// child (n1, c1) is parent (n0, c0) with its subtree at i replaced by the subtree at j of the donor (d, dc)
pub open spec fn child_of<T: Clone>(n0: Seq<PNode>, c0: Seq<T>, i: int, d: Seq<PNode>, dc: Seq<T>, j: int, n1: Seq<PNode>, c1: Seq<T>, mid: Seq<PNode>, cc: Seq<T>) -> bool {
    &&& 0 <= i < n0.len() && 0 <= j < d.len() && keeps_clones(c0, cc)
    &&& renamed(flatten(sub_at(d, j)), dc, mid, cc, c0.len() as int)
    &&& compressed(cut(n0, i, mid), cc, n1, c1)
}
/// the map of the renumbering walk, after k nodes
pub open spec fn map_ok<T: Clone>(map: Seq<Option<u16>>, dc: Seq<T>, cc: Seq<T>, lo: int) -> bool {
    &&& map.len() == dc.len()
    &&& forall|c: int| 0 <= c < map.len() && (#[trigger] map[c]) is Some ==> lo <= map[c]->0 < cc.len() && cloned(dc[c], cc[map[c]->0 as int])
    &&& forall|c: int, e: int| 0 <= c < map.len() && 0 <= e < map.len() && (#[trigger] map[c]) is Some && (#[trigger] map[e]) is Some && map[c] == map[e] ==> c == e
}
pub open spec fn somes(map: Seq<Option<u16>>) -> int
    decreases map.len(),
{ if map.len() == 0 { 0 } else { somes(map.drop_last()) + (if map.last() is Some { 1int } else { 0 }) } }
pub proof fn somes_le(map: Seq<Option<u16>>)
    ensures 0 <= somes(map) <= map.len(),
    decreases map.len(),
{ if map.len() > 0 { somes_le(map.drop_last()); } }
pub proof fn somes_set(map: Seq<Option<u16>>, c: int, v: u16)
    requires 0 <= c < map.len(), map[c] is None,
    ensures somes(map.update(c, Some(v))) == somes(map) + 1,
    decreases map.len(),
{
    let m = map.update(c, Some(v));
    if c == map.len() - 1 { assert(m.drop_last() =~= map.drop_last()); }
    else { somes_set(map.drop_last(), c, v); assert(m.drop_last() =~= map.drop_last().update(c, Some(v))); }
}
pub proof fn somes_none(map: Seq<Option<u16>>)
    requires forall|c: int| 0 <= c < map.len() ==> (#[trigger] map[c]) is None,
    ensures somes(map) == 0,
    decreases map.len(),
{ if map.len() > 0 { assert forall|c: int| 0 <= c < map.len() - 1 implies (#[trigger] map.drop_last()[c]) is None by { assert(map[c] is None); } somes_none(map.drop_last()); } }
/// THEOREM: a child is a well-formed program over the operators and features of its parents, with valid constants
pub proof fn child_good<T: Clone, const D: usize>(n0: Seq<PNode>, c0: Seq<T>, i: int, d: Seq<PNode>, dc: Seq<T>, j: int, mid: Seq<PNode>, cc: Seq<T>)
    requires well_formed(n0), well_formed(d), 0 <= i < n0.len(), 0 <= j < d.len(), keeps_clones(c0, cc), renamed(flatten(sub_at(d, j)), dc, mid, cc, c0.len() as int), consts_valid(n0, c0.len() as int),
    ensures well_formed(cut(n0, i, mid)), consts_valid(cut(n0, i, mid), cc.len() as int),
        forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, c0.len() as int, nf, o) && all_ok(d, dc.len() as int, nf, o) ==> all_ok(cut(n0, i, mid), cc.len() as int, nf, o),
{
    sub_facts(n0, i);
    sub_facts(d, j);
    let t = sub_at(d, j);
    let f = flatten(t);
    replace_sub(n0, i, t);
    let x = cut(n0, i, f);
    let y = cut(n0, i, mid);
    let lo = sub_lo(n0, i);
    assert forall|k: int| 0 <= k < x.len() implies ((#[trigger] x[k]) is Op <==> y[k] is Op) && (x[k] is Op ==> x[k]->arity == y[k]->arity) by {
        if k < lo { assert(y[k] == x[k]); } else if k < lo + f.len() { assert(x[k] == f[k - lo]); assert(y[k] == mid[k - lo]); } else { assert(y[k] == x[k]); }
    }
    shape_parse(x, y);
    assert forall|k: int| 0 <= k < y.len() && (#[trigger] y[k]) is Const implies y[k]->Const_idx < cc.len() by {
        if k < lo { assert(y[k] == n0[k]); } else if k < lo + f.len() { assert(x[k] == f[k - lo]); assert(y[k] == mid[k - lo]); } else { assert(y[k] == n0[k - lo - mid.len() + i + 1]); }
    }
    assert forall|nf: int, o: Operators<D>| #[trigger] all_ok(n0, c0.len() as int, nf, o) && all_ok(d, dc.len() as int, nf, o) implies all_ok(y, cc.len() as int, nf, o) by {
        range_ok(d, sub_lo(d, j), j + 1, dc.len() as int, nf, o);
        assert forall|k: int| 0 <= k < mid.len() implies node_ok(#[trigger] mid[k], cc.len() as int, nf, o) by { assert(node_ok(f[k], dc.len() as int, nf, o)); }
        cut_ok(n0, i, mid, c0.len() as int, cc.len() as int, nf, o);
    }
}
=== fn symbolic_regression/src/mutation_functions.rs crossover_trees::remap_subtree_consts
--- ret r
--- panics false
--- spec
requires consts_valid(donor_nodes@, donor_consts@.len() as int), old(dst_consts)@.len() + donor_consts@.len() <= 65535,
ensures
    renamed(donor_nodes@, donor_consts@, r@, final(dst_consts)@, old(dst_consts)@.len() as int),
    extends(old(dst_consts)@, final(dst_consts)@),
--- entry
let ghost c0 = dst_consts@;
let ghost lo = dst_consts@.len() as int;
--- loops 1
--- before 0
proof { somes_none(map@); }
--- loop 0
invariant
    __n0 == donor_nodes@.len(), __k0 <= __n0, consts_valid(donor_nodes@, donor_consts@.len() as int), lo + donor_consts@.len() <= 65535, lo == c0.len(),
    extends(c0, dst_consts@), map_ok(map@, donor_consts@, dst_consts@, lo), dst_consts@.len() == lo + somes(map@),
    out@.len() == __k0,
    forall|k: int| 0 <= k < __k0 ==> match #[trigger] donor_nodes@[k] {
        PNode::Const { idx } => map@[idx as int] is Some && out@[k] == (PNode::Const { idx: map@[idx as int]->0 }),
        _ => out@[k] == donor_nodes@[k] },
decreases __n0 - __k0,
--- head 0
let ghost m0 = map@;
let ghost cb = dst_consts@;
proof { somes_le(m0); }
--- at before let new_idx
proof { assert(old < donor_consts@.len()); assert(somes(m0) < m0.len() || m0[old as int] is Some) by { if m0[old as int] is None { somes_set(m0, old as int, 0); somes_le(m0.update(old as int, Some(0u16))); } } }
--- at after map[old]=
proof { somes_set(m0, old as int, v); assert(dst_consts@.drop_last() =~= cb); }
--- tail 0
proof {
    let k = __k0 - 1;
    if let PNode::Const { idx } = donor_nodes@[k] { assert(map@[idx as int] is Some); }
    assert forall|x: int| 0 <= x < __k0 implies match #[trigger] donor_nodes@[x] {
        PNode::Const { idx } => map@[idx as int] is Some && out@[x] == (PNode::Const { idx: map@[idx as int]->0 }),
        _ => out@[x] == donor_nodes@[x] } by { if x < k { if let PNode::Const { idx } = donor_nodes@[x] { assert(m0[idx as int] is Some); assert(map@[idx as int] == m0[idx as int]); } } }
}
=== fn symbolic_regression/src/mutation_functions.rs crossover_trees
--- ret r
--- opt extslice
--- subst node_utils::subtree_sizes => subtree_sizes
--- subst node_utils::subtree_range => subtree_range
--- subst dynamic_expressions::compress_constants => compress_constants
--- subst , a.meta.clone() =>
--- subst , b.meta.clone() =>
--- spec
requires
    well_formed(a.nodes@), consts_valid(a.nodes@, a.consts@.len() as int), well_formed(b.nodes@), consts_valid(b.nodes@, b.consts@.len() as int),
    a.consts@.len() + b.consts@.len() <= 65535, a.nodes@.len() <= isize::MAX, b.nodes@.len() <= isize::MAX,
ensures
    // one subtree of a and one subtree of b change places
    exists|i: int, j: int, ma: Seq<PNode>, ca: Seq<T>, mb: Seq<PNode>, cb: Seq<T>|
        #[trigger] child_of(a.nodes@, a.consts@, i, b.nodes@, b.consts@, j, r.0.nodes@, r.0.consts@, ma, ca) && #[trigger] child_of(b.nodes@, b.consts@, j, a.nodes@, a.consts@, i, r.1.nodes@, r.1.consts@, mb, cb),
    well_formed(r.0.nodes@), well_formed(r.1.nodes@), consts_valid(r.0.nodes@, r.0.consts@.len() as int), consts_valid(r.1.nodes@, r.1.consts@.len() as int),
    forall|nf: int, o: Operators<D>| #[trigger] all_ok(a.nodes@, a.consts@.len() as int, nf, o) && all_ok(b.nodes@, b.consts@.len() as int, nf, o)
        ==> all_ok(r.0.nodes@, r.0.consts@.len() as int, nf, o) && all_ok(r.1.nodes@, r.1.consts@.len() as int, nf, o),
--- entry
proof { parse_vs_parse0(a.nodes@); parse_vs_parse0(b.nodes@); }
--- at before let a_sub=
proof { sub_facts(a.nodes@, a_root as int); sub_facts(b.nodes@, b_root as int); }
--- at before let mut child_a_nodes
proof {
    assert(a_sub@ == flatten(sub_at(a.nodes@, a_root as int)));
    assert(b_sub@ == flatten(sub_at(b.nodes@, b_root as int)));
    assert forall|k: int| 0 <= k < a_sub@.len() && (#[trigger] a_sub@[k]) is Const implies a_sub@[k]->Const_idx < a.consts@.len() by { assert(a_sub@[k] == a.nodes@[a_start + k]); }
    assert forall|k: int| 0 <= k < b_sub@.len() && (#[trigger] b_sub@[k]) is Const implies b_sub@[k]->Const_idx < b.consts@.len() by { assert(b_sub@[k] == b.nodes@[b_start + k]); }
}
--- at before let mut child_a=
let ghost na = child_a_nodes@;
let ghost ca = child_a_consts@;
let ghost nb = child_b_nodes@;
let ghost cb = child_b_consts@;
let ghost ma = b_sub_remap@;
let ghost mb = a_sub_remap@;
proof {
    assert(na =~= cut(a.nodes@, a_root as int, ma));
    assert(nb =~= cut(b.nodes@, b_root as int, mb));
    child_good::<T, D>(a.nodes@, a.consts@, a_root as int, b.nodes@, b.consts@, b_root as int, ma, ca);
    child_good::<T, D>(b.nodes@, b.consts@, b_root as int, a.nodes@, a.consts@, a_root as int, mb, cb);
}
--- exit
proof {
    assert(child_of(a.nodes@, a.consts@, a_root as int, b.nodes@, b.consts@, b_root as int, __ret.0.nodes@, __ret.0.consts@, ma, ca));
    assert(child_of(b.nodes@, b.consts@, b_root as int, a.nodes@, a.consts@, a_root as int, __ret.1.nodes@, __ret.1.consts@, mb, cb));
    compressed_means(na, ca, __ret.0.nodes@, __ret.0.consts@);
    compressed_means(nb, cb, __ret.1.nodes@, __ret.1.consts@);
    compress_wf(na, ca, __ret.0.nodes@, __ret.0.consts@);
    compress_wf(nb, cb, __ret.1.nodes@, __ret.1.consts@);
    assert forall|nf: int, o: Operators<D>| #[trigger] all_ok(a.nodes@, a.consts@.len() as int, nf, o) && all_ok(b.nodes@, b.consts@.len() as int, nf, o)
        implies all_ok(__ret.0.nodes@, __ret.0.consts@.len() as int, nf, o) && all_ok(__ret.1.nodes@, __ret.1.consts@.len() as int, nf, o) by {
        assert(all_ok(na, ca.len() as int, nf, o)); assert(all_ok(b.nodes@, b.consts@.len() as int, nf, o)); assert(all_ok(nb, cb.len() as int, nf, o));
        compress_good(na, ca, __ret.0.nodes@, __ret.0.consts@, nf, o);
        compress_good(nb, cb, __ret.1.nodes@, __ret.1.consts@, nf, o);
    }
}
=== raw
pub proof fn compress_wf<T: Clone>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>)
    requires compressed(n0, c0, n1, c1), well_formed(n0),
    ensures well_formed(n1),
{
    assert forall|i: int| 0 <= i < n0.len() implies ((#[trigger] n0[i]) is Op <==> n1[i] is Op) && (n0[i] is Op ==> n0[i]->arity == n1[i]->arity) by { assert(n1[i] == renum(order(n0, n0.len() as int), n0[i])); }
    shape_parse(n0, n1);
}
