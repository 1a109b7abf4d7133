# dynamic_expressions/src/simplify.rs: constant folding, and the whole of simplify_in_place
=== include comb.inc
=== uses constants.vx compress_constants
=== uses combine.vx combine_operators_in_place
=== type dynamic_expressions/src/simplify.rs Frame
derive Copy, Clone
=== raw
// ---- constant folding: the nodes written so far read as the same trees, up to folded parts ----
pub open spec fn frame_ok<O: OpSem>(st0: Seq<Term>, c0: Seq<O::T>, so: Seq<Term>, c1: Seq<O::T>, stk: Seq<Frame<O::T>>, j: int) -> bool {
    &&& same::<O>(st0[j], c0, so[j], c1)
    &&& stk[j].start == flatten_all(so.take(j)).len()
    &&& stk[j].is_const ==> always::<O>(st0[j], c0, stk[j].const_value)
}
pub open spec fn fold_st<O: OpSem>(n0: Seq<PNode>, k: int, c0: Seq<O::T>, on: Seq<PNode>, c1: Seq<O::T>, stk: Seq<Frame<O::T>>) -> bool {
    &&& parse(n0.take(k)) is Some && parse(on) is Some
    &&& ext(c0, c1) && consts_valid(on, c1.len() as int) && drawn(n0, on) && on.len() <= k
    &&& parse(n0.take(k))->0.len() == stk.len() && parse(on)->0.len() == stk.len()
    &&& forall|j: int| 0 <= j < stk.len() ==> #[trigger] frame_ok::<O>(parse(n0.take(k))->0, c0, parse(on)->0, c1, stk, j)
}
pub proof fn flat_parse(nodes: Seq<PNode>)
    requires parse(nodes) is Some,
    ensures flatten_all(parse(nodes)->0) == nodes,
{ parse_vs_parse0(nodes); flat_parse0(nodes); }
pub proof fn drawn_push(n0: Seq<PNode>, on: Seq<PNode>, m: PNode)
    requires drawn(n0, on), m is Const || n0.contains(m),
    ensures drawn(n0, on.push(m)),
{ assert forall|i: int| 0 <= i < on.len() + 1 implies (#[trigger] on.push(m)[i]) is Const || n0.contains(on.push(m)[i]) by { if i < on.len() { assert(on.push(m)[i] == on[i]); } } }
pub proof fn cv_push(on: Seq<PNode>, m: PNode, nc: int)
    requires consts_valid(on, nc), m matches PNode::Const { idx } ==> idx < nc,
    ensures consts_valid(on.push(m), nc),
{ assert forall|i: int| 0 <= i < on.len() + 1 && (#[trigger] on.push(m)[i]) is Const implies on.push(m)[i]->Const_idx < nc by { if i < on.len() { assert(on.push(m)[i] == on[i]); } } }
pub proof fn cv_more(on: Seq<PNode>, nc: int, nc1: int)
    requires consts_valid(on, nc), nc <= nc1,
    ensures consts_valid(on, nc1),
{ }
pub proof fn cv_take(on: Seq<PNode>, m: int, nc: int)
    requires consts_valid(on, nc), 0 <= m <= on.len(),
    ensures consts_valid(on.take(m), nc),
{ assert forall|i: int| 0 <= i < m && (#[trigger] on.take(m)[i]) is Const implies on.take(m)[i]->Const_idx < nc by { assert(on.take(m)[i] == on[i]); } }
/// a leaf is copied
pub proof fn fold_leaf<O: OpSem>(n0: Seq<PNode>, k: int, c0: Seq<O::T>, on: Seq<PNode>, c1: Seq<O::T>, stk: Seq<Frame<O::T>>, f: Frame<O::T>)
    requires
        fold_st::<O>(n0, k, c0, on, c1, stk), 0 <= k < n0.len(), !(n0[k] is Op), consts_valid(n0, c0.len() as int),
        f.start == on.len(), f.is_const ==> (n0[k] matches PNode::Const { idx } && f.const_value == c1[idx as int]),
    ensures fold_st::<O>(n0, k + 1, c0, on.push(n0[k]), c1, stk.push(f)),
{
    parse_step(n0, k);
    let st0 = parse(n0.take(k))->0;
    let so = parse(on)->0;
    let on1 = on.push(n0[k]);
    assert(on1.drop_last() =~= on);
    let st1 = parse(n0.take(k + 1))->0;
    let so1 = parse(on1)->0;
    drawn_push(n0, on, n0[k]);
    cv_push(on, n0[k], c1.len() as int);
    flat_parse(on);
    assert forall|j: int| 0 <= j < stk.len() + 1 implies #[trigger] frame_ok::<O>(st1, c0, so1, c1, stk.push(f), j) by {
        if j < stk.len() { assert(frame_ok::<O>(st0, c0, so, c1, stk, j)); assert(so1.take(j) =~= so.take(j)); }
        else { assert(so1.take(j) =~= so); }
    }
}
/// an operator is copied
pub proof fn fold_keep<O: OpSem>(n0: Seq<PNode>, k: int, c0: Seq<O::T>, on: Seq<PNode>, c1: Seq<O::T>, stk: Seq<Frame<O::T>>, f: Frame<O::T>)
    requires
        fold_st::<O>(n0, k, c0, on, c1, stk), 0 <= k < n0.len(), n0[k] is Op, 1 <= n0[k]->arity <= stk.len(),
        !f.is_const, f.start == stk[stk.len() - n0[k]->arity].start,
    ensures fold_st::<O>(n0, k + 1, c0, on.push(n0[k]), c1, stk.take(stk.len() - n0[k]->arity).push(f)),
{
    parse_step(n0, k);
    let st0 = parse(n0.take(k))->0;
    let so = parse(on)->0;
    let on1 = on.push(n0[k]);
    assert(on1.drop_last() =~= on);
    let st1 = parse(n0.take(k + 1))->0;
    let so1 = parse(on1)->0;
    let m = stk.len() - n0[k]->arity;
    let stk1 = stk.take(m).push(f);
    drawn_push(n0, on, n0[k]);
    cv_push(on, n0[k], c1.len() as int);
    assert forall|j: int| 0 <= j < stk1.len() implies #[trigger] frame_ok::<O>(st1, c0, so1, c1, stk1, j) by {
        assert(frame_ok::<O>(st0, c0, so, c1, stk, j));
        assert(so1.take(j) =~= so.take(j));
        if j == m {
            assert forall|i: int| 0 <= i < st0.skip(m).len() implies same::<O>(#[trigger] st0.skip(m)[i], c0, so.skip(m)[i], c1) by { assert(frame_ok::<O>(st0, c0, so, c1, stk, m + i)); }
            same_op::<O>(n0[k]->arity, n0[k]->op, st0.skip(m), c0, so.skip(m), c1);
        }
    }
}
/// the operands on the stack from position m on are constants with these values
pub open spec fn const_args<T>(stk: Seq<Frame<T>>, m: int, vals: Seq<T>) -> bool {
    forall|j: int| 0 <= j < vals.len() ==> (#[trigger] vals[j]) == stk[m + j].const_value && stk[m + j].is_const
}
pub proof fn const_args_from<T>(stk: Seq<Frame<T>>, m: int, ch: Seq<Frame<T>>, all: Seq<T>, vals: Seq<T>)
    requires
        0 <= m <= stk.len(), ch == stk.subrange(m, stk.len() as int), ch.len() <= all.len(), vals == all.subrange(0, ch.len() as int),
        forall|j: int| 0 <= j < ch.len() ==> (#[trigger] ch[j]).is_const,
        forall|j: int| 0 <= j < ch.len() ==> #[trigger] all[j] == ch[j].const_value,
    ensures const_args(stk, m, vals),
{
    assert forall|j: int| 0 <= j < vals.len() implies (#[trigger] vals[j]) == stk[m + j].const_value && stk[m + j].is_const by {
        assert(ch[j] == stk[m + j]);
        assert(vals[j] == all[j]);
        assert(ch[j].is_const);
    }
}
/// an operator whose operands are all constant is replaced by its value
pub proof fn fold_const<O: OpSem>(n0: Seq<PNode>, k: int, c0: Seq<O::T>, on: Seq<PNode>, c1: Seq<O::T>, stk: Seq<Frame<O::T>>, f: Frame<O::T>, v: O::T, vals: Seq<O::T>)
    requires
        fold_st::<O>(n0, k, c0, on, c1, stk), 0 <= k < n0.len(), n0[k] is Op, 1 <= n0[k]->arity <= stk.len(), c1.len() <= 65535,
        f.is_const, f.const_value == v, f.start == stk[stk.len() - n0[k]->arity].start,
        vals.len() == n0[k]->arity, v == O::ev(OpId { arity: n0[k]->arity, id: n0[k]->op }, vals),
        const_args(stk, stk.len() - n0[k]->arity, vals),
    ensures f.start <= on.len(),
        fold_st::<O>(n0, k + 1, c0, on.take(f.start as int).push(PNode::Const { idx: c1.len() as u16 }), c1.push(v), stk.take(stk.len() - n0[k]->arity).push(f)),
{
    parse_step(n0, k);
    let st0 = parse(n0.take(k))->0;
    let so = parse(on)->0;
    let m = stk.len() - n0[k]->arity;
    let c2 = c1.push(v);
    flat_parse(on);
    flatten_all_app(so.take(m), so.skip(m));
    assert(so.take(m) + so.skip(m) =~= so);
    assert(frame_ok::<O>(st0, c0, so, c1, stk, m));
    let pre = flatten_all(so.take(m));
    assert(on.take(f.start as int) =~= pre);
    parse_proper(on);
    proper_sub(so, 0, m);
    assert(so.subrange(0, m) =~= so.take(m));
    parse_append_all(seq![], so.take(m));
    assert(seq![] + pre =~= pre);
    assert(seq![] + so.take(m) =~= so.take(m));
    assert(parse(pre) == Some(so.take(m)));
    let leaf = PNode::Const { idx: c1.len() as u16 };
    let on1 = pre.push(leaf);
    assert(on1.drop_last() =~= pre);
    let st1 = parse(n0.take(k + 1))->0;
    let so1 = parse(on1)->0;
    let stk1 = stk.take(m).push(f);
    assert(so1 == so.take(m).push(Term::Const(c1.len() as u16)));
    // sizes
    assert(flatten_all(so.skip(m)).len() >= 1) by {
        assert(so.skip(m).len() >= 1);
        let l = so.skip(m).last();
        assert(flatten(l).len() >= 1) by { match l { Term::Op(a, o, c) => {} _ => {} } }
    }
    cv_take(on, f.start as int, c1.len() as int);
    cv_more(pre, c1.len() as int, c2.len() as int);
    cv_push(pre, leaf, c2.len() as int);
    assert(drawn(n0, pre)) by { assert forall|i: int| 0 <= i < pre.len() implies (#[trigger] pre[i]) is Const || n0.contains(pre[i]) by { assert(pre[i] == on[i]); } }
    drawn_push(n0, pre, leaf);
    cv_all(so, c1.len() as int);
    assert forall|j: int| 0 <= j < stk1.len() implies #[trigger] frame_ok::<O>(st1, c0, so1, c2, stk1, j) by {
        assert(frame_ok::<O>(st0, c0, so, c1, stk, j));
        assert(so1.take(j) =~= so.take(j));
        if j < m {
            assert(tc(so[j], c1.len() as int));
            den_ext::<O>(so[j], c1, c2);
            same_trans::<O>(st0[j], c0, so[j], c1, so[j], c2);
        } else {
            let ch = st0.skip(m);
            let t = Term::Op(n0[k]->arity, n0[k]->op, ch);
            assert forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(t, x, n, c0, row) == v by {
                den_all_at::<O>(ch, x, n, c0, row);
                assert forall|i: int| 0 <= i < ch.len() implies #[trigger] den_all::<O>(ch, x, n, c0, row)[i] == vals[i] by {
                    assert(frame_ok::<O>(st0, c0, so, c1, stk, m + i));
                    assert(ch[i] == st0[m + i]);
                    assert(vals[i] == stk[m + i].const_value);
                }
                assert(den_all::<O>(ch, x, n, c0, row) =~= vals);
            }
        }
    }
}
=== fn dynamic_expressions/src/simplify.rs simplify_tree_in_place::push_nonconst_frame
--- spec
ensures final(stack)@ == old(stack)@.push(Frame { start, is_const: false, const_value: T::s_zero() }),
=== fn dynamic_expressions/src/simplify.rs simplify_tree_in_place::push_const_frame
--- spec
ensures final(stack)@ == old(stack)@.push(Frame { start, is_const: true, const_value: v }),
=== fn dynamic_expressions/src/simplify.rs simplify_tree_in_place
--- ret r
--- opt boolops
--- attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]

--- spec
requires well_formed(old(expr).nodes@), consts_valid(old(expr).nodes@, old(expr).consts@.len() as int), ops_in::<Ops>(old(expr).nodes@, D as int),
ensures
    simplified::<Ops>(old(expr).nodes@, old(expr).consts@, final(expr).nodes@, final(expr).consts@, true),
    ext(old(expr).consts@, final(expr).consts@),
    !r ==> final(expr).nodes@ == old(expr).nodes@ && final(expr).consts@ == old(expr).consts@,
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
proof { T::ops_total(); T::clones(); assert(n0.take(0) =~= Seq::empty()); }
--- loops 5
--- loop 0
invariant
    __n0 == n0.len(), __k0 <= __n0, expr.nodes@ == n0, expr.consts@ == c0,
    fold_st::<Ops>(n0, __k0 as int, c0, out_nodes@, out_consts@, stack@),
decreases __n0 - __k0,
--- top 0
let ghost k = __k0 as int;
let ghost on = out_nodes@;
let ghost c1 = out_consts@;
let ghost stk = stack@;
proof { parse_prefix(n0, k + 1); parse_step(n0, k); flat_parse(on); }
--- loop 1
invariant_except_break __acc1, forall|j: int| 0 <= j < __k1 ==> (#[trigger] children@[j]).is_const,
invariant __n1 == children@.len(), __k1 <= __n1,
ensures __acc1 ==> forall|j: int| 0 <= j < __n1 ==> (#[trigger] children@[j]).is_const,
decreases __n1 - __k1,
--- loop 2
invariant __n2 == children@.len(), __k2 <= __n2, __n2 == a, forall|j: int| 0 <= j < __k2 ==> #[trigger] vals@[j] == children@[j].const_value,
decreases __n2 - __k2,
--- loop 3
invariant __n3 == a, __k3 <= __n3,
decreases __n3 - __k3,
--- loop 4
invariant __n4 == a, __k4 <= __n4, forall|j: int| 0 <= j < __k4 ==> #[trigger] args@[j] == SrcRef::Const(vals@[j]),
decreases __n4 - __k4,
--- at after #0 push_nonconst_frame
proof { fold_leaf::<Ops>(n0, k, c0, on, c1, stk, stack@.last()); }
--- at after #0 push_const_frame
proof { fold_leaf::<Ops>(n0, k, c0, on, c1, stk, stack@.last()); }
--- at after #2 push_nonconst_frame
proof { fold_keep::<Ops>(n0, k, c0, on, c1, stk, stack@.last()); }
--- at after #3 push_nonconst_frame
proof { fold_keep::<Ops>(n0, k, c0, on, c1, stk, stack@.last()); }
--- at after #4 push_nonconst_frame
proof { fold_keep::<Ops>(n0, k, c0, on, c1, stk, stack@.last()); }
--- at after #5 push_nonconst_frame
proof { fold_keep::<Ops>(n0, k, c0, on, c1, stk, stack@.last()); }
--- at after #1 push_const_frame
proof {
    let vs = vals@.subrange(0, a as int);
    assert(row_of(args@.subrange(0, a as int), 0) =~= vs);
    let m = stk.len() - a;
    assert(children@ == stk.subrange(m, stk.len() as int));
    assert(n0[k]->arity == a);
    assert(all_const);
    assert(forall|j: int| 0 <= j < children@.len() ==> (#[trigger] children@[j]).is_const);
    const_args_from(stk, m, children@, vals@, vs);
    assert(const_args(stk, stk.len() - n0[k]->arity, vs));
    fold_const::<Ops>(n0, k, c0, on, c1, stk, stack@.last(), out@[0], vs);
}
--- exit
proof {
    let n = n0.len() as int;
    assert(n0.take(n) =~= n0);
    let so = parse(out_nodes@)->0;
    assert(frame_ok::<Ops>(parse(n0)->0, c0, parse(out_nodes@)->0, out_consts@, stack@, 0)) by { assert(frame_ok::<Ops>(parse(n0.take(n))->0, c0, so, out_consts@, stack@, 0)); }
}
=== raw
pub proof fn drawn_trans(a: Seq<PNode>, b: Seq<PNode>, c: Seq<PNode>)
    requires drawn(a, b), drawn(b, c),
    ensures drawn(a, c),
{
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]) is Const || a.contains(c[i]) by {
        if !(c[i] is Const) { let j = choose|j: int| 0 <= j < b.len() && b[j] == c[i]; assert(b[j] == c[i]); }
    }
}
/// no new operators or features, so the arities and the set's operators are still the old ones
pub proof fn drawn_ops<O: OpSem>(a: Seq<PNode>, b: Seq<PNode>, d: int)
    requires drawn(a, b), ops_in::<O>(a, d),
    ensures ops_in::<O>(b, d), arity_le(b, d),
{
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Op implies b[i]->arity <= d && O::has(OpId { arity: b[i]->arity, id: b[i]->op }) by {
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j] == b[i]);
    }
}
/// combining keeps every row's value when the set's operators named + * - are exact
pub proof fn combined_same<O: OpSem>(n0: Seq<PNode>, c0: Seq<O::T>, n1: Seq<PNode>, c1: Seq<O::T>)
    requires combined_all::<O::T, O>(n0, c0, n1, c1), arith::<O::T, O>(ev_of::<O>()),
    ensures same::<O>(tree_of(n0), c0, tree_of(n1), c1),
{
    assert forall|x: Seq<O::T>, n: int, row: int| #[trigger] den::<O>(tree_of(n1), x, n, c1, row) == den::<O>(tree_of(n0), x, n, c0, row) by {
        den_vt::<O>(tree_of(n0), x, n, c0, row); den_vt::<O>(tree_of(n1), x, n, c1, row);
        assert(vt(ev_of::<O>(), tree_of(n1), env_of(x, n, row), c1) == vt(ev_of::<O>(), tree_of(n0), env_of(x, n, row), c0));
    }
}
/// node for node the same up to where equal constants sit
pub open spec fn same_node<T>(a: PNode, c0: Seq<T>, b: PNode, c1: Seq<T>) -> bool {
    match a { PNode::Const { idx } => b is Const && b->Const_idx < c1.len() && c1[b->Const_idx as int] == c0[idx as int], _ => b == a }
}
pub proof fn parse_same<O: OpSem>(n0: Seq<PNode>, c0: Seq<O::T>, n1: Seq<PNode>, c1: Seq<O::T>)
    requires n1.len() == n0.len(), forall|i: int| 0 <= i < n0.len() ==> same_node(#[trigger] n0[i], c0, n1[i], c1),
    ensures
        parse(n1) is Some == parse(n0) is Some,
        parse(n0) is Some ==> parse(n1)->0.len() == parse(n0)->0.len() && (forall|j: int| 0 <= j < parse(n0)->0.len() ==> same::<O>(#[trigger] parse(n0)->0[j], c0, parse(n1)->0[j], c1)),
    decreases n0.len(),
{
    if n0.len() > 0 {
        let p0 = n0.drop_last(); let p1 = n1.drop_last();
        assert forall|i: int| 0 <= i < p0.len() implies same_node(#[trigger] p0[i], c0, p1[i], c1) by { assert(p0[i] == n0[i]); }
        parse_same::<O>(p0, c0, p1, c1);
        assert(same_node(n0[n0.len() - 1], c0, n1[n0.len() - 1], c1));
        if parse(n0) is Some {
            let s0 = parse(p0)->0; let s1 = parse(p1)->0;
            match n0.last() {
                PNode::Op { arity, op } => {
                    let m = s0.len() - arity;
                    assert forall|j: int| 0 <= j < arity implies same::<O>(#[trigger] s0.skip(m)[j], c0, s1.skip(m)[j], c1) by { assert(same::<O>(s0[m + j], c0, s1[m + j], c1)); }
                    same_op::<O>(arity, op, s0.skip(m), c0, s1.skip(m), c1);
                    assert forall|j: int| 0 <= j < parse(n0)->0.len() implies same::<O>(#[trigger] parse(n0)->0[j], c0, parse(n1)->0[j], c1) by { if j < m { assert(same::<O>(s0[j], c0, s1[j], c1)); } }
                }
                _ => {
                    assert forall|j: int| 0 <= j < parse(n0)->0.len() implies same::<O>(#[trigger] parse(n0)->0[j], c0, parse(n1)->0[j], c1) by { if j < s0.len() { assert(same::<O>(s0[j], c0, s1[j], c1)); } }
                }
            }
        }
    }
}
/// renumbering the constants keeps every row's value
pub proof fn compressed_same<O: OpSem>(n0: Seq<PNode>, c0: Seq<O::T>, n1: Seq<PNode>, c1: Seq<O::T>)
    requires compressed(n0, c0, n1, c1), well_formed(n0), consts_valid(n0, c0.len() as int), order(n0, n0.len() as int).len() <= 65535,
    ensures well_formed(n1), consts_valid(n1, c1.len() as int), n1.len() == n0.len(), drawn(n0, n1), same::<O>(tree_of(n0), c0, tree_of(n1), c1),
{
    compressed_means(n0, c0, n1, c1);
    O::T::clones();
    assert forall|i: int| 0 <= i < n0.len() implies same_node(#[trigger] n0[i], c0, n1[i], c1) by { }
    parse_same::<O>(n0, c0, n1, c1);
    assert forall|i: int| 0 <= i < n1.len() implies (#[trigger] n1[i]) is Const || n0.contains(n1[i]) by { assert(same_node(n0[i], c0, n1[i], c1)); if !(n1[i] is Const) { assert(n0[i] == n1[i]); } }
}
=== fn dynamic_expressions/src/simplify.rs simplify_in_place
--- ret r
--- spec
requires well_formed(old(expr).nodes@), consts_valid(old(expr).nodes@, old(expr).consts@.len() as int), ops_in::<Ops>(old(expr).nodes@, D as int),
ensures
    simplified::<Ops>(old(expr).nodes@, old(expr).consts@, final(expr).nodes@, final(expr).consts@, arith::<T, Ops>(ev_of::<Ops>())),
    !r ==> final(expr).nodes@ == old(expr).nodes@ && final(expr).consts@ == old(expr).consts@,
    forall|j: int| 0 <= j < final(expr).consts@.len() ==> #[trigger] used(final(expr).nodes@, j),
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
--- at after #0 let c1
let ghost n1 = expr.nodes@;
let ghost k1 = expr.consts@;
proof { drawn_ops::<Ops>(n0, n1, D as int); }
--- at after #0 let c2
let ghost n2 = expr.nodes@;
let ghost k2 = expr.consts@;
--- at after #0 let c3
proof {
    drawn_trans(n0, n1, n2);
    compressed_same::<Ops>(n2, k2, expr.nodes@, expr.consts@);
    drawn_trans(n0, n2, expr.nodes@);
    compressed_means(n2, k2, expr.nodes@, expr.consts@);
    if !c3 {
        T::clones();
        compressed_fixed(n2, k2, expr.nodes@, expr.consts@);
        assert(expr.consts@ =~= k2);
    }
    if arith::<T, Ops>(ev_of::<Ops>()) {
        combined_same::<Ops>(n1, k1, n2, k2);
        assert(same::<Ops>(tree_of(n0), c0, tree_of(n1), k1));
        assert(same::<Ops>(tree_of(n2), k2, tree_of(expr.nodes@), expr.consts@));
        assert forall|x: Seq<T>, n: int, row: int| #[trigger] den::<Ops>(tree_of(expr.nodes@), x, n, expr.consts@, row) == den::<Ops>(tree_of(n0), x, n, c0, row) by {
            assert(den::<Ops>(tree_of(expr.nodes@), x, n, expr.consts@, row) == den::<Ops>(tree_of(n2), x, n, k2, row));
            assert(den::<Ops>(tree_of(n2), x, n, k2, row) == den::<Ops>(tree_of(n1), x, n, k1, row));
        }
    }
}
