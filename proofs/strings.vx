# dynamic_expressions/src/strings.rs: the printed form of an expression
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include reduce.inc
=== include text.inc
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== raw
use core::marker::PhantomData;
=== type dynamic_expressions/src/traits.rs OpMeta
text
=== include opnames.inc
=== type dynamic_expressions/src/expression.rs Metadata
text
=== type dynamic_expressions/src/expression.rs PostfixExpr
text
=== type dynamic_expressions/src/strings.rs StringTreeOptions
text
=== raw
// ---- parentheses ----
pub open spec fn paren(b: u8) -> int { if b == 40 { 1 } else if b == 41 { -1 } else { 0 } }
pub open spec fn dep(s: Seq<u8>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { dep(s.drop_last()) + paren(s.last()) } }
/// the first and the last character are a pair of parentheses that encloses everything between them
pub open spec fn wrapped(s: Seq<u8>) -> bool {
    s.len() >= 2 && s[0] == 40 && s.last() == 41 && dep(s) == 0 && forall|k: int| 0 < k < s.len() ==> dep(#[trigger] s.take(k)) > 0
}
/// without enclosing pairs
pub open spec fn strip(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{ if wrapped(s) { strip(s.subrange(1, s.len() - 1)) } else { s } }
pub proof fn dep_step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures dep(s.take(k + 1)) == dep(s.take(k)) + paren(s[k]), -k <= dep(s.take(k)) <= k,
    decreases k,
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); if k > 0 { dep_step(s, k - 1); } else { assert(s.take(0).len() == 0); } }
/// the bytes of the literals
pub proof fn literals()
    ensures [40u8]@ == lparen(), [41u8]@ == rparen(), [32u8]@ == space(), [44u8, 32u8]@ == comma(), [120u8]@ == seq![120u8],
        [117u8, 110u8, 107u8, 110u8, 111u8, 119u8, 110u8, 95u8, 111u8, 112u8]@ == unknown_op(),
        forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s,
{
    assert([40u8]@ =~= lparen()); assert([41u8]@ =~= rparen()); assert([32u8]@ =~= space()); assert([44u8, 32u8]@ =~= comma()); assert([120u8]@ =~= seq![120u8]);
    assert([117u8, 110u8, 107u8, 110u8, 111u8, 119u8, 110u8, 95u8, 111u8, 112u8]@ =~= unknown_op());
    assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
}
// ---- the text of a tree ----
pub open spec fn lparen() -> Seq<u8> { seq![40u8] }
pub open spec fn rparen() -> Seq<u8> { seq![41u8] }
pub open spec fn space() -> Seq<u8> { seq![32u8] }
pub open spec fn spaced(s: Seq<u8>) -> Seq<u8> { space() + s + space() }
pub open spec fn comma() -> Seq<u8> { seq![44u8, 32u8] }
pub open spec fn strips(ts: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(ts.len(), |i: int| strip(ts[i])) }
pub open spec fn symbol<Ops: OperatorSet>(op: OpId, pretty: bool) -> Seq<u8> {
    if pretty { s_display::<Ops>(op) } else { match s_infix::<Ops>(op) { Some(x) => x, None => s_name::<Ops>(op) } }
}
pub open spec fn op_text<Ops: OperatorSet>(op: OpId, pretty: bool, args: Seq<Seq<u8>>) -> Seq<u8> {
    if s_infix::<Ops>(op) is Some && op.arity > 1 { lparen() + join_text(args, spaced(symbol::<Ops>(op, pretty))) + rparen() }
    else { symbol::<Ops>(op, pretty) + lparen() + join_text(strips(args), comma()) + rparen() }
}
pub open spec fn var_text(f: u16, names: Option<&[Vec<u8>]>) -> Seq<u8> {
    if names is Some && f < names->0@.len() { names->0@[f as int]@ } else { seq![120u8] + decimal(f as nat) }
}
pub open spec fn tree_text<T: VxShow, Ops: OperatorSet>(t: Term, c: Seq<T>, names: Option<&[Vec<u8>]>, pretty: bool) -> Seq<u8>
    decreases t,
{
    match t {
        Term::Var(f) => var_text(f, names),
        Term::Const(k) => c[k as int].shown(),
        Term::Op(a, op, ch) => op_text::<Ops>(OpId { arity: a, id: op }, pretty, text_all::<T, Ops>(ch, c, names, pretty)),
    }
}
pub open spec fn text_all<T: VxShow, Ops: OperatorSet>(ts: Seq<Term>, c: Seq<T>, names: Option<&[Vec<u8>]>, pretty: bool) -> Seq<Seq<u8>>
    decreases ts,
{ if ts.len() == 0 { seq![] } else { text_all::<T, Ops>(ts.drop_last(), c, names, pretty).push(tree_text::<T, Ops>(ts.last(), c, names, pretty)) } }
pub proof fn text_all_at<T: VxShow, Ops: OperatorSet>(ts: Seq<Term>, c: Seq<T>, names: Option<&[Vec<u8>]>, pretty: bool)
    ensures text_all::<T, Ops>(ts, c, names, pretty).len() == ts.len(),
        forall|i: int| 0 <= i < ts.len() ==> #[trigger] text_all::<T, Ops>(ts, c, names, pretty)[i] == tree_text::<T, Ops>(ts[i], c, names, pretty),
    decreases ts.len(),
{ if ts.len() > 0 { text_all_at::<T, Ops>(ts.drop_last(), c, names, pretty); assert forall|i: int| 0 <= i < ts.len() implies #[trigger] text_all::<T, Ops>(ts, c, names, pretty)[i] == tree_text::<T, Ops>(ts[i], c, names, pretty) by { if i < ts.len() - 1 { assert(ts.drop_last()[i] == ts[i]); } } } }
pub open spec fn views(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
/// which names a variable is shown by: those asked for, else those of the expression
pub open spec fn names_of(asked: Option<&[Vec<u8>]>, meta: &Vec<Vec<u8>>, n: Option<&[Vec<u8>]>) -> bool {
    if asked is Some { n == asked } else if meta@.len() == 0 { n is None } else { n is Some && n->0@ == meta@ }
}
pub open spec fn consts_ok(nodes: Seq<PNode>, n: int) -> bool { forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Const ==> nodes[i]->idx < n }
pub open spec fn text_fns<T: VxShow, Ops: OperatorSet, FL: Fn(&PNode) -> Vec<u8>, FB: Fn(&PNode) -> OpId, OP: Fn(OpId, &[Vec<u8>]) -> Vec<u8>>(fl: FL, fb: FB, op: OP, c: Seq<T>, names: Option<&[Vec<u8>]>, pretty: bool) -> bool {
    &&& forall|n: &PNode, r: Vec<u8>| #[trigger] call_ensures(fl, (n,), r) ==> match *n { PNode::Var { feature } => r@ == var_text(feature, names), PNode::Const { idx } => r@ == c[idx as int].shown(), _ => true }
    &&& forall|n: &PNode, r: OpId| #[trigger] call_ensures(fb, (n,), r) ==> match *n { PNode::Op { arity, op } => r == (OpId { arity, id: op }), _ => true }
    &&& forall|b: OpId, sl: &[Vec<u8>], r: Vec<u8>| #[trigger] call_ensures(op, (b, sl), r) ==> r@ == op_text::<Ops>(b, pretty, views(sl@))
}
pub proof fn red_text<T: VxShow, Ops: OperatorSet, FL: Fn(&PNode) -> Vec<u8>, FB: Fn(&PNode) -> OpId, OP: Fn(OpId, &[Vec<u8>]) -> Vec<u8>>(nodes: Seq<PNode>, fl: FL, fb: FB, op: OP, st: Seq<Vec<u8>>, c: Seq<T>, names: Option<&[Vec<u8>]>, pretty: bool)
    requires red(nodes, fl, fb, op, st), text_fns::<T, Ops, FL, FB, OP>(fl, fb, op, c, names, pretty),
    ensures parse0(nodes) is Some, parse0(nodes)->0.len() == st.len(),
        forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i])@ == tree_text::<T, Ops>(parse0(nodes)->0[i], c, names, pretty),
    decreases nodes.len(),
{
    if nodes.len() > 0 {
        match nodes.last() {
            PNode::Op { arity, op: o } => {
                let (prev, b, sl) = choose|prev: Seq<Vec<u8>>, b: OpId, sl: &[Vec<u8>]| #![trigger op_app(nodes.last(), fb, op, prev, b, sl, st)]
                    red(nodes.drop_last(), fl, fb, op, prev) && op_app(nodes.last(), fb, op, prev, b, sl, st);
                red_text::<T, Ops, FL, FB, OP>(nodes.drop_last(), fl, fb, op, prev, c, names, pretty);
                let ts = parse0(nodes.drop_last())->0;
                let ch = ts.skip(ts.len() - arity);
                assert(st.drop_last().len() == prev.len() - arity);
                text_all_at::<T, Ops>(ch, c, names, pretty);
                assert(views(sl@) =~= text_all::<T, Ops>(ch, c, names, pretty)) by {
                    assert forall|i: int| 0 <= i < sl@.len() implies #[trigger] views(sl@)[i] == text_all::<T, Ops>(ch, c, names, pretty)[i] by { assert(sl@[i] == prev[prev.len() - arity + i]); assert(ch[i] == ts[ts.len() - arity + i]); }
                }
                assert(b == (OpId { arity, id: o }));
                assert forall|i: int| 0 <= i < st.len() implies (#[trigger] st[i])@ == tree_text::<T, Ops>(parse0(nodes)->0[i], c, names, pretty) by {
                    if i < st.len() - 1 { assert(st[i] == st.drop_last()[i]); assert(prev.take(prev.len() - arity)[i] == prev[i]); }
                }
            }
            _ => {
                red_text::<T, Ops, FL, FB, OP>(nodes.drop_last(), fl, fb, op, st.drop_last(), c, names, pretty);
                assert forall|i: int| 0 <= i < st.len() implies (#[trigger] st[i])@ == tree_text::<T, Ops>(parse0(nodes)->0[i], c, names, pretty) by {
                    if i < st.len() - 1 { assert(st[i] == st.drop_last()[i]); }
                }
            }
        }
    }
}
=== uses nodeutils.vx tree_mapreduce
=== fn dynamic_expressions/src/traits.rs OperatorSet::name
--- opt text
--- subst Self:: => O::
--- subst fn name( => fn name<O: OperatorSet>(
--- ret r
--- spec
ensures r@ == s_name::<O>(op),
--- entry
proof { literals(); }
=== fn dynamic_expressions/src/traits.rs OperatorSet::display
--- opt text
--- subst Self:: => O::
--- subst fn display( => fn display<O: OperatorSet>(
--- ret r
--- spec
ensures r@ == s_display::<O>(op),
--- entry
proof { literals(); }
=== fn dynamic_expressions/src/traits.rs OperatorSet::infix
--- opt text
--- subst Self:: => O::
--- subst fn infix( => fn infix<O: OperatorSet>(
--- ret r
--- spec
ensures r is Some == s_infix::<O>(op) is Some, r is Some ==> r->0@ == s_infix::<O>(op)->0,
=== fn dynamic_expressions/src/strings.rs default_string_variable
--- ret r
--- opt text
--- spec
ensures r@ == var_text(feature, names),
--- entry
proof { literals(); }
=== fn dynamic_expressions/src/strings.rs default_string_constant
--- ret r
--- opt text
--- subst fmt::Display => VxShow
--- spec
ensures r@ == v.shown(),
=== fn dynamic_expressions/src/strings.rs strip_outer_parens
--- ret r
--- opt text
--- subst 0i32 => 0i128
--- spec
ensures r@ == strip(s@),
--- loops 2
--- attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
--- entry
let ghost s0 = s@;
--- loop 0
invariant strip(s@) == strip(s0),
decreases s@.len(),
--- loop 1
invariant_except_break
    !encloses_all, forall|j: int| 0 < j <= __k1 ==> dep(#[trigger] s@.take(j)) > 0,
    depth == dep(s@.take(__k1 as int)),
invariant __n1 == s@.len(), __k1 <= __n1, bytes@ == s@, s@.len() >= 2, s@[0] == 40, s@.last() == 41,
ensures encloses_all == wrapped(s@),
decreases __n1 - __k1,
--- head 1
proof { dep_step(s@, __k1 - 1); assert(s@.take(s@.len() as int) =~= s@); assert(s@.take(0) =~= Seq::<u8>::empty()); }
--- after 1
proof { assert(s@.take(s@.len() as int) =~= s@); }
=== fn dynamic_expressions/src/strings.rs string_tree
--- ret r
--- opt text
--- subst fmt::Display => VxShow
--- subst crate::node_utils::tree_mapreduce => tree_mapreduce
--- subst Ops::infix => infix::<Ops>
--- subst Ops::display => display::<Ops>
--- subst Ops::name => name::<Ops>
--- subst let mut __acc0 = Vec::new() => let mut __acc0: Vec<&[u8]> = Vec::new()
--- subst let mut __acc1 = Vec::new() => let mut __acc1: Vec<&[u8]> = Vec::new()
--- spec
requires consts_ok(expr.nodes@, expr.consts@.len() as int),
ensures reduces(expr.nodes@),
    exists|n: Option<&[Vec<u8>]>| #![trigger names_of(opts.variable_names, &expr.meta.variable_names, n)] names_of(opts.variable_names, &expr.meta.variable_names, n)
        && r@ == strip(tree_text::<T, Ops>(parse0(expr.nodes@)->0[0], expr.consts@, n, opts.pretty)),
--- closure 0
types &PNode -> Vec<u8>
requires !(*n is Op), *n is Const ==> n->idx < expr.consts@.len()
ensures match *n { PNode::Var { feature } => r@ == var_text(feature, names), PNode::Const { idx } => r@ == expr.consts@[idx as int].shown(), _ => true }
--- closure 1
types &PNode -> OpId
requires *n is Op
ensures match *n { PNode::Op { arity, op } => r == (OpId { arity, id: op }), _ => true }
--- closure 2
types OpId ; &[Vec<u8>] -> Vec<u8>
requires children@.len() == op.arity
ensures r@ == op_text::<Ops>(op, opts.pretty, views(children@))
--- closures
proof {
    assert(text_fns::<T, Ops, _, _, _>(__cl0, __cl1, __cl2, expr.consts@, names, opts.pretty));
}
--- closed
proof {
    red_text::<T, Ops, _, _, _>(expr.nodes@, __cl0, __cl1, __cl2, seq![__vxr], expr.consts@, names, opts.pretty);
    assert(seq![__vxr][0] == __vxr);
    assert(__vxr@ == tree_text::<T, Ops>(parse0(expr.nodes@)->0[0], expr.consts@, names, opts.pretty));
    assert(names_of(opts.variable_names, &expr.meta.variable_names, names));
}
--- loops 2
--- loop 0
invariant __n0 == children.len(), __k0 <= __n0, __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i])@ == children@[i]@,
decreases __n0 - __k0,
--- loop 1
invariant __n1 == children.len(), __k1 <= __n1, __acc1@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> (#[trigger] __acc1@[i])@ == strip(children@[i]@),
decreases __n1 - __k1,
--- after 0
proof { assert(Seq::new(__acc0@.len(), |i: int| __acc0@[i]@) =~= views(children@)); literals(); }
--- after 1
proof { assert(Seq::new(__acc1@.len(), |i: int| __acc1@[i]@) =~= strips(views(children@))); literals(); }
=== raw
/// the formatter `Display` writes to: what has been written so far
pub struct Formatter { pub out: Vec<u8> }
impl Formatter {
    pub fn write_str(&mut self, s: &[u8]) -> (r: Result<(), ()>) ensures r is Ok ==> final(self).out@ == old(self).out@ + s@ { vx_put(&mut self.out, s); Ok(()) }
}
// #[derive(Default)] on StringTreeOptions: every field its default
impl<'a> StringTreeOptions<'a> { pub fn default() -> (r: Self) ensures r.variable_names is None, !r.pretty { StringTreeOptions { variable_names: None, pretty: false } } }
=== fn dynamic_expressions/src/strings.rs PostfixExpr@Display::fmt
--- ret r
--- opt text free
--- rename display_fmt
--- subst fmt::Display => VxShow
--- subst fmt::Formatter<'_> => Formatter
--- subst fmt::Result => Result<(), ()>
--- spec
requires consts_ok(__self.nodes@, __self.consts@.len() as int),
ensures reduces(__self.nodes@),
    r is Ok ==> exists|n: Option<&[Vec<u8>]>| #![trigger names_of(None, &__self.meta.variable_names, n)] names_of(None, &__self.meta.variable_names, n)
        && final(f).out@ == old(f).out@ + strip(tree_text::<T, Ops>(parse0(__self.nodes@)->0[0], __self.consts@, n, false)),
