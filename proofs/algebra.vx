# dynamic_expressions/src/expression_algebra.rs, operators.rs: building expressions
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== raw

use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== include operators.inc
=== include consts.inc
=== include edit.inc
=== type dynamic_expressions/src/expression.rs Metadata
=== type dynamic_expressions/src/expression.rs PostfixExpr
=== raw
// #[derive(Default)] on Metadata: every field its default
impl Metadata { pub fn default() -> (r: Metadata) ensures r.variable_names@.len() == 0 { Metadata { variable_names: Vec::new() } } }
// core::mem::take on a vector
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut w: Vec<T> = Vec::new(); core::mem::swap(v, &mut w); w }
// ---- renumbering the constants of a program by adding k ----
pub open spec fn shift_node(n: PNode, k: int) -> PNode { match n { PNode::Const { idx } => PNode::Const { idx: (idx + k) as u16 }, _ => n } }
pub open spec fn shift(n: Seq<PNode>, k: int) -> Seq<PNode> { Seq::new(n.len(), |i: int| shift_node(n[i], k)) }
pub open spec fn shift_term(t: Term, k: int) -> Term
    decreases t,
{ match t { Term::Var(f) => t, Term::Const(c) => Term::Const((c + k) as u16), Term::Op(a, o, ch) => Term::Op(a, o, shift_terms(ch, k)) } }
pub open spec fn shift_terms(ts: Seq<Term>, k: int) -> Seq<Term>
    decreases ts,
{ if ts.len() == 0 { seq![] } else { shift_terms(ts.drop_last(), k).push(shift_term(ts.last(), k)) } }
pub proof fn shift_terms_at(ts: Seq<Term>, k: int)
    ensures shift_terms(ts, k).len() == ts.len(), forall|j: int| 0 <= j < ts.len() ==> #[trigger] shift_terms(ts, k)[j] == shift_term(ts[j], k),
    decreases ts.len(),
{
    if ts.len() > 0 {
        shift_terms_at(ts.drop_last(), k);
        assert forall|j: int| 0 <= j < ts.len() implies #[trigger] shift_terms(ts, k)[j] == shift_term(ts[j], k) by { if j < ts.len() - 1 { assert(ts.drop_last()[j] == ts[j]); } }
    }
}
pub proof fn shift_parse(n: Seq<PNode>, k: int)
    requires parse(n) is Some,
    ensures parse(shift(n, k)) == Some(shift_terms(parse(n)->0, k)),
    decreases n.len(),
{
    let r = shift(n, k);
    if n.len() > 0 {
        shift_parse(n.drop_last(), k);
        assert(r.drop_last() =~= shift(n.drop_last(), k));
        assert(r.last() == shift_node(n.last(), k));
        let st = parse(n.drop_last())->0;
        shift_terms_at(st, k);
        shift_terms_at(parse(n)->0, k);
        match n.last() {
            PNode::Op { arity, op } => {
                let ch = st.skip(st.len() - arity);
                shift_terms_at(ch, k);
                let ss = shift_terms(st, k);
                assert(ss.skip(ss.len() - arity) =~= shift_terms(ch, k));
                assert(parse(r)->0 =~= shift_terms(parse(n)->0, k));
            }
            _ => { assert(parse(r)->0 =~= shift_terms(parse(n)->0, k)); }
        }
    } else { assert(r =~= n); assert(shift_terms(parse(n)->0, k) =~= parse(n)->0); }
}
/// the value of a term, for any meaning of the operators
pub open spec fn val<V>(t: Term, x: spec_fn(u16) -> V, c: Seq<V>, ev: spec_fn(u8, u16, Seq<V>) -> V) -> V
    decreases t,
{ match t { Term::Var(f) => x(f), Term::Const(k) => c[k as int], Term::Op(a, o, ch) => ev(a, o, vals(ch, x, c, ev)) } }
pub open spec fn vals<V>(ts: Seq<Term>, x: spec_fn(u16) -> V, c: Seq<V>, ev: spec_fn(u8, u16, Seq<V>) -> V) -> Seq<V>
    decreases ts,
{ if ts.len() == 0 { seq![] } else { vals(ts.drop_last(), x, c, ev).push(val(ts.last(), x, c, ev)) } }
pub open spec fn tconsts(t: Term, n: int) -> bool
    decreases t,
{ match t { Term::Var(f) => true, Term::Const(k) => k < n, Term::Op(a, o, ch) => tsconsts(ch, n) } }
pub open spec fn tsconsts(ts: Seq<Term>, n: int) -> bool
    decreases ts,
{ if ts.len() == 0 { true } else { tsconsts(ts.drop_last(), n) && tconsts(ts.last(), n) } }
pub proof fn tsconsts_at(ts: Seq<Term>, n: int)
    ensures tsconsts(ts, n) <==> forall|j: int| 0 <= j < ts.len() ==> tconsts(#[trigger] ts[j], n),
    decreases ts.len(),
{
    if ts.len() > 0 {
        tsconsts_at(ts.drop_last(), n);
        let p = ts.drop_last();
        if tsconsts(ts, n) { assert forall|j: int| 0 <= j < ts.len() implies tconsts(#[trigger] ts[j], n) by { if j < p.len() { assert(p[j] == ts[j]); } } }
        if forall|j: int| 0 <= j < ts.len() ==> tconsts(#[trigger] ts[j], n) { assert forall|j: int| 0 <= j < p.len() implies tconsts(#[trigger] p[j], n) by { assert(p[j] == ts[j]); } assert(tconsts(ts[ts.len() - 1], n)); }
    }
}
pub proof fn parse_consts(n: Seq<PNode>, nc: int)
    requires parse(n) is Some, consts_valid(n, nc),
    ensures tsconsts(parse(n)->0, nc),
    decreases n.len(),
{
    if n.len() > 0 {
        let p = n.drop_last();
        assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is Const implies p[i]->Const_idx < nc by { assert(p[i] == n[i]); }
        parse_consts(p, nc);
        let st = parse(p)->0;
        let s1 = parse(n)->0;
        tsconsts_at(st, nc);
        match n.last() {
            PNode::Op { arity, op } => {
                let ch = st.skip(st.len() - arity);
                tsconsts_at(ch, nc);
                assert forall|j: int| 0 <= j < ch.len() implies tconsts(#[trigger] ch[j], nc) by { assert(ch[j] == st[st.len() - arity + j]); }
                assert(tconsts(s1.last(), nc));
                assert forall|j: int| 0 <= j < s1.len() implies tconsts(#[trigger] s1[j], nc) by { if j < s1.len() - 1 { assert(s1[j] == st[j]); } }
                tsconsts_at(s1, nc);
            }
            PNode::Const { idx } => {
                assert(n[n.len() - 1] is Const);
                assert forall|j: int| 0 <= j < s1.len() implies tconsts(#[trigger] s1[j], nc) by { if j < s1.len() - 1 { assert(s1[j] == st[j]); } }
                tsconsts_at(s1, nc);
            }
            _ => {
                assert forall|j: int| 0 <= j < s1.len() implies tconsts(#[trigger] s1[j], nc) by { if j < s1.len() - 1 { assert(s1[j] == st[j]); } }
                tsconsts_at(s1, nc);
            }
        }
    }
}
/// a renumbered term reads the same values from a table that holds the original one from entry k on
pub proof fn shift_val<V>(t: Term, k: int, x: spec_fn(u16) -> V, c: Seq<V>, cc: Seq<V>, ev: spec_fn(u8, u16, Seq<V>) -> V)
    requires tconsts(t, c.len() as int), 0 <= k, k + c.len() <= cc.len() <= 65536, cc.subrange(k, k + c.len()) == c,
    ensures val(shift_term(t, k), x, cc, ev) == val(t, x, c, ev),
    decreases t,
{
    match t {
        Term::Op(a, o, ch) => { shift_vals(ch, k, x, c, cc, ev); }
        Term::Const(i) => { assert(cc.subrange(k, k + c.len())[i as int] == cc[k + i]); }
        _ => {}
    }
}
pub proof fn shift_vals<V>(ts: Seq<Term>, k: int, x: spec_fn(u16) -> V, c: Seq<V>, cc: Seq<V>, ev: spec_fn(u8, u16, Seq<V>) -> V)
    requires tsconsts(ts, c.len() as int), 0 <= k, k + c.len() <= cc.len() <= 65536, cc.subrange(k, k + c.len()) == c,
    ensures vals(shift_terms(ts, k), x, cc, ev) == vals(ts, x, c, ev),
    decreases ts,
{
    if ts.len() > 0 {
        shift_vals(ts.drop_last(), k, x, c, cc, ev);
        shift_val(ts.last(), k, x, c, cc, ev);
        let s = shift_terms(ts, k);
        assert(s.drop_last() =~= shift_terms(ts.drop_last(), k));
    }
}
pub proof fn vals_at<V>(ts: Seq<Term>, x: spec_fn(u16) -> V, c: Seq<V>, ev: spec_fn(u8, u16, Seq<V>) -> V)
    ensures vals(ts, x, c, ev).len() == ts.len(), forall|j: int| 0 <= j < ts.len() ==> #[trigger] vals(ts, x, c, ev)[j] == val(ts[j], x, c, ev),
    decreases ts.len(),
{
    if ts.len() > 0 {
        vals_at(ts.drop_last(), x, c, ev);
        assert forall|j: int| 0 <= j < ts.len() implies #[trigger] vals(ts, x, c, ev)[j] == val(ts[j], x, c, ev) by { if j < ts.len() - 1 { assert(ts.drop_last()[j] == ts[j]); } }
    }
}
// ---- concatenating expressions ----
pub open spec fn cat_consts<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>) -> Seq<T>
    decreases a.len(),
{ if a.len() == 0 { seq![] } else { cat_consts(a.drop_last()) + a.last().consts@ } }
pub open spec fn cat_nodes<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>) -> Seq<PNode>
    decreases a.len(),
{ if a.len() == 0 { seq![] } else { cat_nodes(a.drop_last()) + shift(a.last().nodes@, cat_consts(a.drop_last()).len() as int) } }
/// the names of the first operand that has any
pub open spec fn first_names<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>) -> Seq<String>
    decreases a.len(),
{ if a.len() == 0 { seq![] } else { let p = first_names(a.drop_last()); if p.len() == 0 { a.last().meta.variable_names@ } else { p } } }
pub proof fn cat_len<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>, k: int)
    requires 0 <= k <= a.len(),
    ensures cat_consts(a.take(k)).len() <= cat_consts(a).len(), k < a.len() ==> cat_consts(a.take(k)).len() + a[k].consts@.len() <= cat_consts(a).len(),
    decreases a.len() - k,
{
    if k < a.len() { cat_len(a, k + 1); assert(a.take(k + 1).drop_last() =~= a.take(k)); } else { assert(a.take(k) =~= a); }
}
pub open spec fn is_expr<T, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>) -> bool { well_formed(e.nodes@) && consts_valid(e.nodes@, e.consts@.len() as int) }
/// the value of an expression
pub open spec fn eval<T, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T) -> T { val(tree_of(e.nodes@), x, e.consts@, ev) }
pub open spec fn evals<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T) -> Seq<T> { Seq::new(a.len(), |i: int| eval(a[i], x, ev)) }
pub open spec fn fits<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>) -> bool {
    cat_consts(a).len() <= 65536 && (a.len() > 0 ==> cat_consts(a.drop_last()).len() <= 65535) && forall|i: int| 0 <= i < a.len() ==> is_expr(#[trigger] a[i])
}
/// r is operator op applied to the operands a, in order
pub open spec fn applied<T, Ops, const D: usize>(op: u16, a: Seq<PostfixExpr<T, Ops, D>>, r: PostfixExpr<T, Ops, D>) -> bool {
    &&& r.nodes@ == cat_nodes(a).push(PNode::Op { arity: a.len() as u8, op })
    &&& r.consts@ == cat_consts(a)
    &&& r.meta.variable_names@ == first_names(a)
}
pub proof fn cat_parse<T, Ops, const D: usize>(a: Seq<PostfixExpr<T, Ops, D>>, cc: Seq<T>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T)
    requires
        forall|i: int| 0 <= i < a.len() ==> is_expr(#[trigger] a[i]), cat_consts(a).len() <= cc.len() <= 65536, cc.take(cat_consts(a).len() as int) == cat_consts(a),
    ensures
        parse(cat_nodes(a)) is Some, parse(cat_nodes(a))->0.len() == a.len(), vals(parse(cat_nodes(a))->0, x, cc, ev) == evals(a, x, ev), consts_valid(cat_nodes(a), cat_consts(a).len() as int),
    decreases a.len(),
{
    if a.len() > 0 {
        let p = a.drop_last();
        let e = a.last();
        let k = cat_consts(p).len() as int;
        assert(is_expr(a[a.len() - 1]));
        assert forall|i: int| 0 <= i < p.len() implies is_expr(#[trigger] p[i]) by { assert(p[i] == a[i]); }
        assert(cat_consts(a).take(k) =~= cat_consts(p));
        assert(cc.take(k) =~= cc.take(cat_consts(a).len() as int).take(k));
        cat_parse(p, cc, x, ev);
        shift_parse(e.nodes@, k);
        let s = shift(e.nodes@, k);
        let st = parse(cat_nodes(p))->0;
        let te = parse(e.nodes@)->0;
        shift_terms_at(te, k);
        let ts = shift_terms(te, k);
        parse_proper(s);
        parse_vs_parse0(s);
        flat_parse0(s);
        parse_append_all(cat_nodes(p), ts);
        assert(parse(cat_nodes(a)) == Some(st + ts));
        parse_consts(e.nodes@, e.consts@.len() as int);
        tsconsts_at(te, e.consts@.len() as int);
        assert(cc.subrange(k, k + e.consts@.len()) =~= cc.take(cat_consts(a).len() as int).subrange(k, k + e.consts@.len()));
        assert(cat_consts(a).subrange(k, k + e.consts@.len()) =~= e.consts@);
        assert(tconsts(te[0], e.consts@.len() as int));
        shift_val(te[0], k, x, e.consts@, cc, ev);
        let all = st + ts;
        assert(all.drop_last() =~= st);
        assert(all.last() == ts[0]);
        assert(vals(all, x, cc, ev) =~= evals(a, x, ev)) by {
            vals_at(all, x, cc, ev);
            vals_at(st, x, cc, ev);
            assert(evals(a, x, ev).drop_last() =~= evals(p, x, ev));
        }
        assert forall|i: int| 0 <= i < cat_nodes(a).len() && (#[trigger] cat_nodes(a)[i]) is Const implies cat_nodes(a)[i]->Const_idx < cat_consts(a).len() by {
            let m = cat_nodes(p).len();
            if i < m { assert(cat_nodes(a)[i] == cat_nodes(p)[i]); } else { assert(cat_nodes(a)[i] == s[i - m]); assert(e.nodes@[i - m] is Const); }
        }
    } else { assert(vals(parse(cat_nodes(a))->0, x, cc, ev) =~= evals(a, x, ev)); }
}
/// THEOREM: the expression built is well formed, its constants exist, and its value - for every meaning of the operators and every input -
/// is the operator applied to the operands' values in order.
pub proof fn applied_means<T, Ops, const D: usize>(op: u16, a: Seq<PostfixExpr<T, Ops, D>>, r: PostfixExpr<T, Ops, D>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T)
    requires applied(op, a, r), fits(a), 1 <= a.len() <= 255,
    ensures is_expr(r), eval(r, x, ev) == ev(a.len() as u8, op, evals(a, x, ev)),
{
    let c = cat_consts(a);
    assert(c.take(c.len() as int) =~= c);
    cat_parse(a, c, x, ev);
    let n = cat_nodes(a);
    let st = parse(n)->0;
    assert(r.nodes@.drop_last() =~= n);
    assert(st.skip(st.len() - a.len()) =~= st);
    assert(tree_of(r.nodes@) == Term::Op(a.len() as u8, op, st));
    assert forall|i: int| 0 <= i < r.nodes@.len() && (#[trigger] r.nodes@[i]) is Const implies r.nodes@[i]->Const_idx < r.consts@.len() by { if i < n.len() { assert(r.nodes@[i] == n[i]); } }
}
=== fn dynamic_expressions/src/expression.rs PostfixExpr::new
--- ret r
--- spec
ensures r.nodes == nodes, r.consts == consts, r.meta == meta,
=== fn dynamic_expressions/src/expression_algebra.rs __apply_postfix
--- ret r
--- panics false
--- subst core::mem::take => vx_take
--- spec
requires 1 <= A <= D, A <= 255, fits(args@),
ensures applied(op_id, args@, r), is_expr(r),
    forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(A as u8, op_id, evals(args@, x, ev)),
--- entry
let ghost a0 = args@;
proof { assert(a0.len() == A); }
--- loops 2
--- loop 0
invariant
    __n0 == A, a0.len() == A, __k0 <= A, args@.len() == A, fits(a0), 1 <= A,
    out_consts@ == cat_consts(a0.take(__k0 as int)), out_nodes@ == cat_nodes(a0.take(__k0 as int)), out_meta.variable_names@ == first_names(a0.take(__k0 as int)),
    forall|j: int| __k0 <= j < A ==> #[trigger] args@[j] == a0[j],
decreases __n0 - __k0,
--- top 0
let ghost k = __k0 as int;
proof {
    cat_len(a0, k);
    cat_len(a0.drop_last(), if k < A - 1 { k } else { A - 1 });
    assert(a0.drop_last().take(if k < A - 1 { k } else { A - 1 }) =~= a0.take(if k < A - 1 { k } else { A - 1 }));
    assert(is_expr(a0[k]));
    assert(a0.take(k + 1).drop_last() =~= a0.take(k));
}
--- loop 1
invariant
    e.nodes@.len() == __n1, __k1 <= __n1, e.consts@ == a0[k].consts@, e.nodes@.len() == a0[k].nodes@.len(), consts_valid(a0[k].nodes@, a0[k].consts@.len() as int),
    offset + a0[k].consts@.len() <= 65536,
    forall|j: int| 0 <= j < __k1 ==> #[trigger] e.nodes@[j] == shift_node(a0[k].nodes@[j], offset as int),
    forall|j: int| __k1 <= j < __n1 ==> #[trigger] e.nodes@[j] == a0[k].nodes@[j],
decreases __n1 - __k1,
--- after 1
proof { assert(e.nodes@ =~= shift(a0[k].nodes@, offset as int)); }
--- tail 0
proof { assert(a0.take(k + 1).last() == a0[k]); }
--- exit
proof {
    assert(a0.take(A as int) =~= a0);
    assert forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(__ret, x, ev) == ev(A as u8, op_id, evals(a0, x, ev)) by { applied_means(op_id, a0, __ret, x, ev); }
    applied_means(op_id, a0, __ret, |f: u16| arbitrary(), |a: u8, o: u16, s: Seq<T>| arbitrary());
}
=== raw
pub open spec fn list_one<T, Ops, const D: usize>(s: Seq<PostfixExpr<T, Ops, D>>, a: PostfixExpr<T, Ops, D>) -> bool { s.len() == 1 && s[0] == a }
pub proof fn one<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>)
    ensures
        is_expr(a) && a.consts@.len() <= 65536 ==> forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 1 && s[0] == a ==> #[trigger] fits(s),
        forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 1 && s[0] == a ==> #[trigger] evals(s, x, ev) == seq![eval(a, x, ev)],
{
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 1 && s[0] == a implies #[trigger] evals(s, x, ev) == seq![eval(a, x, ev)] by { assert(evals(s, x, ev) =~= seq![eval(a, x, ev)]); }
    if is_expr(a) && a.consts@.len() <= 65536 { assert forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 1 && s[0] == a implies #[trigger] fits(s) by {
        let p = s.drop_last(); assert(p.len() == 0); assert(cat_consts(p) =~= Seq::<T>::empty()); assert(cat_consts(s) =~= a.consts@);
    } }
}
pub open spec fn list_two<T, Ops, const D: usize>(s: Seq<PostfixExpr<T, Ops, D>>, a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>) -> bool { s.len() == 2 && s[0] == a && s[1] == b }
pub proof fn two<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>)
    ensures
        is_expr(a) && is_expr(b) && a.consts@.len() <= 65535 && a.consts@.len() + b.consts@.len() <= 65536 ==> forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 2 && s[0] == a && s[1] == b ==> #[trigger] fits(s),
        forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 2 && s[0] == a && s[1] == b ==> #[trigger] evals(s, x, ev) == seq![eval(a, x, ev), eval(b, x, ev)],
{
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 2 && s[0] == a && s[1] == b implies #[trigger] evals(s, x, ev) == seq![eval(a, x, ev), eval(b, x, ev)] by { assert(evals(s, x, ev) =~= seq![eval(a, x, ev), eval(b, x, ev)]); }
    if is_expr(a) && is_expr(b) && a.consts@.len() <= 65535 && a.consts@.len() + b.consts@.len() <= 65536 { assert forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 2 && s[0] == a && s[1] == b implies #[trigger] fits(s) by {
        let p = s.drop_last(); let q = p.drop_last(); assert(q.len() == 0); assert(cat_consts(q) =~= Seq::<T>::empty()); assert(p.last() == a); assert(cat_consts(p) =~= a.consts@); assert(cat_consts(s) =~= a.consts@ + b.consts@);
    } }
}
pub open spec fn list_three<T, Ops, const D: usize>(s: Seq<PostfixExpr<T, Ops, D>>, a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>, c: PostfixExpr<T, Ops, D>) -> bool { s.len() == 3 && s[0] == a && s[1] == b && s[2] == c }
pub proof fn three<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>, b: PostfixExpr<T, Ops, D>, c: PostfixExpr<T, Ops, D>)
    ensures
        forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 3 && s[0] == a && s[1] == b && s[2] == c && fits(seq![a, b, c]) ==> #[trigger] fits(s),
        forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 3 && s[0] == a && s[1] == b && s[2] == c ==> #[trigger] evals(s, x, ev) == seq![eval(a, x, ev), eval(b, x, ev), eval(c, x, ev)],
{
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 3 && s[0] == a && s[1] == b && s[2] == c implies #[trigger] evals(s, x, ev) == seq![eval(a, x, ev), eval(b, x, ev), eval(c, x, ev)] by { assert(evals(s, x, ev) =~= seq![eval(a, x, ev), eval(b, x, ev), eval(c, x, ev)]); }
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 3 && s[0] == a && s[1] == b && s[2] == c && fits(seq![a, b, c]) implies #[trigger] fits(s) by { assert(s =~= seq![a, b, c]); }
}
/// whatever expression stands for the constant v, combining with it is allowed and reads v
pub open spec fn is_const_expr<T, Ops, const D: usize>(e: PostfixExpr<T, Ops, D>, v: T) -> bool {
    is_expr(e) && e.consts@.len() == 1 && forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(e, x, ev) == v
}
pub proof fn scalar_right<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>, v: T)
    requires is_expr(a), a.consts@.len() <= 65535,
    ensures
        forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 2 && s[0] == a && is_const_expr(s[1], v) ==> #[trigger] fits(s),
        forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 2 && s[0] == a && is_const_expr(s[1], v) ==> #[trigger] evals(s, x, ev) == seq![eval(a, x, ev), v],
{
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 2 && s[0] == a && is_const_expr(s[1], v) implies #[trigger] fits(s) by { two::<T, Ops, D>(s[0], s[1]); }
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 2 && s[0] == a && is_const_expr(s[1], v) implies #[trigger] evals(s, x, ev) == seq![eval(a, x, ev), v] by { two::<T, Ops, D>(s[0], s[1]); }
}
pub proof fn scalar_left<T, Ops, const D: usize>(a: PostfixExpr<T, Ops, D>, v: T)
    requires is_expr(a), a.consts@.len() <= 65535,
    ensures
        forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 2 && is_const_expr(s[0], v) && s[1] == a ==> #[trigger] fits(s),
        forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 2 && is_const_expr(s[0], v) && s[1] == a ==> #[trigger] evals(s, x, ev) == seq![v, eval(a, x, ev)],
{
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>| s.len() == 2 && is_const_expr(s[0], v) && s[1] == a implies #[trigger] fits(s) by { two::<T, Ops, D>(s[0], s[1]); }
    assert forall|s: Seq<PostfixExpr<T, Ops, D>>, x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| s.len() == 2 && is_const_expr(s[0], v) && s[1] == a implies #[trigger] evals(s, x, ev) == seq![v, eval(a, x, ev)] by { two::<T, Ops, D>(s[0], s[1]); }
}
=== fn dynamic_expressions/src/expression_algebra.rs __const_expr
--- ret r
--- panics false
--- subst Default::default() => Metadata::default()
--- spec
ensures r.nodes@ == seq![PNode::Const { idx: 0 }], r.consts@ == seq![value], r.meta.variable_names@.len() == 0, is_const_expr(r, value),
--- exit
proof {
    let n = seq![PNode::Const { idx: 0 }];
    assert(__ret.nodes@ =~= n);
    assert(__ret.consts@ =~= seq![value]);
    assert(n.drop_last() =~= Seq::empty());
    assert(parse(n.drop_last()) == Some(Seq::<Term>::empty()));
    assert(parse(n) == Some(Seq::<Term>::empty().push(Term::Const(0))));
}
=== type dynamic_expressions/src/expression_algebra.rs Lit
=== fn dynamic_expressions/src/expression_algebra.rs lit
--- ret r
--- spec
ensures r.0 == v,
=== raw
// the operator sets: an identifier per operator marker (generated by opset!; that the identifier evaluates to the marker's function is property P28)
pub trait HasOp<Tag> { const ID: u16; }
pub struct Abs;
pub struct Abs2;
pub struct Acos;
pub struct Acosh;
pub struct Add;
pub struct Asin;
pub struct Asinh;
pub struct Atan;
pub struct Atan2;
pub struct Atanh;
pub struct Cbrt;
pub struct Clamp;
pub struct Cos;
pub struct Cosh;
pub struct Cot;
pub struct Csc;
pub struct Div;
pub struct Exp;
pub struct Exp2;
pub struct Expm1;
pub struct Fma;
pub struct Identity;
pub struct Inv;
pub struct Log;
pub struct Log10;
pub struct Log1p;
pub struct Log2;
pub struct Max;
pub struct Min;
pub struct Mul;
pub struct Neg;
pub struct Pow;
pub struct Sec;
pub struct Sign;
pub struct Sin;
pub struct Sinh;
pub struct Sqrt;
pub struct Sub;
pub struct Tan;
pub struct Tanh;
=== fn @dynamic_expressions PostfixExpr@Add!::add
--- inherent
--- rename add_expr
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), is_expr(rhs), self.consts@.len() <= 65535, self.consts@.len() + rhs.consts@.len() <= 65536,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Add>>::ID, seq![eval(self, x, ev), eval(rhs, x, ev)]),
--- entry
proof { two::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions PostfixExpr@Add<T>::add
--- inherent
--- rename add_scalar
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), self.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Add>>::ID, seq![eval(self, x, ev), rhs]),
--- entry
proof { scalar_right::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions Lit@Add<PostfixExpr<T,Ops,D>>::add
--- opt free
--- rename add_lit
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(rhs), rhs.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Add>>::ID, seq![__self.0, eval(rhs, x, ev)]),
--- entry
proof { scalar_left::<T, Ops, D>(rhs, __self.0); }
=== fn @dynamic_expressions PostfixExpr@Sub!::sub
--- inherent
--- rename sub_expr
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), is_expr(rhs), self.consts@.len() <= 65535, self.consts@.len() + rhs.consts@.len() <= 65536,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Sub>>::ID, seq![eval(self, x, ev), eval(rhs, x, ev)]),
--- entry
proof { two::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions PostfixExpr@Sub<T>::sub
--- inherent
--- rename sub_scalar
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), self.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Sub>>::ID, seq![eval(self, x, ev), rhs]),
--- entry
proof { scalar_right::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions Lit@Sub<PostfixExpr<T,Ops,D>>::sub
--- opt free
--- rename sub_lit
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(rhs), rhs.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Sub>>::ID, seq![__self.0, eval(rhs, x, ev)]),
--- entry
proof { scalar_left::<T, Ops, D>(rhs, __self.0); }
=== fn @dynamic_expressions PostfixExpr@Mul!::mul
--- inherent
--- rename mul_expr
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), is_expr(rhs), self.consts@.len() <= 65535, self.consts@.len() + rhs.consts@.len() <= 65536,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Mul>>::ID, seq![eval(self, x, ev), eval(rhs, x, ev)]),
--- entry
proof { two::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions PostfixExpr@Mul<T>::mul
--- inherent
--- rename mul_scalar
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), self.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Mul>>::ID, seq![eval(self, x, ev), rhs]),
--- entry
proof { scalar_right::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions Lit@Mul<PostfixExpr<T,Ops,D>>::mul
--- opt free
--- rename mul_lit
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(rhs), rhs.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Mul>>::ID, seq![__self.0, eval(rhs, x, ev)]),
--- entry
proof { scalar_left::<T, Ops, D>(rhs, __self.0); }
=== fn @dynamic_expressions PostfixExpr@Div!::div
--- inherent
--- rename div_expr
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), is_expr(rhs), self.consts@.len() <= 65535, self.consts@.len() + rhs.consts@.len() <= 65536,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Div>>::ID, seq![eval(self, x, ev), eval(rhs, x, ev)]),
--- entry
proof { two::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions PostfixExpr@Div<T>::div
--- inherent
--- rename div_scalar
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(self), self.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Div>>::ID, seq![eval(self, x, ev), rhs]),
--- entry
proof { scalar_right::<T, Ops, D>(self, rhs); }
=== fn @dynamic_expressions Lit@Div<PostfixExpr<T,Ops,D>>::div
--- opt free
--- rename div_lit
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 2 <= D, is_expr(rhs), rhs.consts@.len() <= 65535,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(2, <Ops as HasOp<Div>>::ID, seq![__self.0, eval(rhs, x, ev)]),
--- entry
proof { scalar_left::<T, Ops, D>(rhs, __self.0); }
=== fn @dynamic_expressions PostfixExpr@Neg!::neg
--- inherent
--- rename neg_expr
--- ret r
--- subst Self::Output => PostfixExpr<T, Ops, D>
--- spec
requires 1 <= D, is_expr(self), self.consts@.len() <= 65536,
ensures is_expr(r), forall|x: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, x, ev) == ev(1, <Ops as HasOp<Neg>>::ID, seq![eval(self, x, ev)]),
--- entry
proof { one::<T, Ops, D>(self); }
=== fn @dynamic_expressions operators::cos
--- rename op_cos
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Cos>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::sin
--- rename op_sin
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Sin>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::tan
--- rename op_tan
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Tan>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::asin
--- rename op_asin
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Asin>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::acos
--- rename op_acos
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Acos>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::atan
--- rename op_atan
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Atan>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::sinh
--- rename op_sinh
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Sinh>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::cosh
--- rename op_cosh
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Cosh>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::tanh
--- rename op_tanh
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Tanh>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::asinh
--- rename op_asinh
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Asinh>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::acosh
--- rename op_acosh
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Acosh>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::atanh
--- rename op_atanh
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Atanh>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::sec
--- rename op_sec
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Sec>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::csc
--- rename op_csc
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Csc>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::cot
--- rename op_cot
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Cot>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::exp
--- rename op_exp
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Exp>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::exp2
--- rename op_exp2
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Exp2>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::expm1
--- rename op_expm1
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Expm1>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::log
--- rename op_log
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Log>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::log2
--- rename op_log2
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Log2>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::log10
--- rename op_log10
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Log10>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::log1p
--- rename op_log1p
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Log1p>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::sqrt
--- rename op_sqrt
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Sqrt>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::cbrt
--- rename op_cbrt
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Cbrt>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::abs
--- rename op_abs
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Abs>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::abs2
--- rename op_abs2
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Abs2>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::inv
--- rename op_inv
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Inv>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::sign
--- rename op_sign
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Sign>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::identity
--- rename op_identity
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Identity>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::neg
--- rename op_neg
--- ret r
--- subst builtin:: =>
--- spec
requires 1 <= D, is_expr(x), x.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(1, <Ops as HasOp<Neg>>::ID, seq![eval(x, xx, ev)]),
--- entry
proof { one::<T, Ops, D>(x); }
=== fn @dynamic_expressions operators::div
--- rename op_div
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Div>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::add
--- rename op_add
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Add>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::sub
--- rename op_sub
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Sub>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::mul
--- rename op_mul
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Mul>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::pow
--- rename op_pow
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Pow>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::atan2
--- rename op_atan2
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Atan2>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::min
--- rename op_min
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Min>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::max
--- rename op_max
--- ret r
--- subst builtin:: =>
--- spec
requires 2 <= D, is_expr(x), is_expr(y), x.consts@.len() <= 65535, x.consts@.len() + y.consts@.len() <= 65536,
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(2, <Ops as HasOp<Max>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev)]),
--- entry
proof { two::<T, Ops, D>(x, y); }
=== fn @dynamic_expressions operators::fma
--- rename op_fma
--- ret r
--- subst builtin:: =>
--- spec
requires 3 <= D, fits(seq![x, y, z]),
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(3, <Ops as HasOp<Fma>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev), eval(z, xx, ev)]),
--- entry
proof { three::<T, Ops, D>(x, y, z); }
=== fn @dynamic_expressions operators::clamp
--- rename op_clamp
--- ret r
--- subst builtin:: =>
--- spec
requires 3 <= D, fits(seq![x, y, z]),
ensures is_expr(r), forall|xx: spec_fn(u16) -> T, ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] eval(r, xx, ev) == ev(3, <Ops as HasOp<Clamp>>::ID, seq![eval(x, xx, ev), eval(y, xx, ev), eval(z, xx, ev)]),
--- entry
proof { three::<T, Ops, D>(x, y, z); }
