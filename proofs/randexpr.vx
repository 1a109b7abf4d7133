# symbolic_regression/src/mutation_functions.rs: random expressions
=== include prelude.inc
=== include node.inc
=== include tree.inc
=== include float_sr.inc
=== raw
use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== include operators.inc
=== include consts.inc
=== include edit.inc
=== include rng.inc
=== include leafs.inc
=== include postfix.inc
=== uses constants.vx compress_constants
=== uses operators.vx Operators::total_ops_up_to
=== uses operators.vx Operators::sample_arity
=== uses operators.vx Operators::sample_op
=== fn symbolic_regression/src/mutation_functions.rs random_leaf
--- ret r
--- opt fx
--- panics false
--- spec
requires 1 <= n_features <= 65536, old(consts)@.len() <= 65535,
ensures fresh_leaf(r, old(consts)@, final(consts)@, n_features as int),
--- exit
proof { assert(consts@.len() > old(consts)@.len() ==> consts@.drop_last() =~= old(consts)@); }
=== fn symbolic_regression/src/mutation_functions.rs random_expr
--- ret r
--- panics target_size == 0
--- subst PostfixExpr::new(nodes, consts, Default::default()) => PostfixExpr::new(nodes, consts)
--- spec
requires ops_ok(*operators), 1 <= n_features <= 65536, target_size <= 65535,
ensures
    good(r.nodes@, r.consts@.len() as int, n_features as int, *operators),
    // the size asked for, unless no listed operator fits into what is left of it
    1 <= r.nodes@.len() <= target_size,
    r.nodes@.len() == target_size || nsum(*operators, upto_d::<D>(target_size - r.nodes@.len())) == 0,
--- loops 3
--- before 0
proof { one_leaf(nodes@[0]); assert(nodes@ =~= seq![nodes@[0]]); }
--- loop 0
invariant
    ops_ok(*operators), 1 <= n_features <= 65536, target_size <= 65535,
    good(nodes@, consts@.len() as int, n_features as int, *operators), 1 <= nodes@.len() <= target_size, consts@.len() <= nodes@.len(),
ensures nodes@.len() >= target_size || nsum(*operators, upto_d::<D>(target_size - nodes@.len())) == 0,
decreases target_size - nodes@.len(),
--- head 0
let ghost n0 = nodes@;
let ghost nc0 = consts@.len() as int;
proof { first_is_leaf(nodes@); }
--- loop 1
invariant
    __n1 == nodes@.len(), __k1 <= __n1, !(nodes@[0] is Op), nodes@.len() >= 1,
    leaves_at(__acc1@, nodes@), __k1 > 0 ==> __acc1@.len() > 0,
decreases __n1 - __k1,
--- before 2
let ghost mut ts: Seq<Term> = Seq::empty();
--- loop 2
invariant
    __n2 == arity, __k2 <= __n2, ts.len() == __k2, 1 <= n_features <= 65536, arity <= target_size - n0.len(), target_size <= 65535,
    nc0 <= n0.len(), nc0 <= consts@.len() <= nc0 + __k2,
    repl@ == flatten_all(ts), proper_all(ts), all_ok(repl@, consts@.len() as int, n_features as int, *operators), repl@.len() == __k2,
decreases __n2 - __k2,
--- head 2
let ghost rb = repl@;
let ghost cb = consts@;
--- tail 2
proof { ok_more(rb, cb.len() as int, consts@.len() as int, n_features as int, *operators); row_leaf(ts, repl@.last()); ts = ts.push(leaf_term(repl@.last())); assert(repl@ =~= rb.push(repl@.last())); all_push(rb, repl@.last(), consts@.len() as int, n_features as int, *operators); }
--- at before nodes.splice
let ghost rp = repl@;
proof {
    let t = Term::Op(arity as u8, op_id, ts);
    assert(rp =~= flatten(t));
    sub_facts(n0, leaf_idx as int);
    replace_sub(n0, leaf_idx as int, t);
    assert(listed(*operators, arity as u8, op_id));
    assert(rp =~= flatten_all(ts).push(PNode::Op { arity: arity as u8, op: op_id }));
    all_push(flatten_all(ts), PNode::Op { arity: arity as u8, op: op_id }, consts@.len() as int, n_features as int, *operators);
    cut_ok(n0, leaf_idx as int, rp, nc0, consts@.len() as int, n_features as int, *operators);
}
--- tail 0
proof { assert(nodes@ =~= cut(n0, leaf_idx as int, rp)); }
=== fn dynamic_expressions/src/expression.rs PostfixExpr::zero
--- ret r
--- subst num_traits::Zero => Float
--- subst , Metadata::default() =>
--- spec
ensures r.nodes@ == seq![PNode::Const { idx: 0 }], r.consts@ == seq![T::s_zero()],
--- exit
proof { assert(__ret.nodes@ =~= seq![PNode::Const { idx: 0u16 }]); assert(__ret.consts@ =~= seq![T::s_zero()]); }
=== fn symbolic_regression/src/mutation_functions.rs random_expr_append_ops
--- ret r
--- subst dynamic_expressions::compress_constants => compress_constants
--- spec
requires ops_ok(*operators), 1 <= n_features <= 65536, max_size <= 65535,
ensures
    good(r.nodes@, r.consts@.len() as int, n_features as int, *operators),
    1 <= r.nodes@.len(), r.nodes@.len() <= max_size || r.nodes@.len() == 1,
--- loops 3
--- before 0
proof { one_leaf(expr.nodes@[0]); assert(expr.nodes@ =~= seq![expr.nodes@[0]]); }
--- loop 0
invariant
    ops_ok(*operators), 1 <= n_features <= 65536, 1 <= max_size <= 65535,
    good(expr.nodes@, expr.consts@.len() as int, n_features as int, *operators), 1 <= expr.nodes@.len() <= max_size, expr.consts@.len() <= expr.nodes@.len(),
decreases __n0 - __k0,
--- head 0
let ghost n0 = expr.nodes@;
let ghost nc0 = expr.consts@.len() as int;
proof { first_is_leaf(expr.nodes@); }
--- loop 1
invariant
    __n1 == expr.nodes@.len(), __k1 <= __n1, !(expr.nodes@[0] is Op), expr.nodes@.len() >= 1,
    leaves_at(__acc1@, expr.nodes@), __k1 > 0 ==> __acc1@.len() > 0,
decreases __n1 - __k1,
--- before 2
let ghost mut ts: Seq<Term> = Seq::empty();
--- loop 2
invariant
    __n2 == arity, __k2 <= __n2, ts.len() == __k2, 1 <= n_features <= 65536, arity <= max_size - n0.len(), max_size <= 65535, expr.nodes@ == n0,
    nc0 <= n0.len(), nc0 <= expr.consts@.len() <= nc0 + __k2,
    repl@ == flatten_all(ts), proper_all(ts), all_ok(repl@, expr.consts@.len() as int, n_features as int, *operators), repl@.len() == __k2,
decreases __n2 - __k2,
--- head 2
let ghost rb = repl@;
let ghost cb = expr.consts@;
--- tail 2
proof { ok_more(rb, cb.len() as int, expr.consts@.len() as int, n_features as int, *operators); row_leaf(ts, repl@.last()); ts = ts.push(leaf_term(repl@.last())); assert(repl@ =~= rb.push(repl@.last())); all_push(rb, repl@.last(), expr.consts@.len() as int, n_features as int, *operators); }
--- at before expr.nodes.splice
let ghost rp = repl@;
proof {
    let t = Term::Op(arity as u8, op_id, ts);
    sub_facts(n0, leaf_idx as int);
    replace_sub(n0, leaf_idx as int, t);
    assert(listed(*operators, arity as u8, op_id));
    assert(rp =~= flatten_all(ts).push(PNode::Op { arity: arity as u8, op: op_id }));
    assert(rp =~= flatten(t));
    all_push(flatten_all(ts), PNode::Op { arity: arity as u8, op: op_id }, expr.consts@.len() as int, n_features as int, *operators);
    cut_ok(n0, leaf_idx as int, rp, nc0, expr.consts@.len() as int, n_features as int, *operators);
}
--- tail 0
proof { if expr.nodes@ != n0 { assert(expr.nodes@ =~= cut(n0, leaf_idx as int, rp)); } }
--- after 0
let ghost n9 = expr.nodes@;
let ghost c9 = expr.consts@;
proof { good_consts(n9, c9.len() as int, n_features as int, *operators); }
--- at after dynamic_expressions::compress_constants
proof { compress_good(n9, c9, expr.nodes@, expr.consts@, n_features as int, *operators); }
