# symbolic_regression/src/mutate.rs: which kind of mutation is tried on a member
=== include prelude.inc
=== include node.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include rng.inc
=== type symbolic_regression/src/mutate.rs MutationChoice
derive Copy, Clone
=== include weightspec.inc
=== include weights.inc
=== uses selection.vx weighted_index
=== fn symbolic_regression/src/mutate.rs count_constants
--- ret r
--- spec
ensures r == n_consts(nodes@),
--- loop 0
invariant __n0 == nodes@.len(), __k0 <= __n0, __acc0 == n_consts(nodes@.take(__k0 as int)), __acc0 <= __k0,
decreases __n0 - __k0,
--- tail 0
proof { assert(nodes@.take(__k0 as int).drop_last() =~= nodes@.take(__k0 - 1)); }
--- after 0
proof { assert(nodes@.take(nodes@.len() as int) =~= nodes@); }
=== fn symbolic_regression/src/mutate.rs has_binary_op
--- ret r
--- spec
ensures r == some_binary(nodes@),
--- loop 0
invariant_except_break !__acc0, forall|i: int| 0 <= i < __k0 ==> !is_binary(#[trigger] nodes@[i]),
invariant __n0 == nodes@.len(), __k0 <= __n0,
ensures __acc0 == some_binary(nodes@),
decreases __n0 - __k0,
=== fn symbolic_regression/src/mutate.rs condition_mutation_weights
--- opt fx
--- subst  + AddAssign => 
--- spec
ensures *final(weights) == conditioned(*old(weights), *member, *options, curmaxsize as int, nfeatures as int),
--- loop 0
invariant_except_break __acc0, forall|i: int| 0 <= i < __k0 ==> is_leaf(#[trigger] member.expr.nodes@[i]),
invariant __n0 == member.expr.nodes@.len(), __k0 <= __n0, *weights == *old(weights),
ensures __acc0 == all_leaves(member.expr.nodes@),
decreases __n0 - __k0,
=== fn symbolic_regression/src/mutate.rs sample_mutation
--- opt fx
--- ret r
--- panics !weights_ok(listed_weights(*weights))
--- spec
ensures weights_ok(listed_weights(*weights)), weight_of(*weights, r).k() > 0real,
--- loop 0
invariant __n0 == 12, choices@.len() == 12, __k0 <= __n0, __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __acc0@[i] == choices@[i].1,
decreases __n0 - __k0,
--- after 0
proof { assert(__acc0@ =~= listed_weights(*weights)); }
