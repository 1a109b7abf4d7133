# symbolic_regression: population bookkeeping
=== include prelude.inc
=== include node.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include popspec.inc
=== fn symbolic_regression/src/population.rs Population::new
--- ret r
--- spec
ensures r.members == members,
=== fn symbolic_regression/src/population.rs Population::len
--- ret r
--- spec
ensures r == self.members@.len(),
=== fn symbolic_regression/src/population.rs Population::is_empty
--- ret r
--- spec
ensures r == (self.members@.len() == 0),
=== fn symbolic_regression/src/population.rs Population::oldest_index
--- ret r
--- spec
requires self.members@.len() > 0,
ensures is_oldest(self.members@, self.members@.len() as int, r as int, -1),
--- loop 0
invariant __n0 == self.members@.len(), __k0 <= __n0,
    __k0 == 0 ==> __acc0 is None && __key0 is None,
    __k0 > 0 ==> __acc0 is Some && __key0 is Some && is_oldest(self.members@, __k0 as int, o_ix(__acc0), -1) && __key0->0 == self.members@[o_ix(__acc0)].birth && o_m(__acc0) == self.members@[o_ix(__acc0)],
decreases __n0 - __k0,
=== fn symbolic_regression/src/population.rs Population::two_oldest_indices
--- ret r
--- spec
requires self.members@.len() >= 2,
ensures is_oldest(self.members@, self.members@.len() as int, r.0 as int, -1), is_oldest(self.members@, self.members@.len() as int, r.1 as int, r.0 as int), r.0 != r.1,
--- loop 0
invariant __n0 == self.members@.len(), __k0 <= __n0,
    __k0 == 0 ==> first is None, __k0 <= 1 ==> second is None,
    __k0 >= 1 ==> first is Some && is_oldest(self.members@, __k0 as int, (first->0).0 as int, -1) && (first->0).1 == self.members@[(first->0).0 as int].birth,
    __k0 >= 2 ==> second is Some && is_oldest(self.members@, __k0 as int, (second->0).0 as int, (first->0).0 as int) && (second->0).1 == self.members@[(second->0).0 as int].birth,
decreases __n0 - __k0,
=== fn symbolic_regression/src/population.rs Population::replace_oldest
--- spec
requires old(self).members@.len() > 0,
ensures exists|i: int| #[trigger] is_oldest(old(self).members@, old(self).members@.len() as int, i, -1) && final(self).members@ == old(self).members@.update(i, child),
=== fn symbolic_regression/src/population.rs Population::replace_two_oldest
--- spec
requires old(self).members@.len() >= 2,
ensures exists|i: int, j: int| #[trigger] is_oldest(old(self).members@, old(self).members@.len() as int, i, -1) && #[trigger] is_oldest(old(self).members@, old(self).members@.len() as int, j, i) && i != j
    && final(self).members@ == old(self).members@.update(i, a).update(j, b),
