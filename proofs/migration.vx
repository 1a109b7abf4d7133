# symbolic_regression: migration
=== include prelude.inc
=== include node.inc
=== include float_sr.inc
=== include options.inc
=== include member.inc
=== include rng.inc
=== include sort.inc
=== uses population.vx Population::len
=== uses population.vx Population::is_empty
=== raw
/// any number of arrivals is possible when the mean is positive and finite; none otherwise
#[verifier::external_body]
pub fn poisson_sample(rng: &mut Rng, mean: Fx) -> (r: usize)
    ensures !mean.isfin() || mean.k() <= 0real ==> r == 0,
{ unimplemented!() }
=== include migrspec.inc
=== fn symbolic_regression/src/migration.rs best_sub_pop
--- ret r
--- spec
requires no_nan(pop.members@),
ensures exists|p: Seq<int>| #[trigger] ranked(pop.members@, p) && r@.len() == (if topn < pop.members@.len() { topn as int } else { pop.members@.len() as int })
    && forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == pop.members@[p[i]],
--- entry
proof { T::laws(); }
let ghost mut gp: Seq<int> = Seq::empty();
--- closed
proof {
    let ids = Seq::new(pop.members@.len(), |i: int| i as usize);
    gp = choose|p: Seq<int>| sorted_by(__cl0, ids, idxs@, p);
    assert(ranked(pop.members@, gp)) by {
        assert forall|i: int, j: int| #![trigger gp[i], gp[j]] 0 <= i < j < pop.members@.len() implies pop.members@[gp[i]].cost.key() <= pop.members@[gp[j]].cost.key() && (pop.members@[gp[i]].cost.key() == pop.members@[gp[j]].cost.key() ==> gp[i] < gp[j]) by {
            assert(idxs@[i] == ids[gp[i]] && idxs@[j] == ids[gp[j]]);
        }
    }
}
--- loop 1
invariant __n1 == idxs@.len(), __k1 <= __n1, __acc1@.len() == __k1, ranked(pop.members@, gp), idxs@.len() <= pop.members@.len(),
    forall|i: int| 0 <= i < idxs@.len() ==> #[trigger] idxs@[i] == gp[i],
    forall|i: int| 0 <= i < __k1 ==> #[trigger] __acc1@[i] == pop.members@[gp[i]],
decreases __n1 - __k1,
--- loop 0
invariant __n0 == pop.members@.len(), __k0 <= __n0, __acc0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __acc0@[i] == i,
decreases __n0 - __k0,
--- closures
proof { assert(idxs@ =~= Seq::new(pop.members@.len(), |i: int| i as usize)); }
--- closure 0
types &usize ; &usize -> Ordering
requires *__c0 < pop.members@.len(), *__c1 < pop.members@.len(), no_nan(pop.members@),
ensures ({ let a = pop.members@[*__c0 as int].cost.key(); let b = pop.members@[*__c1 as int].cost.key(); r == (if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }) }),
=== fn symbolic_regression/src/migration.rs migrate_into
--- opt fx
--- subst choose( => choose_(
--- spec
requires *old(next_id) + old(dst).members@.len() <= u64::MAX, *old(next_birth) + old(dst).members@.len() <= u64::MAX,
ensures final(dst).members@.len() == old(dst).members@.len(),
    ({
        let k = *final(next_id) - *old(next_id);
        &&& 0 <= k <= old(dst).members@.len() && k <= migrants@.len() && *final(next_birth) - *old(next_birth) == k
        &&& k == 0 ==> *final(dst) == *old(dst)
        &&& !frac.isnan() && frac.k() <= 0real ==> k == 0
        &&& migrated(old(dst).members@, final(dst).members@, migrants@, *old(next_id), *old(next_birth), k)
    }),
--- loop 0
invariant migrants@.len() > 0, dst.members@.len() > 0, n_replace <= old(dst).members@.len(), n_replace <= migrants@.len(), __n0 == n_replace, __k0 <= __n0,
    *next_id == *old(next_id) + __k0, *next_birth == *old(next_birth) + __k0, __k0 == 0 ==> *dst == *old(dst),
    *old(next_id) + old(dst).members@.len() <= u64::MAX, *old(next_birth) + old(dst).members@.len() <= u64::MAX,
    migrated(old(dst).members@, dst.members@, migrants@, *old(next_id), *old(next_birth), __k0 as int),
decreases __n0 - __k0,
