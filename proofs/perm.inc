=== include permspec.inc
=== raw
pub open spec fn swapped<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }
pub proof fn perm_id(n: int) requires 0 <= n ensures perm(Seq::new(n as nat, |i: int| i), Seq::new(n as nat, |i: int| i), n) { }
pub proof fn perm_swap<T>(old: Seq<T>, s: Seq<T>, p: Seq<int>, q: Seq<int>, n: int, i: int, j: int)
    requires perm(p, q, n), permuted(old, s, p), old.len() == n, 0 <= i < n, 0 <= j < n,
    ensures perm(swapped(p, i, j), q.update(p[i], j).update(p[j], i), n), permuted(old, swapped(s, i, j), swapped(p, i, j)),
{
    let (p1, q1) = (swapped(p, i, j), q.update(p[i], j).update(p[j], i));
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] p1[k] < n && q1[p1[k]] == k by {
        assert(0 <= p[k] < n && q[p[k]] == k); assert(q[p[i]] == i); assert(q[p[j]] == j);
    }
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] q1[k] < n && p1[q1[k]] == k by {
        assert(0 <= q[k] < n && p[q[k]] == k); assert(q[p[i]] == i); assert(q[p[j]] == j);
    }
    let t = swapped(s, i, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] t[k] == old[p1[k]] by { assert(s[k] == old[p[k]]); assert(s[i] == old[p[i]]); assert(s[j] == old[p[j]]); }
}
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
