=== raw
// ---- slot-major buffers: column s (width w) holds vf(term of slot s, q) at position q ----
#[verifier::opaque]
pub open spec fn slots_fn<T>(m: Map<int, Term>, sc: Seq<T>, ns: int, w: int, vf: spec_fn(Term, int) -> T) -> bool {
    forall|s: int, q: int| 0 <= s < ns && #[trigger] m.dom().contains(s) && 0 <= q < w ==> sc[#[trigger] at(s, w, q)] == vf(m[s], q)
}
/// position q of slot s as seen while slot d is borrowed for writing
pub open spec fn other_slot<T>(s: int, d: int, w: int, before: Seq<T>, after: Seq<T>, q: int) -> T {
    if s < d { before[s * w + q] } else { after[(s - d - 1) * w + q] }
}
pub proof fn slots_empty<T>(sc: Seq<T>, ns: int, w: int, vf: spec_fn(Term, int) -> T)
    ensures slots_fn(Map::empty(), sc, ns, w, vf),
{ reveal(slots_fn); }
pub proof fn slot_at<T>(m: Map<int, Term>, sc: Seq<T>, ns: int, w: int, vf: spec_fn(Term, int) -> T, s: int)
    requires slots_fn(m, sc, ns, w, vf), 0 <= s < ns, m.dom().contains(s), w >= 0, sc.len() == ns * w,
    ensures forall|q: int| 0 <= q < w ==> #[trigger] sc.subrange(s * w, s * w + w)[q] == vf(m[s], q), 0 <= s * w, s * w + w <= sc.len(),
{
    reveal(slots_fn);
    idx_le(s, w, ns);
    assert forall|q: int| 0 <= q < w implies #[trigger] sc.subrange(s * w, s * w + w)[q] == vf(m[s], q) by { assert(sc[at(s, w, q)] == vf(m[s], q)); }
}
pub proof fn slot_read<T>(m: Map<int, Term>, sc: Seq<T>, ns: int, w: int, vf: spec_fn(Term, int) -> T, d: int, before: Seq<T>, after: Seq<T>, s: int)
    requires
        slots_fn(m, sc, ns, w, vf), 0 <= s < ns, 0 <= d < ns, s != d, m.dom().contains(s), w >= 0, sc.len() == ns * w,
        before == sc.take(d * w), after == sc.skip(d * w + w),
    ensures forall|q: int| 0 <= q < w ==> #[trigger] other_slot(s, d, w, before, after, q) == vf(m[s], q),
{
    reveal(slots_fn);
    idx_split(d, w, ns);
    assert forall|q: int| 0 <= q < w implies #[trigger] other_slot(s, d, w, before, after, q) == vf(m[s], q) by {
        assert(sc[at(s, w, q)] == vf(m[s], q));
        idx_apart(s, d, w, q);
        idx_in(s, w, q, ns);
        if s < d { assert(before[s * w + q] == sc[s * w + q]); }
        else { idx_after(s, d, w, ns); idx_in(s - d - 1, w, q, ns - d - 1); assert(after[(s - d - 1) * w + q] == sc[(s - d - 1) * w + q + (d * w + w)]); }
    }
}
pub proof fn slots_step<T>(m: Map<int, Term>, m1: Map<int, Term>, sc: Seq<T>, sc1: Seq<T>, ns: int, w: int, vf: spec_fn(Term, int) -> T, d: int, term: Term, col: Seq<T>)
    requires
        slots_fn(m, sc, ns, w, vf), 0 <= d < ns, w >= 0, sc.len() == ns * w, m1 == m.insert(d, term), col.len() == w,
        sc1 == sc.take(d * w) + col + sc.skip(d * w + w),
        forall|q: int| 0 <= q < w ==> #[trigger] col[q] == vf(term, q),
    ensures slots_fn(m1, sc1, ns, w, vf), sc1.len() == ns * w,
{
    reveal(slots_fn);
    idx_split(d, w, ns);
    assert forall|s: int, q: int| 0 <= s < ns && #[trigger] m1.dom().contains(s) && 0 <= q < w implies sc1[#[trigger] at(s, w, q)] == vf(m1[s], q) by {
        idx_in(s, w, q, ns);
        if s == d { assert(sc1[at(s, w, q)] == col[q]); }
        else {
            idx_apart(s, d, w, q);
            assert(m.dom().contains(s) && m[s] == m1[s]);
            assert(sc[at(s, w, q)] == vf(m[s], q));
        }
    }
}
