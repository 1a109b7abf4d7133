# submissions to the hall of fame
=== raw
// ---- one submission, and the history of submissions ----
pub type Cells<T, Ops, const D: usize> = Seq<Option<PopMember<T, Ops, D>>>;
pub open spec fn eligible<T: Float, Ops, const D: usize>(m: PopMember<T, Ops, D>, o: Options<T, D>, cms: usize, len: int) -> bool {
    admissible(m.expr, o, cms) && 1 <= m.complexity < len
}
pub open spec fn takes<T: Float, Ops, const D: usize>(cell: Option<PopMember<T, Ops, D>>, m: PopMember<T, Ops, D>) -> bool {
    match cell { None => true, Some(b) => below(m.cost, b.cost) }
}
pub open spec fn hof_step<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, m: PopMember<T, Ops, D>, o: Options<T, D>, cms: usize) -> Cells<T, Ops, D> {
    if eligible(m, o, cms, s.len() as int) && takes(s[m.complexity as int], m) { s.update(m.complexity as int, Some(m)) } else { s }
}
pub open spec fn hof_run<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, h: Seq<(PopMember<T, Ops, D>, usize)>, o: Options<T, D>) -> Cells<T, Ops, D>
    decreases h.len(),
{ if h.len() == 0 { s } else { hof_step(hof_run(s, h.drop_last(), o), h.last().0, o, h.last().1) } }
pub open spec fn with_size<T: Float, Ops, const D: usize>(ms: Seq<PopMember<T, Ops, D>>, cms: usize) -> Seq<(PopMember<T, Ops, D>, usize)> { Seq::new(ms.len(), |i: int| (ms[i], cms)) }
/// the history may be cut anywhere
pub proof fn hof_run_app<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, a: Seq<(PopMember<T, Ops, D>, usize)>, b: Seq<(PopMember<T, Ops, D>, usize)>, o: Options<T, D>)
    ensures hof_run(s, a + b, o) == hof_run(hof_run(s, a, o), b, o),
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); hof_run_app(s, a, b.drop_last(), o); } }
/// whatever a cell holds was there before or is an eligible submission of that complexity
pub proof fn hof_run_from<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, h: Seq<(PopMember<T, Ops, D>, usize)>, o: Options<T, D>)
    ensures hof_run(s, h, o).len() == s.len(),
        forall|c: int| 0 <= c < s.len() ==> (#[trigger] hof_run(s, h, o)[c]) == s[c]
            || exists|i: int| 0 <= i < h.len() && hof_run(s, h, o)[c] == Some((#[trigger] h[i]).0) && eligible(h[i].0, o, h[i].1, s.len() as int) && h[i].0.complexity == c,
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        hof_run_from(s, g, o);
        let p = hof_run(s, g, o);
        let t = hof_run(s, h, o);
        assert(h.last() == h[h.len() - 1]);
        assert forall|c: int| 0 <= c < s.len() implies (#[trigger] t[c]) == s[c] || exists|i: int| 0 <= i < h.len() && t[c] == Some((#[trigger] h[i]).0) && eligible(h[i].0, o, h[i].1, s.len() as int) && h[i].0.complexity == c by {
            if t[c] == p[c] && p[c] != s[c] {
                let i = choose|i: int| 0 <= i < g.len() && p[c] == Some((#[trigger] g[i]).0) && eligible(g[i].0, o, g[i].1, s.len() as int) && g[i].0.complexity == c;
                assert(h[i] == g[i]);
            }
        }
    }
}
