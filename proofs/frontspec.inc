# the Pareto front of the cells
=== raw
// ---- the Pareto front ----
/// the least loss among the first n cells (infinity if there is none that is a number)
pub open spec fn least<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, n: int) -> T
    decreases n,
{ if n <= 0 { T::s_inf() } else { let b = least(s, n - 1); match s[n - 1] { Some(m) => if below(m.loss, b) { m.loss } else { b }, None => b } } }
pub open spec fn front<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, n: int) -> Seq<PopMember<T, Ops, D>>
    decreases n,
{ if n <= 0 { Seq::empty() } else { match s[n - 1] { Some(m) => if below(m.loss, least(s, n - 1)) { front(s, n - 1).push(m) } else { front(s, n - 1) }, None => front(s, n - 1) } } }
pub proof fn least_is<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, n: int)
    requires 0 <= n <= s.len(),
    ensures !least(s, n).nan(), least(s, n).key() <= T::s_inf().key(),
        forall|k: int| 0 <= k < n && (#[trigger] s[k]) is Some && !s[k]->0.loss.nan() ==> least(s, n).key() <= s[k]->0.loss.key(),
        front(s, n).len() > 0 ==> front(s, n).last().loss == least(s, n),
        front(s, n).len() == 0 ==> least(s, n) == T::s_inf(),
    decreases n,
{ T::laws(); if n > 0 { least_is(s, n - 1); } }
/// the front lists members the hall holds, losses strictly falling, and no held member beats all smaller ones without being listed
pub proof fn front_is<T: Float, Ops, const D: usize>(s: Cells<T, Ops, D>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        forall|i: int| 0 <= i < front(s, n).len() ==> s.take(n).contains(Some(#[trigger] front(s, n)[i])) && !front(s, n)[i].loss.nan(),
        forall|i: int, j: int| 0 <= i < j < front(s, n).len() ==> (#[trigger] front(s, n)[j]).loss.key() < (#[trigger] front(s, n)[i]).loss.key(),
        forall|k: int| 0 <= k < n && (#[trigger] s[k]) is Some && below(s[k]->0.loss, least(s, k)) ==> front(s, n).contains(s[k]->0),
    decreases n,
{
    T::laws();
    if n > 0 {
        front_is(s, n - 1);
        least_is(s, n - 1);
        let f = front(s, n - 1);
        let g = front(s, n);
        assert forall|i: int| 0 <= i < g.len() implies s.take(n).contains(Some(#[trigger] g[i])) && !g[i].loss.nan() by {
            if i < f.len() {
                assert(g[i] == f[i]);
                let tk = s.take(n - 1);
                let q = choose|q: int| 0 <= q < tk.len() && tk[q] == Some(f[i]);
                assert(s.take(n)[q] == Some(g[i]));
            } else { assert(s.take(n)[n - 1] == Some(g[i])); }
        }
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[j]).loss.key() < (#[trigger] g[i]).loss.key() by {
            if j < f.len() { assert(g[i] == f[i] && g[j] == f[j]); } else { assert(g[i] == f[i]); if i < f.len() - 1 { assert(f[f.len() - 1].loss.key() < f[i].loss.key()); } }
        }
        assert forall|k: int| 0 <= k < n && (#[trigger] s[k]) is Some && below(s[k]->0.loss, least(s, k)) implies g.contains(s[k]->0) by {
            if k < n - 1 {
                let q = choose|q: int| 0 <= q < f.len() && f[q] == s[k]->0;
                assert(g[q] == s[k]->0);
            } else { assert(g[g.len() - 1] == s[k]->0); }
        }
    }
}
