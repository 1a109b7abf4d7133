# dynamic_expressions/src/simplify.rs: combining constants of adjacent + - * applications
=== include comb.inc
=== type dynamic_expressions/src/simplify.rs ArenaNodeKind
derive Copy, Clone
=== type dynamic_expressions/src/simplify.rs ArenaNode
derive Copy, Clone
=== type dynamic_expressions/src/simplify.rs CombineCfg
derive Copy, Clone
=== raw
// ---- the tree an arena holds below a node ----
pub open spec fn nk<const D: usize>(a: Seq<ArenaNode<D>>, id: int) -> int { if a[id].kind is Op { a[id].kind->arity as int } else { 0 } }
pub open spec fn kid<const D: usize>(a: Seq<ArenaNode<D>>, id: int, j: int) -> int { a[id].kind->children@[j] as int }
/// i is a node of the tree rooted at id
pub open spec fn inn<const D: usize>(a: Seq<ArenaNode<D>>, id: int, i: int) -> bool
    decreases id,
{ i == id || exists|j: int| 0 <= j < nk(a, id) && 0 <= #[trigger] kid(a, id, j) < id && inn(a, kid(a, id, j), i) }
/// a tree: operands below the node, no node shared
pub open spec fn wf<const D: usize>(a: Seq<ArenaNode<D>>, id: int) -> bool
    decreases id,
{
    &&& 0 <= id < a.len()
    &&& a[id].kind is Op ==> 1 <= a[id].kind->arity <= D
    &&& forall|j: int| 0 <= j < nk(a, id) ==> 0 <= #[trigger] kid(a, id, j) < id && wf(a, kid(a, id, j))
    &&& forall|j: int, l: int, i: int| 0 <= j < l < nk(a, id) ==> !(#[trigger] inn(a, kid(a, id, j), i) && #[trigger] inn(a, kid(a, id, l), i))
}
pub open spec fn term_at<const D: usize>(a: Seq<ArenaNode<D>>, id: int) -> Term
    decreases id, 1000int,
{
    match a[id].kind {
        ArenaNodeKind::Var(f) => Term::Var(f),
        ArenaNodeKind::Const(c) => Term::Const(c),
        ArenaNodeKind::Op { arity, op, children } => Term::Op(arity, op, tkids(a, id, arity as int)),
    }
}
pub open spec fn tkids<const D: usize>(a: Seq<ArenaNode<D>>, id: int, k: int) -> Seq<Term>
    decreases id, k,
{
    if k <= 0 || k > 255 { seq![] } else { tkids(a, id, k - 1).push(if 0 <= kid(a, id, k - 1) < id { term_at(a, kid(a, id, k - 1)) } else { Term::Var(0) }) }
}
pub proof fn tkids_at<const D: usize>(a: Seq<ArenaNode<D>>, id: int, k: int)
    requires 0 <= k <= 255, forall|j: int| 0 <= j < k ==> 0 <= #[trigger] kid(a, id, j) < id,
    ensures tkids(a, id, k).len() == k, forall|j: int| 0 <= j < k ==> #[trigger] tkids(a, id, k)[j] == term_at(a, kid(a, id, j)),
    decreases k,
{ if k > 0 { tkids_at(a, id, k - 1); let q = kid(a, id, k - 1); } }
pub proof fn inn_kid<const D: usize>(a: Seq<ArenaNode<D>>, id: int, j: int, i: int)
    requires 0 <= j < nk(a, id), 0 <= kid(a, id, j) < id, inn(a, kid(a, id, j), i),
    ensures inn(a, id, i),
{ }
pub proof fn inn_range<const D: usize>(a: Seq<ArenaNode<D>>, id: int)
    requires wf(a, id),
    ensures forall|i: int| #[trigger] inn(a, id, i) ==> 0 <= i <= id,
    decreases id,
{
    assert forall|i: int| #[trigger] inn(a, id, i) implies 0 <= i <= id by {
        if i != id {
            let j = choose|j: int| 0 <= j < nk(a, id) && 0 <= #[trigger] kid(a, id, j) < id && inn(a, kid(a, id, j), i);
            inn_range(a, kid(a, id, j));
        }
    }
}
/// only the nodes of a tree matter to it
pub proof fn frame<const D: usize>(a: Seq<ArenaNode<D>>, b: Seq<ArenaNode<D>>, id: int)
    requires wf(a, id), a.len() <= b.len(), forall|i: int| #[trigger] inn(a, id, i) ==> a[i] == b[i],
    ensures wf(b, id), term_at(b, id) == term_at(a, id), forall|i: int| #[trigger] inn(b, id, i) == inn(a, id, i),
    decreases id,
{
    assert(inn(a, id, id));
    assert(a[id] == b[id]);
    assert forall|j: int| 0 <= j < nk(a, id) implies 0 <= #[trigger] kid(b, id, j) < id && kid(b, id, j) == kid(a, id, j) && wf(b, kid(b, id, j)) && term_at(b, kid(b, id, j)) == term_at(a, kid(a, id, j))
        && (forall|i: int| #[trigger] inn(b, kid(b, id, j), i) == inn(a, kid(a, id, j), i)) by {
        let q = kid(a, id, j);
        assert forall|i: int| #[trigger] inn(a, q, i) implies a[i] == b[i] by { inn_kid(a, id, j, i); }
        frame(a, b, q);
    }
    assert forall|i: int| #[trigger] inn(b, id, i) == inn(a, id, i) by {
        if inn(b, id, i) && i != id {
            let j = choose|j: int| 0 <= j < nk(b, id) && 0 <= #[trigger] kid(b, id, j) < id && inn(b, kid(b, id, j), i);
            assert(inn(a, kid(a, id, j), i)); inn_kid(a, id, j, i);
        }
        if inn(a, id, i) && i != id {
            let j = choose|j: int| 0 <= j < nk(a, id) && 0 <= #[trigger] kid(a, id, j) < id && inn(a, kid(a, id, j), i);
            assert(kid(b, id, j) == kid(a, id, j));
            assert(inn(b, kid(b, id, j), i)); inn_kid(b, id, j, i);
        }
    }
    if a[id].kind is Op {
        let n = a[id].kind->arity as int;
        assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] kid(a, id, j) < id by { assert(kid(b, id, j) == kid(a, id, j)); }
        tkids_at(a, id, n); tkids_at(b, id, n);
        assert(tkids(a, id, n) =~= tkids(b, id, n)) by { assert forall|j: int| 0 <= j < n implies tkids(a, id, n)[j] == tkids(b, id, n)[j] by { assert(kid(b, id, j) == kid(a, id, j)); } }
    }
}
/// every constant node below id reads an existing constant
pub open spec fn cv<const D: usize>(a: Seq<ArenaNode<D>>, id: int, nc: int) -> bool { forall|i: int| #[trigger] inn(a, id, i) && a[i].kind is Const ==> a[i].kind->Const_0 < nc }
pub proof fn vt_ext<T, const D: usize>(ev: spec_fn(u8, u16, Seq<T>) -> T, a: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, c1: Seq<T>)
    requires wf(a, id), cv(a, id, c0.len() as int), ext(c0, c1),
    ensures same_v(ev, term_at(a, id), c0, term_at(a, id), c1),
    decreases id,
{
    assert(inn(a, id, id));
    match a[id].kind {
        ArenaNodeKind::Op { arity, op, children } => {
            let n = arity as int;
            let ts = tkids(a, id, n);
            tkids_at(a, id, n);
            assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(a, id), env, c1) == vt(ev, term_at(a, id), env, c0) by {
                vts_at(ev, ts, env, c0); vts_at(ev, ts, env, c1);
                assert forall|j: int| 0 <= j < n implies #[trigger] vts(ev, ts, env, c1)[j] == vts(ev, ts, env, c0)[j] by {
                    let q = kid(a, id, j);
                    assert forall|i: int| #[trigger] inn(a, q, i) && a[i].kind is Const implies a[i].kind->Const_0 < c0.len() by { inn_kid(a, id, j, i); }
                    vt_ext(ev, a, q, c0, c1);
                    assert(vt(ev, ts[j], env, c1) == vt(ev, ts[j], env, c0));
                }
                assert(vts(ev, ts, env, c1) =~= vts(ev, ts, env, c0));
            }
        }
        _ => {}
    }
}
pub proof fn proper_at<const D: usize>(a: Seq<ArenaNode<D>>, id: int)
    requires wf(a, id),
    ensures proper(term_at(a, id)),
    decreases id,
{
    if a[id].kind is Op {
        let n = a[id].kind->arity as int;
        tkids_at(a, id, n);
        assert forall|j: int| 0 <= j < n implies proper(#[trigger] tkids(a, id, n)[j]) by { let q = kid(a, id, j); proper_at(a, q); }
        proper_from_ix(tkids(a, id, n));
    }
}
/// the postfix node an arena node stands for
pub open spec fn pn<const D: usize>(n: ArenaNode<D>) -> PNode {
    match n.kind { ArenaNodeKind::Var(f) => PNode::Var { feature: f }, ArenaNodeKind::Const(c) => PNode::Const { idx: c }, ArenaNodeKind::Op { arity, op, children } => PNode::Op { arity, op } }
}
pub proof fn flat_all_p(ts: Seq<Term>, p: spec_fn(PNode) -> bool)
    requires forall|j: int, q: int| 0 <= j < ts.len() && 0 <= q < flatten(ts[j]).len() ==> p(#[trigger] flatten(ts[j])[q]),
    ensures forall|q: int| 0 <= q < flatten_all(ts).len() ==> p(#[trigger] flatten_all(ts)[q]),
    decreases ts.len(),
{
    if ts.len() > 0 {
        let d = ts.drop_last();
        assert forall|j: int, q: int| 0 <= j < d.len() && 0 <= q < flatten(d[j]).len() implies p(#[trigger] flatten(d[j])[q]) by { assert(flatten(ts[j])[q] == flatten(d[j])[q]); }
        flat_all_p(d, p);
        assert forall|q: int| 0 <= q < flatten_all(ts).len() implies p(#[trigger] flatten_all(ts)[q]) by {
            let m = flatten_all(d).len();
            if q < m { assert(flatten_all(ts)[q] == flatten_all(d)[q]); } else { assert(flatten_all(ts)[q] == flatten(ts[ts.len() - 1])[q - m]); }
        }
    }
}
/// what holds of every node of the tree holds of every node written out
pub proof fn flat_p<const D: usize>(a: Seq<ArenaNode<D>>, id: int, p: spec_fn(PNode) -> bool)
    requires wf(a, id), forall|i: int| #[trigger] inn(a, id, i) ==> p(pn(a[i])),
    ensures forall|q: int| 0 <= q < flatten(term_at(a, id)).len() ==> p(#[trigger] flatten(term_at(a, id))[q]),
    decreases id,
{
    assert(inn(a, id, id));
    match a[id].kind {
        ArenaNodeKind::Op { arity, op, children } => {
            let n = arity as int;
            let ts = tkids(a, id, n);
            tkids_at(a, id, n);
            assert forall|j: int, q: int| 0 <= j < ts.len() && 0 <= q < flatten(ts[j]).len() implies p(#[trigger] flatten(ts[j])[q]) by {
                let r = kid(a, id, j);
                assert forall|i: int| #[trigger] inn(a, r, i) implies p(pn(a[i])) by { inn_kid(a, id, j, i); }
                flat_p(a, r, p);
            }
            flat_all_p(ts, p);
            assert forall|q: int| 0 <= q < flatten(term_at(a, id)).len() implies p(#[trigger] flatten(term_at(a, id))[q]) by {
                let m = flatten_all(ts).len();
                if q < m { assert(flatten(term_at(a, id))[q] == flatten_all(ts)[q]); } else { assert(flatten(term_at(a, id))[q] == pn(a[id])); }
            }
        }
        _ => { assert(flatten(term_at(a, id)) =~= seq![pn(a[id])]); }
    }
}
pub proof fn sizes_le(s: Seq<Term>, t: Seq<Term>)
    requires s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> tsize(#[trigger] s[j]) <= tsize(t[j]),
    ensures flatten_all(s).len() <= flatten_all(t).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies tsize(#[trigger] s.drop_last()[j]) <= tsize(t.drop_last()[j]) by { assert(s.drop_last()[j] == s[j]); }
        sizes_le(s.drop_last(), t.drop_last());
        assert(tsize(s[s.len() - 1]) <= tsize(t[s.len() - 1]));
    }
}
/// the ids the configuration names denote + * -
pub open spec fn means<T: Float>(ev: spec_fn(u8, u16, Seq<T>) -> T, cfg: CombineCfg) -> bool {
    &&& laws::<T>()
    &&& (cfg.add_id matches Some(o) ==> (forall|s: Seq<T>| s.len() == 2 ==> #[trigger] ev(2, o, s) == s[0].add_spec(s[1])))
    &&& (cfg.mul_id matches Some(o) ==> (forall|s: Seq<T>| s.len() == 2 ==> #[trigger] ev(2, o, s) == s[0].mul_spec(s[1])))
    &&& (cfg.sub_id matches Some(o) ==> (forall|s: Seq<T>| s.len() == 2 ==> #[trigger] ev(2, o, s) == s[0].sub_spec(s[1])))
}
pub proof fn cancel<T: Float>(u: T, v: T, w: T)
    requires laws::<T>(), u.add_spec(w) == v.add_spec(w),
    ensures u == v,
{ l_as(u, w); l_as(v, w); }
pub proof fn sub_laws<T: Float>(a: T, b: T, x: T)
    requires laws::<T>(),
    ensures
        a.sub_spec(b.sub_spec(x)) == x.sub_spec(b.sub_spec(a)),
        a.sub_spec(x.sub_spec(b)) == a.add_spec(b).sub_spec(x),
        a.sub_spec(x).sub_spec(b) == a.sub_spec(b).sub_spec(x),
        x.sub_spec(a).sub_spec(b) == x.sub_spec(a.add_spec(b)),
{
    // 1: with w = b - x, p = b - a, r = x - p:  (r + w) + p = (r + p) + w = x + w = b = a + p
    let w = b.sub_spec(x); let p = b.sub_spec(a); let r = x.sub_spec(p);
    l_sa(b, x); l_sa(b, a); l_sa(x, p);
    l_aa(r, w, p); l_ac(w, p); l_aa(r, p, w); l_ac(x, w); l_ac(p, a);
    cancel(r.add_spec(w), a, p);
    l_sa(a, w);
    cancel(a.sub_spec(w), r, w);
    // 2: with w = x - b, r = (a + b) - x:  (r + w) + b = r + x = a + b
    let w2 = x.sub_spec(b); let r2 = a.add_spec(b).sub_spec(x);
    l_sa(x, b); l_sa(a.add_spec(b), x);
    l_aa(r2, w2, b);
    cancel(r2.add_spec(w2), a, b);
    l_sa(a, w2);
    cancel(a.sub_spec(w2), r2, w2);
    // 3
    let l3 = a.sub_spec(x).sub_spec(b); let r3 = a.sub_spec(b).sub_spec(x);
    l_sa(a.sub_spec(x), b); l_sa(a, x); l_sa(a.sub_spec(b), x); l_sa(a, b);
    l_aa(l3, b, x); l_aa(r3, x, b); l_ac(b, x);
    cancel(l3, r3, b.add_spec(x));
    // 4
    let l4 = x.sub_spec(a).sub_spec(b); let r4 = x.sub_spec(a.add_spec(b));
    l_sa(x.sub_spec(a), b); l_sa(x, a); l_sa(x, a.add_spec(b));
    l_aa(l4, b, a); l_ac(a, b);
    cancel(l4, r4, a.add_spec(b));
}
// ---- the contract of combining below one node ----
pub open spec fn head_ok<const D: usize>(p: ArenaNode<D>, q: ArenaNode<D>) -> bool { q.kind is Const || pn(q) == pn(p) }
/// the tree at r now stands for the tree that was at id: same value, same or smaller size, no new feature or operator, its nodes among the old ones
pub open spec fn stands<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a1: Seq<ArenaNode<D>>, r: int, c1: Seq<T>, cfg: CombineCfg) -> bool {
    &&& wf(a1, r) && r <= id && cv(a1, r, c1.len() as int)
    &&& forall|i: int| #[trigger] inn(a1, r, i) ==> inn(a0, id, i) && head_ok(a0[i], a1[i])
    &&& tsize(term_at(a1, r)) <= tsize(term_at(a0, id))
    &&& forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) ==> same_v(ev, term_at(a0, id), c0, term_at(a1, r), c1)
}
/// ... and nothing else was touched
pub open spec fn comb<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a1: Seq<ArenaNode<D>>, r: int, c1: Seq<T>, cfg: CombineCfg) -> bool {
    &&& a1.len() == a0.len() && ext(c0, c1)
    &&& stands(a0, id, c0, a1, r, c1, cfg)
    &&& forall|i: int| 0 <= i < a0.len() && !inn(a0, id, i) ==> #[trigger] a1[i] == a0[i]
}
pub proof fn comb_refl<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, cfg: CombineCfg)
    requires wf(a, id), cv(a, id, c.len() as int),
    ensures comb(a, id, c, a, id, c, cfg),
{ }
pub proof fn comb_trans<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a1: Seq<ArenaNode<D>>, m: int, c1: Seq<T>, a2: Seq<ArenaNode<D>>, r: int, c2: Seq<T>, cfg: CombineCfg)
    requires comb(a0, id, c0, a1, m, c1, cfg), comb(a1, m, c1, a2, r, c2, cfg),
    ensures comb(a0, id, c0, a2, r, c2, cfg),
{
    assert forall|i: int| #[trigger] inn(a2, r, i) implies inn(a0, id, i) && head_ok(a0[i], a2[i]) by { assert(inn(a1, m, i)); }
    assert forall|i: int| 0 <= i < a0.len() && !inn(a0, id, i) implies #[trigger] a2[i] == a0[i] by { assert(!inn(a1, m, i)); assert(a1[i] == a0[i]); }
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) implies same_v(ev, term_at(a0, id), c0, term_at(a2, r), c2) by {
        assert(same_v(ev, term_at(a0, id), c0, term_at(a1, m), c1));
        assert(same_v(ev, term_at(a1, m), c1, term_at(a2, r), c2));
        assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(a2, r), env, c2) == vt(ev, term_at(a0, id), env, c0) by { assert(vt(ev, term_at(a1, m), env, c1) == vt(ev, term_at(a0, id), env, c0)); }
    }
    assert forall|i: int| 0 <= i < c0.len() implies #[trigger] c2[i] == c0[i] by { assert(c1[i] == c0[i]); }
}
// ---- operands first ----
pub open spec fn touched<const D: usize>(a: Seq<ArenaNode<D>>, id: int, k: int, i: int) -> bool { exists|j: int| 0 <= j < k && inn(a, #[trigger] kid(a, id, j), i) }
/// after the first k operands of id were combined
pub open spec fn kids_st<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a: Seq<ArenaNode<D>>, ch: Seq<usize>, c: Seq<T>, k: int, cfg: CombineCfg) -> bool {
    &&& a.len() == a0.len() && ext(c0, c) && ch.len() == D
    &&& forall|j: int| 0 <= j < k ==> stands(a0, kid(a0, id, j), c0, a, (#[trigger] ch[j]) as int, c, cfg)
    &&& forall|j: int| k <= j < D ==> #[trigger] ch[j] == kid(a0, id, j)
    &&& forall|i: int| 0 <= i < a0.len() && !touched(a0, id, k, i) ==> #[trigger] a[i] == a0[i]
}
pub proof fn cv_kid<const D: usize>(a: Seq<ArenaNode<D>>, id: int, j: int, nc: int)
    requires wf(a, id), cv(a, id, nc), 0 <= j < nk(a, id),
    ensures wf(a, kid(a, id, j)), 0 <= kid(a, id, j) < id, cv(a, kid(a, id, j), nc),
{
    let q = kid(a, id, j);
    assert forall|i: int| #[trigger] inn(a, q, i) && a[i].kind is Const implies a[i].kind->Const_0 < nc by { inn_kid(a, id, j, i); }
}
/// the next operand is still as it was
pub proof fn kids_pre<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a: Seq<ArenaNode<D>>, ch: Seq<usize>, c: Seq<T>, k: int, cfg: CombineCfg)
    requires wf(a0, id), cv(a0, id, c0.len() as int), kids_st(a0, id, c0, a, ch, c, k, cfg), 0 <= k < nk(a0, id),
    ensures ch[k] == kid(a0, id, k), wf(a, ch[k] as int), cv(a, ch[k] as int, c.len() as int), ch[k] < id,
        term_at(a, ch[k] as int) == term_at(a0, ch[k] as int), forall|i: int| #[trigger] inn(a, ch[k] as int, i) == inn(a0, ch[k] as int, i),
        forall|i: int| #[trigger] inn(a0, ch[k] as int, i) ==> a[i] == a0[i],
{
    let q = kid(a0, id, k);
    assert(ch[k] == q);
    cv_kid(a0, id, k, c0.len() as int);
    inn_range(a0, q);
    assert forall|i: int| #[trigger] inn(a0, q, i) implies a[i] == a0[i] by {
        assert(!touched(a0, id, k, i)) by {
            if touched(a0, id, k, i) { let j = choose|j: int| 0 <= j < k && inn(a0, #[trigger] kid(a0, id, j), i); assert(inn(a0, kid(a0, id, j), i) && inn(a0, kid(a0, id, k), i)); }
        }
    }
    frame(a0, a, q);
    assert forall|i: int| #[trigger] inn(a, q, i) && a[i].kind is Const implies a[i].kind->Const_0 < c.len() by { assert(inn(a0, q, i)); }
}
pub proof fn kids_step<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a: Seq<ArenaNode<D>>, ch: Seq<usize>, c: Seq<T>, k: int, a1: Seq<ArenaNode<D>>, r: usize, c1: Seq<T>, cfg: CombineCfg)
    requires wf(a0, id), cv(a0, id, c0.len() as int), kids_st(a0, id, c0, a, ch, c, k, cfg), 0 <= k < nk(a0, id), comb(a, ch[k] as int, c, a1, r as int, c1, cfg),
    ensures kids_st(a0, id, c0, a1, ch.update(k, r), c1, k + 1, cfg),
{
    kids_pre(a0, id, c0, a, ch, c, k, cfg);
    let q = kid(a0, id, k);
    let ch1 = ch.update(k, r);
    cv_kid(a0, id, k, c0.len() as int);
    assert forall|i: int| 0 <= i < c0.len() implies #[trigger] c1[i] == c0[i] by { assert(c[i] == c0[i]); }
    assert forall|i: int| 0 <= i < a0.len() && !touched(a0, id, k + 1, i) implies #[trigger] a1[i] == a0[i] by {
        assert(!inn(a0, q, i)) by { if inn(a0, kid(a0, id, k), i) { assert(touched(a0, id, k + 1, i)); } }
        assert(!touched(a0, id, k, i)) by { if touched(a0, id, k, i) { let j = choose|j: int| 0 <= j < k && inn(a0, #[trigger] kid(a0, id, j), i); assert(inn(a0, kid(a0, id, j), i)); assert(touched(a0, id, k + 1, i)); } }
        assert(!inn(a, q, i));
        assert(a[i] == a0[i]);
    }
    assert forall|j: int| 0 <= j < k + 1 implies stands(a0, kid(a0, id, j), c0, a1, (#[trigger] ch1[j]) as int, c1, cfg) by {
        let p = kid(a0, id, j);
        if j < k {
            let s = ch[j] as int;
            assert(ch1[j] == ch[j]);
            assert(stands(a0, p, c0, a, s, c, cfg));
            inn_range(a, s);
            assert forall|i: int| #[trigger] inn(a, s, i) implies a1[i] == a[i] by {
                assert(inn(a0, p, i));
                assert(!inn(a0, q, i)) by { if inn(a0, q, i) { assert(inn(a0, kid(a0, id, j), i) && inn(a0, kid(a0, id, k), i)); } }
                assert(!inn(a, q, i));
            }
            frame(a, a1, s);
            assert forall|i: int| #[trigger] inn(a1, s, i) implies inn(a0, p, i) && head_ok(a0[i], a1[i]) by { assert(inn(a, s, i)); }
            assert(cv(a1, s, c1.len() as int)) by { assert forall|i: int| #[trigger] inn(a1, s, i) && a1[i].kind is Const implies a1[i].kind->Const_0 < c1.len() by { assert(inn(a, s, i)); } }
            assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) implies same_v(ev, term_at(a0, p), c0, term_at(a1, s), c1) by {
                assert(same_v(ev, term_at(a0, p), c0, term_at(a, s), c));
                vt_ext(ev, a, s, c, c1);
                assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(a1, s), env, c1) == vt(ev, term_at(a0, p), env, c0) by { assert(vt(ev, term_at(a, s), env, c1) == vt(ev, term_at(a, s), env, c)); assert(vt(ev, term_at(a, s), env, c) == vt(ev, term_at(a0, p), env, c0)); }
            }
        } else {
            assert(ch1[j] == r);
            assert(stands(a, q, c, a1, r as int, c1, cfg));
            assert forall|i: int| #[trigger] inn(a1, r as int, i) implies inn(a0, p, i) && head_ok(a0[i], a1[i]) by { assert(inn(a, q, i)); assert(inn(a0, q, i)); assert(a[i] == a0[i]); }
            assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) implies same_v(ev, term_at(a0, p), c0, term_at(a1, r as int), c1) by {
                assert(same_v(ev, term_at(a, q), c, term_at(a1, r as int), c1));
                vt_ext(ev, a0, q, c0, c);
                assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(a1, r as int), env, c1) == vt(ev, term_at(a0, p), env, c0) by { assert(vt(ev, term_at(a, q), env, c) == vt(ev, term_at(a0, q), env, c)); assert(vt(ev, term_at(a0, q), env, c) == vt(ev, term_at(a0, q), env, c0)); }
            }
        }
    }
}
/// with all operands combined and written back, the node stands for what it was
pub proof fn kids_done<T: Float, const D: usize>(a0: Seq<ArenaNode<D>>, id: int, c0: Seq<T>, a: Seq<ArenaNode<D>>, ch: Seq<usize>, c: Seq<T>, b: Seq<ArenaNode<D>>, cfg: CombineCfg)
    requires
        wf(a0, id), cv(a0, id, c0.len() as int), a0[id].kind is Op, kids_st(a0, id, c0, a, ch, c, nk(a0, id), cfg),
        b.len() == a.len(), forall|i: int| 0 <= i < a.len() && i != id ==> #[trigger] b[i] == a[i],
        b[id].kind is Op, pn(b[id]) == pn(a0[id]), b[id].kind->children@ == ch,
    ensures comb(a0, id, c0, b, id, c, cfg),
{
    let n = nk(a0, id);
    let op = a0[id].kind->op;
    assert(inn(a0, id, id));
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] kid(b, id, j) < id && wf(b, kid(b, id, j)) && stands(a0, kid(a0, id, j), c0, b, kid(b, id, j), c, cfg) by {
        let p = kid(a0, id, j);
        let s = ch[j] as int;
        assert(kid(b, id, j) == s);
        assert(stands(a0, p, c0, a, s, c, cfg));
        inn_range(a, s);
        frame(a, b, s);
        assert forall|i: int| #[trigger] inn(b, s, i) implies inn(a0, p, i) && head_ok(a0[i], b[i]) by { assert(inn(a, s, i)); }
        assert(cv(b, s, c.len() as int)) by { assert forall|i: int| #[trigger] inn(b, s, i) && b[i].kind is Const implies b[i].kind->Const_0 < c.len() by { assert(inn(a, s, i)); } }
    }
    assert forall|j: int, l: int, i: int| 0 <= j < l < n implies !(#[trigger] inn(b, kid(b, id, j), i) && #[trigger] inn(b, kid(b, id, l), i)) by {
        if inn(b, kid(b, id, j), i) && inn(b, kid(b, id, l), i) {
            assert(stands(a0, kid(a0, id, j), c0, b, kid(b, id, j), c, cfg));
            assert(stands(a0, kid(a0, id, l), c0, b, kid(b, id, l), c, cfg));
            assert(inn(a0, kid(a0, id, j), i) && inn(a0, kid(a0, id, l), i));
        }
    }
    assert(wf(b, id));
    assert forall|i: int| #[trigger] inn(b, id, i) implies inn(a0, id, i) && head_ok(a0[i], b[i]) && (b[i].kind is Const ==> b[i].kind->Const_0 < c.len()) by {
        if i != id {
            let j = choose|j: int| 0 <= j < nk(b, id) && 0 <= #[trigger] kid(b, id, j) < id && inn(b, kid(b, id, j), i);
            assert(stands(a0, kid(a0, id, j), c0, b, kid(b, id, j), c, cfg));
            inn_kid(a0, id, j, i);
        }
    }
    assert forall|i: int| 0 <= i < a0.len() && !inn(a0, id, i) implies #[trigger] b[i] == a0[i] by {
        assert(!touched(a0, id, n, i)) by { if touched(a0, id, n, i) { let j = choose|j: int| 0 <= j < n && inn(a0, #[trigger] kid(a0, id, j), i); inn_kid(a0, id, j, i); } }
        assert(a[i] == a0[i]);
    }
    tkids_at(a0, id, n); tkids_at(b, id, n);
    let t0 = tkids(a0, id, n); let t1 = tkids(b, id, n);
    assert forall|j: int| 0 <= j < n implies tsize(#[trigger] t1[j]) <= tsize(t0[j]) by { let p = kid(b, id, j); assert(stands(a0, kid(a0, id, j), c0, b, p, c, cfg)); }
    sizes_le(t1, t0);
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) implies same_v(ev, term_at(a0, id), c0, term_at(b, id), c) by {
        assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(b, id), env, c) == vt(ev, term_at(a0, id), env, c0) by {
            vts_at(ev, t0, env, c0); vts_at(ev, t1, env, c);
            assert forall|j: int| 0 <= j < n implies #[trigger] vts(ev, t1, env, c)[j] == vts(ev, t0, env, c0)[j] by {
                let p = kid(b, id, j);
                assert(stands(a0, kid(a0, id, j), c0, b, p, c, cfg));
                assert(vt(ev, term_at(b, p), env, c) == vt(ev, term_at(a0, kid(a0, id, j)), env, c0));
            }
            assert(vts(ev, t1, env, c) =~= vts(ev, t0, env, c0));
        }
    }
}
// ---- rewriting a node with two operands ----
pub open spec fn is2<const D: usize>(b: Seq<ArenaNode<D>>, id: int, op: u16, l: int, r: int) -> bool {
    b[id].kind is Op && b[id].kind->arity == 2 && b[id].kind->op == op && kid(b, id, 0) == l && kid(b, id, 1) == r && D >= 2
}
pub proof fn bin<const D: usize>(b: Seq<ArenaNode<D>>, id: int, op: u16, l: int, r: int)
    requires 0 <= id < b.len(), is2(b, id, op, l, r), 0 <= l < id, 0 <= r < id, wf(b, l), wf(b, r), forall|i: int| !(#[trigger] inn(b, l, i) && #[trigger] inn(b, r, i)),
    ensures wf(b, id), forall|i: int| #[trigger] inn(b, id, i) <==> (i == id || inn(b, l, i) || inn(b, r, i)),
        term_at(b, id) == Term::Op(2, op, seq![term_at(b, l), term_at(b, r)]),
{
    assert forall|i: int| #[trigger] inn(b, id, i) <==> (i == id || inn(b, l, i) || inn(b, r, i)) by {
        if inn(b, l, i) { inn_kid(b, id, 0, i); }
        if inn(b, r, i) { inn_kid(b, id, 1, i); }
        if inn(b, id, i) && i != id {
            let j = choose|j: int| 0 <= j < nk(b, id) && 0 <= #[trigger] kid(b, id, j) < id && inn(b, kid(b, id, j), i);
            assert(j == 0 || j == 1);
        }
    }
    assert forall|j: int, m: int, i: int| 0 <= j < m < nk(b, id) implies !(#[trigger] inn(b, kid(b, id, j), i) && #[trigger] inn(b, kid(b, id, m), i)) by { assert(j == 0 && m == 1); }
    assert forall|j: int| 0 <= j < nk(b, id) implies 0 <= #[trigger] kid(b, id, j) < id && wf(b, kid(b, id, j)) by { assert(j == 0 || j == 1); }
    tkids_at(b, id, 2);
    assert(tkids(b, id, 2) =~= seq![term_at(b, l), term_at(b, r)]) by { assert(tkids(b, id, 2)[0] == term_at(b, kid(b, id, 0))); assert(tkids(b, id, 2)[1] == term_at(b, kid(b, id, 1))); }
}
pub proof fn unbin<const D: usize>(b: Seq<ArenaNode<D>>, id: int, op: u16, l: int, r: int)
    requires wf(b, id), is2(b, id, op, l, r),
    ensures 0 <= l < id, 0 <= r < id, wf(b, l), wf(b, r), forall|i: int| !(#[trigger] inn(b, l, i) && #[trigger] inn(b, r, i)),
        forall|i: int| #[trigger] inn(b, id, i) <==> (i == id || inn(b, l, i) || inn(b, r, i)),
        term_at(b, id) == Term::Op(2, op, seq![term_at(b, l), term_at(b, r)]),
{
    assert(nk(b, id) == 2);
    assert(kid(b, id, 0) == l && kid(b, id, 1) == r);
    assert forall|i: int| !(#[trigger] inn(b, l, i) && #[trigger] inn(b, r, i)) by { assert(!(inn(b, kid(b, id, 0), i) && inn(b, kid(b, id, 1), i))); }
    bin(b, id, op, l, r);
}
pub proof fn vt2<T>(ev: spec_fn(u8, u16, Seq<T>) -> T, op: u16, s: Term, t: Term, env: spec_fn(u16) -> T, c: Seq<T>)
    ensures vt(ev, Term::Op(2, op, seq![s, t]), env, c) == ev(2, op, seq![vt(ev, s, env, c), vt(ev, t, env, c)]),
{
    let ts = seq![s, t];
    vts_at(ev, ts, env, c);
    assert(vts(ev, ts, env, c)[0] == vt(ev, ts[0], env, c)); assert(vts(ev, ts, env, c)[1] == vt(ev, ts[1], env, c));
    assert(vts(ev, ts, env, c) =~= seq![vt(ev, s, env, c), vt(ev, t, env, c)]);
}
pub proof fn size2(op: u16, s: Term, t: Term)
    ensures tsize(Term::Op(2, op, seq![s, t])) == 1 + tsize(s) + tsize(t),
{
    let ts = seq![s, t];
    assert(ts.drop_last() =~= seq![s]); assert(ts.drop_last().drop_last() =~= Seq::<Term>::empty());
    assert(flatten_all(ts.drop_last()) =~= flatten(s)) by { assert(flatten_all(ts.drop_last()) == flatten_all(ts.drop_last().drop_last()) + flatten(s)); }
    assert(flatten_all(ts) == flatten_all(ts.drop_last()) + flatten(t));
}
/// node id takes the operands l and r, one of which (leaf) becomes the constant `new`
pub proof fn repl<const D: usize>(a: Seq<ArenaNode<D>>, b: Seq<ArenaNode<D>>, id: int, op: u16, l: int, r: int, leaf: int, new: u16)
    requires
        b.len() == a.len(), 0 <= id < a.len(), is2(b, id, op, l, r), 0 <= l < id, 0 <= r < id, wf(a, l), wf(a, r), forall|i: int| !(#[trigger] inn(a, l, i) && #[trigger] inn(a, r, i)),
        leaf == l || leaf == r, a[leaf].kind is Const, b[leaf].kind == ArenaNodeKind::<D>::Const(new),
        forall|i: int| 0 <= i < a.len() && i != leaf && i != id ==> #[trigger] b[i] == a[i],
    ensures
        wf(b, id), forall|i: int| #[trigger] inn(b, id, i) <==> (i == id || inn(a, l, i) || inn(a, r, i)),
        term_at(b, id) == Term::Op(2, op, seq![if leaf == l { Term::Const(new) } else { term_at(a, l) }, if leaf == r { Term::Const(new) } else { term_at(a, r) }]),
{
    let o = if leaf == l { r } else { l };
    assert(inn(a, l, l) && inn(a, r, r));
    inn_range(a, o);
    assert(!inn(a, o, leaf)) by { if inn(a, o, leaf) { assert(inn(a, l, leaf) && inn(a, r, leaf)); } }
    frame(a, b, o);
    assert forall|i: int| #[trigger] inn(a, leaf, i) implies i == leaf by {}
    assert forall|i: int| #[trigger] inn(b, leaf, i) implies i == leaf by {}
    assert(inn(b, leaf, leaf) && inn(a, leaf, leaf));
    assert(wf(b, leaf));
    assert forall|i: int| !(#[trigger] inn(b, l, i) && #[trigger] inn(b, r, i)) by {
        if inn(b, l, i) && inn(b, r, i) { assert(inn(b, leaf, i) && inn(b, o, i)); assert(i == leaf); assert(inn(a, o, leaf)); }
    }
    bin(b, id, op, l, r);
}
/// the node rewritten is as good as `id` was, if its value is
pub proof fn repl_comb<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, b: Seq<ArenaNode<D>>, root: int, op: u16, l: int, r: int, leaf: int, v: T, cfg: CombineCfg)
    requires
        wf(a, id), cv(a, id, c.len() as int), c.len() <= 65535,
        b.len() == a.len(), 0 <= root <= id, inn(a, id, root), is2(b, root, op, l, r), 0 <= l < root, 0 <= r < root, wf(a, l), wf(a, r), forall|i: int| !(#[trigger] inn(a, l, i) && #[trigger] inn(a, r, i)),
        leaf == l || leaf == r, a[leaf].kind is Const, b[leaf].kind == ArenaNodeKind::<D>::Const(c.len() as u16),
        forall|i: int| 0 <= i < a.len() && i != leaf && i != root ==> #[trigger] b[i] == a[i],
        pn(b[root]) == pn(a[root]),
        forall|i: int| #[trigger] inn(a, l, i) ==> inn(a, id, i), forall|i: int| #[trigger] inn(a, r, i) ==> inn(a, id, i),
        tsize(term_at(a, id)) >= 2 + tsize(term_at(a, if leaf == l { r } else { l })),
        // the value: x is the operand that stays
        forall|ev: spec_fn(u8, u16, Seq<T>) -> T, env: spec_fn(u16) -> T| means(ev, cfg) ==> #[trigger] vt(ev, term_at(a, id), env, c) ==
            ev(2, op, if leaf == l { seq![v, vt(ev, term_at(a, r), env, c)] } else { seq![vt(ev, term_at(a, l), env, c), v] }),
        l != r,
    ensures comb(a, id, c, b, root, c.push(v), cfg),
{
    let c2 = c.push(v);
    let new = c.len() as u16;
    let o = if leaf == l { r } else { l };
    repl(a, b, root, op, l, r, leaf, new);
    assert(inn(a, leaf, leaf));
    assert forall|i: int| #[trigger] inn(b, root, i) implies inn(a, id, i) && head_ok(a[i], b[i]) && (b[i].kind is Const ==> b[i].kind->Const_0 < c2.len()) by {
        inn_range(a, id);
        if i != root && i != leaf { assert(b[i] == a[i]); }
    }
    assert forall|i: int| 0 <= i < a.len() && !inn(a, id, i) implies #[trigger] b[i] == a[i] by { }
    let to = term_at(a, o);
    size2(op, Term::Const(new), to); size2(op, to, Term::Const(new));
    assert(cv(a, o, c.len() as int)) by { assert forall|i: int| #[trigger] inn(a, o, i) && a[i].kind is Const implies a[i].kind->Const_0 < c.len() by { assert(inn(a, id, i)); } }
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) implies same_v(ev, term_at(a, id), c, term_at(b, root), c2) by {
        vt_ext(ev, a, o, c, c2);
        assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(b, root), env, c2) == vt(ev, term_at(a, id), env, c) by {
            vt2(ev, op, Term::Const(new), to, env, c2); vt2(ev, op, to, Term::Const(new), env, c2);
            assert(vt(ev, to, env, c2) == vt(ev, to, env, c));
            assert(vt(ev, Term::Const(new), env, c2) == v);
            assert(vt(ev, term_at(a, id), env, c) == ev(2, op, if leaf == l { seq![v, vt(ev, term_at(a, r), env, c)] } else { seq![vt(ev, term_at(a, l), env, c), v] }));
        }
    }
}
=== raw
// ---- the rewrites of one node, operands already combined ----
pub open spec fn only<const D: usize>(a: Seq<ArenaNode<D>>, b: Seq<ArenaNode<D>>, p: int, q: int) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() && i != p && i != q ==> #[trigger] b[i] == a[i]
}
pub open spec fn isc<const D: usize>(a: Seq<ArenaNode<D>>, i: int) -> bool { a[i].kind is Const }
pub open spec fn cst<T, const D: usize>(a: Seq<ArenaNode<D>>, i: int, c: Seq<T>) -> T { c[a[i].kind->Const_0 as int] }
pub open spec fn comm(cfg: CombineCfg, op: u16) -> bool { cfg.add_id == Some(op) || cfg.mul_id == Some(op) }
pub open spec fn both<T: Float>(cfg: CombineCfg, op: u16, x: T, y: T) -> T { if cfg.add_id == Some(op) { x.add_spec(y) } else { x.mul_spec(y) } }
/// the constant v was stored at `leaf`
pub open spec fn stored<T, const D: usize>(a: Seq<ArenaNode<D>>, c: Seq<T>, b: Seq<ArenaNode<D>>, c2: Seq<T>, leaf: int, v: T) -> bool {
    isc(a, leaf) && c.len() <= 65535 && b[leaf].kind == ArenaNodeKind::<D>::Const(c.len() as u16) && c2 == c.push(v)
}
/// (c1 . x) . c2 or (x . c1) . c2: the two constants become one at the position of the lower
pub open spec fn merge<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, c: Seq<T>, b: Seq<ArenaNode<D>>, c2: Seq<T>, cfg: CombineCfg, op: u16, l: int, t: int) -> bool {
    let b0 = kid(a, l, 0); let b1 = kid(a, l, 1);
    comm(cfg, op) && isc(a, t) && is2(a, l, op, b0, b1) && (
        (only(a, b, b0, b0) && stored(a, c, b, c2, b0, both(cfg, op, cst(a, b0, c), cst(a, t, c))))
        || (only(a, b, b1, b1) && stored(a, c, b, c2, b1, both(cfg, op, cst(a, b1, c), cst(a, t, c)))))
}
pub open spec fn local<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, b: Seq<ArenaNode<D>>, r: int, c2: Seq<T>, cfg: CombineCfg) -> bool {
    let op = a[id].kind->op; let k0 = kid(a, id, 0); let k1 = kid(a, id, 1);
    let l0 = kid(a, k0, 0); let l1 = kid(a, k0, 1); let r0 = kid(a, k1, 0); let r1 = kid(a, k1, 1);
    let two = a[id].kind is Op && a[id].kind->arity == 2 && D >= 2;
    let sub = two && cfg.sub_id == Some(op) && r == id;
    ||| b == a && c2 == c && r == id
    ||| two && c2 == c && r == id && only(a, b, id, id) && (is2(b, id, op, k0, k1) || (is2(b, id, op, k1, k0) && comm(cfg, op)))
    ||| two && r == k0 && merge(a, c, b, c2, cfg, op, k0, k1)
    ||| two && r == k1 && merge(a, c, b, c2, cfg, op, k1, k0)
    ||| sub && isc(a, k0) && is2(a, k1, op, r0, r1) && only(a, b, r0, id) && is2(b, id, op, r1, r0) && stored(a, c, b, c2, r0, cst(a, r0, c).sub_spec(cst(a, k0, c)))
    ||| sub && isc(a, k0) && is2(a, k1, op, r0, r1) && isc(a, r1) && only(a, b, k0, id) && is2(b, id, op, k0, r0) && stored(a, c, b, c2, k0, cst(a, k0, c).add_spec(cst(a, r1, c)))
    ||| sub && isc(a, k1) && is2(a, k0, op, l0, l1) && only(a, b, l0, id) && is2(b, id, op, l0, l1) && stored(a, c, b, c2, l0, cst(a, l0, c).sub_spec(cst(a, k1, c)))
    ||| sub && isc(a, k1) && is2(a, k0, op, l0, l1) && only(a, b, l1, id) && is2(b, id, op, l0, l1) && stored(a, c, b, c2, l1, cst(a, l1, c).add_spec(cst(a, k1, c)))
}
pub proof fn ev_at<T: Float>(ev: spec_fn(u8, u16, Seq<T>) -> T, cfg: CombineCfg, op: u16, s: Seq<T>)
    requires means(ev, cfg), s.len() == 2,
    ensures
        cfg.add_id == Some(op) ==> ev(2, op, s) == s[0].add_spec(s[1]),
        cfg.mul_id == Some(op) ==> ev(2, op, s) == s[0].mul_spec(s[1]),
        cfg.sub_id == Some(op) ==> ev(2, op, s) == s[0].sub_spec(s[1]),
{
    let e = ev(2, op, s);
    if let Some(o) = cfg.add_id { if o == op { assert(ev(2, o, s) == s[0].add_spec(s[1])); } }
    if let Some(o) = cfg.mul_id { if o == op { assert(ev(2, o, s) == s[0].mul_spec(s[1])); } }
    if let Some(o) = cfg.sub_id { if o == op { assert(ev(2, o, s) == s[0].sub_spec(s[1])); } }
}
pub proof fn ev2<T: Float>(ev: spec_fn(u8, u16, Seq<T>) -> T, cfg: CombineCfg, op: u16, x: T, y: T)
    requires means(ev, cfg),
    ensures
        cfg.add_id == Some(op) ==> ev(2, op, seq![x, y]) == x.add_spec(y),
        cfg.mul_id == Some(op) ==> ev(2, op, seq![x, y]) == x.mul_spec(y),
        cfg.sub_id == Some(op) ==> ev(2, op, seq![x, y]) == x.sub_spec(y),
{
    ev_at(ev, cfg, op, seq![x, y]);
}
pub proof fn rewire<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, b: Seq<ArenaNode<D>>, cfg: CombineCfg, op: u16, k0: int, k1: int)
    requires wf(a, id), cv(a, id, c.len() as int), is2(a, id, op, k0, k1), only(a, b, id, id), is2(b, id, op, k0, k1) || (is2(b, id, op, k1, k0) && comm(cfg, op)),
    ensures comb(a, id, c, b, id, c, cfg),
{
    unbin(a, id, op, k0, k1);
    inn_range(a, k0); inn_range(a, k1);
    frame(a, b, k0); frame(a, b, k1);
    assert forall|i: int| !(#[trigger] inn(b, k0, i) && #[trigger] inn(b, k1, i)) by { assert(inn(b, k0, i) == inn(a, k0, i)); assert(inn(b, k1, i) == inn(a, k1, i)); }
    let swapped = !is2(b, id, op, k0, k1);
    if swapped { bin(b, id, op, k1, k0); } else { bin(b, id, op, k0, k1); }
    assert forall|i: int| #[trigger] inn(b, id, i) implies inn(a, id, i) && head_ok(a[i], b[i]) && (b[i].kind is Const ==> b[i].kind->Const_0 < c.len()) by { if i != id { assert(inn(a, k0, i) || inn(a, k1, i)); assert(b[i] == a[i]); } }
    let t0 = term_at(a, k0); let t1 = term_at(a, k1);
    size2(op, t0, t1); size2(op, t1, t0);
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) implies same_v(ev, term_at(a, id), c, term_at(b, id), c) by {
        assert forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, term_at(b, id), env, c) == vt(ev, term_at(a, id), env, c) by {
            vt2(ev, op, t0, t1, env, c); vt2(ev, op, t1, t0, env, c);
            ev2(ev, cfg, op, vt(ev, t0, env, c), vt(ev, t1, env, c)); ev2(ev, cfg, op, vt(ev, t1, env, c), vt(ev, t0, env, c));
            if swapped { l_ac(vt(ev, t0, env, c), vt(ev, t1, env, c)); l_mc(vt(ev, t0, env, c), vt(ev, t1, env, c)); }
        }
    }
}
pub proof fn merged<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, b: Seq<ArenaNode<D>>, c2: Seq<T>, cfg: CombineCfg, op: u16, l: int, t: int)
    requires wf(a, id), cv(a, id, c.len() as int), is2(a, id, op, l, t) || is2(a, id, op, t, l), merge(a, c, b, c2, cfg, op, l, t),
    ensures comb(a, id, c, b, l, c2, cfg),
{
    let swapped = !is2(a, id, op, l, t);
    if swapped { unbin(a, id, op, t, l); } else { unbin(a, id, op, l, t); }
    let b0 = kid(a, l, 0); let b1 = kid(a, l, 1);
    unbin(a, l, op, b0, b1);
    assert(inn(a, l, l)); assert(inn(a, l, b0)) by { assert(inn(a, b0, b0)); } assert(inn(a, l, b1)) by { assert(inn(a, b1, b1)); }
    let first = only(a, b, b0, b0) && stored(a, c, b, c2, b0, both(cfg, op, cst(a, b0, c), cst(a, t, c)));
    let leaf = if first { b0 } else { b1 };
    let o = if first { b1 } else { b0 };
    let vt_ = cst(a, t, c); let vl = cst(a, leaf, c);
    let v = both(cfg, op, vl, vt_);
    assert forall|i: int| #[trigger] inn(a, b0, i) implies inn(a, id, i) by { assert(inn(a, l, i)); }
    assert forall|i: int| #[trigger] inn(a, b1, i) implies inn(a, id, i) by { assert(inn(a, l, i)); }
    assert(inn(a, id, l));
    assert(b0 != b1) by { if b0 == b1 { assert(inn(a, b0, b0) && inn(a, b1, b0)); } }
    let (tl, tt, t0, t1) = (term_at(a, l), term_at(a, t), term_at(a, b0), term_at(a, b1));
    size2(op, tl, tt); size2(op, tt, tl); size2(op, t0, t1);
    depth_le_size(tt); depth_le_size(t0); depth_le_size(t1);
    assert(b[l] == a[l]);
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T, env: spec_fn(u16) -> T| means(ev, cfg) implies #[trigger] vt(ev, term_at(a, id), env, c) ==
        ev(2, op, if leaf == b0 { seq![v, vt(ev, term_at(a, b1), env, c)] } else { seq![vt(ev, term_at(a, b0), env, c), v] }) by {
        let x = vt(ev, term_at(a, o), env, c);
        vt2(ev, op, tl, tt, env, c); vt2(ev, op, tt, tl, env, c); vt2(ev, op, t0, t1, env, c);
        assert(vt(ev, tt, env, c) == vt_);
        assert(vt(ev, term_at(a, leaf), env, c) == vl);
        let y = vt(ev, tl, env, c);
        ev2(ev, cfg, op, vl, x); ev2(ev, cfg, op, x, vl); ev2(ev, cfg, op, y, vt_); ev2(ev, cfg, op, vt_, y); ev2(ev, cfg, op, v, x); ev2(ev, cfg, op, x, v);
        if cfg.add_id == Some(op) {
            // (vl + x) + vt = (vl + vt) + x
            l_aa(vl, x, vt_); l_ac(x, vt_); l_aa(vl, vt_, x); l_ac(vl, x); l_ac(vl.add_spec(x), vt_); l_ac(vl.add_spec(vt_), x);
        } else {
            l_ma(vl, x, vt_); l_mc(x, vt_); l_ma(vl, vt_, x); l_mc(vl, x); l_mc(vl.mul_spec(x), vt_); l_mc(vl.mul_spec(vt_), x);
        }
    }
    repl_comb(a, id, c, b, l, op, b0, b1, leaf, v, cfg);
}
pub proof fn subbed<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, b: Seq<ArenaNode<D>>, c2: Seq<T>, cfg: CombineCfg, op: u16, k0: int, k1: int, which: int)
    requires
        wf(a, id), cv(a, id, c.len() as int), is2(a, id, op, k0, k1), cfg.sub_id == Some(op), 1 <= which <= 4,
        which == 1 ==> isc(a, k0) && is2(a, k1, op, kid(a, k1, 0), kid(a, k1, 1)) && only(a, b, kid(a, k1, 0), id) && is2(b, id, op, kid(a, k1, 1), kid(a, k1, 0)) && stored(a, c, b, c2, kid(a, k1, 0), cst(a, kid(a, k1, 0), c).sub_spec(cst(a, k0, c))),
        which == 2 ==> isc(a, k0) && is2(a, k1, op, kid(a, k1, 0), kid(a, k1, 1)) && isc(a, kid(a, k1, 1)) && only(a, b, k0, id) && is2(b, id, op, k0, kid(a, k1, 0)) && stored(a, c, b, c2, k0, cst(a, k0, c).add_spec(cst(a, kid(a, k1, 1), c))),
        which == 3 ==> isc(a, k1) && is2(a, k0, op, kid(a, k0, 0), kid(a, k0, 1)) && only(a, b, kid(a, k0, 0), id) && is2(b, id, op, kid(a, k0, 0), kid(a, k0, 1)) && stored(a, c, b, c2, kid(a, k0, 0), cst(a, kid(a, k0, 0), c).sub_spec(cst(a, k1, c))),
        which == 4 ==> isc(a, k1) && is2(a, k0, op, kid(a, k0, 0), kid(a, k0, 1)) && only(a, b, kid(a, k0, 1), id) && is2(b, id, op, kid(a, k0, 0), kid(a, k0, 1)) && stored(a, c, b, c2, kid(a, k0, 1), cst(a, kid(a, k0, 1), c).add_spec(cst(a, k1, c))),
    ensures comb(a, id, c, b, id, c2, cfg),
{
    unbin(a, id, op, k0, k1);
    let m = if which <= 2 { k1 } else { k0 };   // the nested subtraction
    let q = if which <= 2 { k0 } else { k1 };   // the constant beside it
    let m0 = kid(a, m, 0); let m1 = kid(a, m, 1);
    unbin(a, m, op, m0, m1);
    assert(inn(a, m0, m0) && inn(a, m1, m1) && inn(a, q, q) && inn(a, m, m));
    assert forall|i: int| #[trigger] inn(a, m0, i) implies inn(a, id, i) by { assert(inn(a, m, i)); }
    assert forall|i: int| #[trigger] inn(a, m1, i) implies inn(a, id, i) by { assert(inn(a, m, i)); }
    assert forall|i: int| #[trigger] inn(a, q, i) implies inn(a, id, i) by { }
    assert(inn(a, id, id));
    assert(m0 != m1) by { if m0 == m1 { assert(inn(a, m0, m0) && inn(a, m1, m0)); } }
    assert(inn(a, m, m0) && inn(a, m, m1));
    assert(q != m0) by { if q == m0 { assert(inn(a, k0, m0) && inn(a, k1, m0)); } }
    assert(q != m1) by { if q == m1 { assert(inn(a, k0, m1) && inn(a, k1, m1)); } }
    assert forall|i: int| !(#[trigger] inn(a, q, i) && #[trigger] inn(a, m0, i)) by { if inn(a, q, i) && inn(a, m0, i) { assert(inn(a, m, i)); assert(inn(a, k0, i) && inn(a, k1, i)); } }
    let (tq, tm, t0, t1) = (term_at(a, q), term_at(a, m), term_at(a, m0), term_at(a, m1));
    size2(op, tq, tm); size2(op, tm, tq); size2(op, t0, t1);
    depth_le_size(tq); depth_le_size(t0); depth_le_size(t1);
    let (l, r, leaf) = if which == 1 { (m1, m0, m0) } else if which == 2 { (q, m0, q) } else if which == 3 { (m0, m1, m0) } else { (m0, m1, m1) };
    let o = if leaf == l { r } else { l };
    let vq = cst(a, q, c);
    let vm = cst(a, if which == 1 || which == 3 { m0 } else { m1 }, c);
    let v = if which == 1 { vm.sub_spec(vq) } else if which == 2 { vq.add_spec(vm) } else if which == 3 { vm.sub_spec(vq) } else { vm.add_spec(vq) };
    assert(c2 == c.push(v));
    assert forall|i: int| !(#[trigger] inn(a, l, i) && #[trigger] inn(a, r, i)) by { }
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T, env: spec_fn(u16) -> T| means(ev, cfg) implies #[trigger] vt(ev, term_at(a, id), env, c) ==
        ev(2, op, if leaf == l { seq![v, vt(ev, term_at(a, r), env, c)] } else { seq![vt(ev, term_at(a, l), env, c), v] }) by {
        let x = vt(ev, term_at(a, o), env, c);
        vt2(ev, op, tq, tm, env, c); vt2(ev, op, tm, tq, env, c); vt2(ev, op, t0, t1, env, c);
        assert(vt(ev, tq, env, c) == vq);
        let y = vt(ev, tm, env, c);
        ev2(ev, cfg, op, vm, x); ev2(ev, cfg, op, x, vm); ev2(ev, cfg, op, y, vq); ev2(ev, cfg, op, vq, y); ev2(ev, cfg, op, v, x); ev2(ev, cfg, op, x, v);
        if which == 1 { sub_laws(vq, vm, x); } else if which == 2 { sub_laws(vq, vm, x); } else { sub_laws(vm, vq, x); }
    }
    repl_comb(a, id, c, b, id, op, l, r, leaf, v, cfg);
}
/// a constant below, or two below, reads an existing constant
pub proof fn pair_facts<const D: usize>(a: Seq<ArenaNode<D>>, id: int, op: u16, nc: int)
    requires wf(a, id), cv(a, id, nc), is2(a, id, op, kid(a, id, 0), kid(a, id, 1)),
    ensures
        forall|j: int| 0 <= j < 2 ==> 0 <= #[trigger] kid(a, id, j) < id && (isc(a, kid(a, id, j)) ==> a[kid(a, id, j)].kind->Const_0 < nc),
        forall|j: int, l: int| 0 <= j < 2 && 0 <= l < 2 && a[kid(a, id, j)].kind is Op && a[kid(a, id, j)].kind->arity == 2 ==>
            0 <= #[trigger] kid(a, kid(a, id, j), l) < id && kid(a, kid(a, id, j), l) < kid(a, id, j) && (isc(a, kid(a, kid(a, id, j), l)) ==> a[kid(a, kid(a, id, j), l)].kind->Const_0 < nc),
{
    assert forall|j: int| 0 <= j < 2 implies 0 <= #[trigger] kid(a, id, j) < id && (isc(a, kid(a, id, j)) ==> a[kid(a, id, j)].kind->Const_0 < nc) by {
        let q = kid(a, id, j);
        assert(inn(a, q, q)); inn_kid(a, id, j, q);
    }
    assert forall|j: int, l: int| 0 <= j < 2 && 0 <= l < 2 && a[kid(a, id, j)].kind is Op && a[kid(a, id, j)].kind->arity == 2 implies
            0 <= #[trigger] kid(a, kid(a, id, j), l) < id && kid(a, kid(a, id, j), l) < kid(a, id, j) && (isc(a, kid(a, kid(a, id, j), l)) ==> a[kid(a, kid(a, id, j), l)].kind->Const_0 < nc) by {
        let q = kid(a, id, j); let p = kid(a, q, l);
        assert(wf(a, q)); assert(nk(a, q) == 2);
        assert(inn(a, p, p)); inn_kid(a, q, l, p); inn_kid(a, id, j, p);
    }
}
/// every way the code leaves a node satisfies the contract
pub proof fn local_comb<T: Float, const D: usize>(a: Seq<ArenaNode<D>>, id: int, c: Seq<T>, b: Seq<ArenaNode<D>>, r: int, c2: Seq<T>, cfg: CombineCfg)
    requires wf(a, id), cv(a, id, c.len() as int), local(a, id, c, b, r, c2, cfg),
    ensures comb(a, id, c, b, r, c2, cfg),
{
    let op = a[id].kind->op; let k0 = kid(a, id, 0); let k1 = kid(a, id, 1);
    let l0 = kid(a, k0, 0); let l1 = kid(a, k0, 1); let r0 = kid(a, k1, 0); let r1 = kid(a, k1, 1);
    if b == a && c2 == c && r == id { comb_refl(a, id, c, cfg); }
    else if c2 == c && r == id && only(a, b, id, id) && (is2(b, id, op, k0, k1) || (is2(b, id, op, k1, k0) && comm(cfg, op))) { rewire(a, id, c, b, cfg, op, k0, k1); }
    else if r == k0 && merge(a, c, b, c2, cfg, op, k0, k1) { merged(a, id, c, b, c2, cfg, op, k0, k1); }
    else if r == k1 && merge(a, c, b, c2, cfg, op, k1, k0) { merged(a, id, c, b, c2, cfg, op, k1, k0); }
    else if isc(a, k0) && is2(a, k1, op, r0, r1) && only(a, b, r0, id) && is2(b, id, op, r1, r0) && stored(a, c, b, c2, r0, cst(a, r0, c).sub_spec(cst(a, k0, c))) { subbed(a, id, c, b, c2, cfg, op, k0, k1, 1); }
    else if isc(a, k0) && is2(a, k1, op, r0, r1) && isc(a, r1) && only(a, b, k0, id) && is2(b, id, op, k0, r0) && stored(a, c, b, c2, k0, cst(a, k0, c).add_spec(cst(a, r1, c))) { subbed(a, id, c, b, c2, cfg, op, k0, k1, 2); }
    else if isc(a, k1) && is2(a, k0, op, l0, l1) && only(a, b, l0, id) && is2(b, id, op, l0, l1) && stored(a, c, b, c2, l0, cst(a, l0, c).sub_spec(cst(a, k1, c))) { subbed(a, id, c, b, c2, cfg, op, k0, k1, 3); }
    else { subbed(a, id, c, b, c2, cfg, op, k0, k1, 4); }
}
=== raw
// ---- reading the node list into the arena ----
/// the trees read so far, on the stack, each in its own stretch of the arena
pub open spec fn held<const D: usize>(a: Seq<ArenaNode<D>>, st: Seq<usize>, nodes: Seq<PNode>, k: int) -> bool {
    &&& a.len() == k && parse(nodes.take(k)) is Some && st.len() == parse(nodes.take(k))->0.len()
    &&& forall|i: int| 0 <= i < k ==> pn(#[trigger] a[i]) == nodes[i]
    &&& forall|j: int| 0 <= j < st.len() ==> (#[trigger] st[j]) < k && wf(a, st[j] as int) && term_at(a, st[j] as int) == parse(nodes.take(k))->0[j]
    &&& forall|j: int, l: int| 0 <= j < l < st.len() ==> #[trigger] st[j] < #[trigger] st[l]
    &&& forall|j: int, l: int, i: int| 0 <= j < l < st.len() && #[trigger] inn(a, st[l] as int, i) ==> #[trigger] st[j] < i
}
pub proof fn held_more<const D: usize>(a: Seq<ArenaNode<D>>, st: Seq<usize>, nodes: Seq<PNode>, k: int, x: ArenaNode<D>)
    requires held(a, st, nodes, k),
    ensures
        forall|j: int| 0 <= j < st.len() ==> wf(a.push(x), #[trigger] st[j] as int) && term_at(a.push(x), st[j] as int) == term_at(a, st[j] as int),
        forall|j: int, i: int| 0 <= j < st.len() ==> inn(a.push(x), st[j] as int, i) == #[trigger] inn(a, st[j] as int, i),
{
    let b = a.push(x);
    assert forall|j: int| 0 <= j < st.len() implies wf(b, #[trigger] st[j] as int) && term_at(b, st[j] as int) == term_at(a, st[j] as int) by { inn_range(a, st[j] as int); frame(a, b, st[j] as int); }
    assert forall|j: int, i: int| 0 <= j < st.len() implies inn(b, st[j] as int, i) == #[trigger] inn(a, st[j] as int, i) by { inn_range(a, st[j] as int); frame(a, b, st[j] as int); }
}
pub proof fn held_leaf<const D: usize>(a: Seq<ArenaNode<D>>, st: Seq<usize>, nodes: Seq<PNode>, k: int, x: ArenaNode<D>, id: usize)
    requires held(a, st, nodes, k), 0 <= k < nodes.len(), !(nodes[k] is Op), pn(x) == nodes[k], id == k,
    ensures held(a.push(x), st.push(id), nodes, k + 1),
{
    let b = a.push(x); let s1 = st.push(id);
    parse_step(nodes, k);
    held_more(a, st, nodes, k, x);
    assert(nk(b, k) == 0);
    assert(wf(b, k)) by { assert(b[k] == x); }
    assert forall|i: int| 0 <= i < k + 1 implies pn(#[trigger] b[i]) == nodes[i] by { if i < k { assert(b[i] == a[i]); } }
    let s = parse(nodes.take(k))->0;
    assert forall|j: int| 0 <= j < s1.len() implies (#[trigger] s1[j]) < k + 1 && wf(b, s1[j] as int) && term_at(b, s1[j] as int) == parse(nodes.take(k + 1))->0[j] by { if j < st.len() { assert(s1[j] == st[j]); } }
    assert forall|j: int, l: int| 0 <= j < l < s1.len() implies #[trigger] s1[j] < #[trigger] s1[l] by { if l < st.len() { assert(st[j] < st[l]); } else { assert(st[j] < k); } }
    assert forall|j: int, l: int, i: int| 0 <= j < l < s1.len() && #[trigger] inn(b, s1[l] as int, i) implies #[trigger] s1[j] < i by { if l < st.len() { assert(inn(a, st[l] as int, i)); assert(st[j] < i); } else { assert(i == k); } }
}
pub proof fn held_op<const D: usize>(a: Seq<ArenaNode<D>>, st: Seq<usize>, nodes: Seq<PNode>, k: int, x: ArenaNode<D>, id: usize)
    requires
        held(a, st, nodes, k), 0 <= k < nodes.len(), nodes[k] is Op, pn(x) == nodes[k], id == k, 1 <= nodes[k]->arity <= D, nodes[k]->arity <= st.len(),
        forall|j: int| 0 <= j < nodes[k]->arity ==> #[trigger] x.kind->children@[j] == st[st.len() - nodes[k]->arity + j],
    ensures held(a.push(x), st.take(st.len() - nodes[k]->arity).push(id), nodes, k + 1),
{
    let b = a.push(x); let n = nodes[k]->arity as int; let m = st.len() - n; let s1 = st.take(m).push(id);
    parse_step(nodes, k);
    held_more(a, st, nodes, k, x);
    let s = parse(nodes.take(k))->0; let t = parse(nodes.take(k + 1))->0;
    assert(t == s.take(m).push(Term::Op(n as u8, nodes[k]->op, s.skip(m))));
    assert(b[k] == x && nk(b, k) == n);
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] kid(b, k, j) < k && wf(b, kid(b, k, j)) && kid(b, k, j) == st[m + j] by { assert(x.kind->children@[j] == st[m + j]); }
    assert forall|j: int, l: int, i: int| 0 <= j < l < n implies !(#[trigger] inn(b, kid(b, k, j), i) && #[trigger] inn(b, kid(b, k, l), i)) by {
        if inn(b, kid(b, k, j), i) && inn(b, kid(b, k, l), i) {
            assert(kid(b, k, j) == st[m + j] && kid(b, k, l) == st[m + l]);
            assert(inn(a, st[m + j] as int, i) && inn(a, st[m + l] as int, i));
            inn_range(a, st[m + j] as int);
            assert(st[m + j] < i);
        }
    }
    assert(wf(b, k));
    tkids_at(b, k, n);
    assert(tkids(b, k, n) =~= s.skip(m)) by {
        assert forall|j: int| 0 <= j < n implies tkids(b, k, n)[j] == s.skip(m)[j] by { assert(kid(b, k, j) == st[m + j]); assert(term_at(b, st[m + j] as int) == s[m + j]); }
    }
    assert(term_at(b, k) == Term::Op(n as u8, nodes[k]->op, s.skip(m)));
    assert forall|i: int| 0 <= i < k + 1 implies pn(#[trigger] b[i]) == nodes[i] by { if i < k { assert(b[i] == a[i]); } }
    assert forall|j: int| 0 <= j < s1.len() implies (#[trigger] s1[j]) < k + 1 && wf(b, s1[j] as int) && term_at(b, s1[j] as int) == t[j] by { if j < m { assert(s1[j] == st[j]); assert(t[j] == s[j]); } }
    assert forall|j: int, l: int| 0 <= j < l < s1.len() implies #[trigger] s1[j] < #[trigger] s1[l] by { if l < m { assert(st[j] < st[l]); } else { assert(st[j] < k); } }
    assert forall|j: int, l: int, i: int| 0 <= j < l < s1.len() && #[trigger] inn(b, s1[l] as int, i) implies #[trigger] s1[j] < i by {
        if l < m { assert(inn(a, st[l] as int, i)); assert(st[j] < i); }
        else if i != k {
            let w = choose|w: int| 0 <= w < nk(b, k) && 0 <= #[trigger] kid(b, k, w) < k && inn(b, kid(b, k, w), i);
            assert(kid(b, k, w) == st[m + w]);
            assert(inn(a, st[m + w] as int, i));
            assert(st[j] < i);
        } else { assert(st[j] < k); }
    }
}
=== fn dynamic_expressions/src/simplify.rs is_const
--- ret r
--- spec
requires id < arena@.len(),
ensures r == (match arena@[id as int].kind { ArenaNodeKind::Const(i) => Some(i), _ => None::<u16> }),
=== fn dynamic_expressions/src/simplify.rs is_op
--- ret r
--- opt matchval
--- spec
requires id < arena@.len(),
ensures
    r == (match arena@[id as int].kind { ArenaNodeKind::Op { arity, op, children } => if op == op_id { Some((arity, children)) } else { None }, _ => None }),
=== fn dynamic_expressions/src/simplify.rs append_const
--- ret r
--- spec
ensures
    r matches Some(i) ==> v.fin() && i == old(consts)@.len() && final(consts)@ == old(consts)@.push(v),
    r is None ==> final(consts)@ == old(consts)@,
=== fn dynamic_expressions/src/simplify.rs lookup_id_with_arity
--- ret r
--- spec
ensures r matches Some(id) ==> Ops::has(OpId { arity, id }) && Ops::named(token, OpId { arity, id }),
=== fn dynamic_expressions/src/simplify.rs combine_node
--- ret r
--- opt matchval
--- attrs
#[verifier::spinoff_prover]

--- spec
requires wf(old(arena)@, id as int), cv(old(arena)@, id as int, old(consts)@.len() as int),
ensures
    comb(old(arena)@, id as int, old(consts)@, final(arena)@, r as int, final(consts)@, cfg),
    *old(changed) ==> *final(changed),
    !*final(changed) ==> final(consts)@ == old(consts)@ && r == id,
decreases id,
--- entry
let ghost a0 = arena@;
let ghost c0 = consts@;
let ghost ch0 = *changed;
let ghost mut a1 = a0;
let ghost mut c1 = c0;
proof { comb_refl(a0, id as int, c0, cfg); T::ops_total(); }
--- loop 0
invariant
    __n0 == arity, __k0 <= __n0, arity <= D, a0[id as int].kind == (ArenaNodeKind::<D>::Op { arity, op, children: a0[id as int].kind->children }),
    wf(a0, id as int), cv(a0, id as int, c0.len() as int), id < a0.len(),
    kids_st(a0, id as int, c0, arena@, children@, consts@, __k0 as int, cfg),
    ch0 ==> *changed,
    !*changed ==> consts@ == c0,
decreases __n0 - __k0,
--- top 0
let ghost k = __k0 as int;
let ghost ak = arena@;
let ghost ck = consts@;
let ghost chk = children@;
proof { kids_pre(a0, id as int, c0, ak, chk, ck, k, cfg); }
--- at after #0 *cid
proof {
    assert(children@ =~= chk.update(k, children@[k]));
    kids_step(a0, id as int, c0, ak, chk, ck, k, arena@, children@[k], consts@, cfg);
}
--- at before #0 arena[id].kind =
let ghost ad = arena@;
--- at after #0 arena[id].kind =
proof {
    a1 = arena@;
    c1 = consts@;
    kids_done(a0, id as int, c0, ad, children@, c1, a1, cfg);
    if arity == 2 {
        let k0 = kid(a1, id as int, 0); let k1 = kid(a1, id as int, 1);
        assert(is2(a1, id as int, op, k0, k1));
        unbin(a1, id as int, op, k0, k1);
        pair_facts(a1, id as int, op, c1.len() as int);
        let q = (kid(a1, kid(a1, id as int, 0), 0), kid(a1, kid(a1, id as int, 0), 1), kid(a1, kid(a1, id as int, 1), 0), kid(a1, kid(a1, id as int, 1), 1));
    }
}
--- exit
proof {
    assert(local(a1, id as int, c1, arena@, __ret as int, consts@, cfg));
    local_comb(a1, id as int, c1, arena@, __ret as int, consts@, cfg);
    comb_trans(a0, id as int, c0, a1, id as int, c1, arena@, __ret as int, consts@, cfg);
}
=== fn dynamic_expressions/src/simplify.rs emit_postfix
--- spec
requires wf(arena@, id as int),
ensures final(out)@ == old(out)@ + flatten(term_at(arena@, id as int)),
decreases id,
--- entry
let ghost o0 = out@;
proof { let t = term_at(arena@, id as int); }
--- loop 0
invariant
    __n0 == arity, __k0 <= __n0, arity <= D, id < arena@.len(), wf(arena@, id as int),
    arena@[id as int].kind == (ArenaNodeKind::<D>::Op { arity, op, children }),
    out@ == o0 + flatten_all(tkids(arena@, id as int, __k0 as int)),
decreases __n0 - __k0,
--- top 0
let ghost k = __k0 as int;
proof { assert(kid(arena@, id as int, k) == children@[k]); }
--- at after #0 emit_postfix
proof {
    let t1 = tkids(arena@, id as int, k + 1);
    assert(t1.drop_last() =~= tkids(arena@, id as int, k));
    assert(t1.last() == term_at(arena@, children@[k] as int));
    assert(out@ =~= o0 + (flatten_all(tkids(arena@, id as int, k)) + flatten(t1.last())));
}
--- exit
proof { assert(out@ =~= o0 + flatten(term_at(arena@, id as int))); }
=== fn dynamic_expressions/src/simplify.rs parse_postfix_to_arena
--- ret r
--- spec
requires well_formed(expr.nodes@), arity_le(expr.nodes@, D as int),
ensures
    r matches Some(p) && wf(p.0@, p.1 as int) && term_at(p.0@, p.1 as int) == tree_of(expr.nodes@) && p.0@.len() == expr.nodes@.len()
        && (forall|i: int| 0 <= i < expr.nodes@.len() ==> pn(#[trigger] p.0@[i]) == expr.nodes@[i]),
--- entry
let ghost n0 = expr.nodes@;
proof { assert(n0.take(0) =~= Seq::empty()); assert(n0.take(n0.len() as int) =~= n0); }
--- loop 0
invariant
    __n0 == n0.len(), __k0 <= __n0, expr.nodes@ == n0, well_formed(n0), arity_le(n0, D as int),
    held(arena@, st@, n0, __k0 as int),
decreases __n0 - __k0,
--- top 0
let ghost k = __k0 as int;
let ghost ak = arena@;
let ghost sk = st@;
proof { parse_prefix(n0, k + 1); parse_step(n0, k); }
--- loop 1
invariant __k1 <= a, st@ == sk.take(sk.len() - (a - __k1)), a <= sk.len(), a <= D, forall|j: int| __k1 <= j < a ==> #[trigger] children@[j] == sk[sk.len() - a + j],
decreases __k1,
--- at after #0 st.push
proof { held_leaf(ak, sk, n0, k, arena@[k], id); }
--- at after #1 st.push
proof { held_leaf(ak, sk, n0, k, arena@[k], id); }
--- at after #2 st.push
proof { held_op(ak, sk, n0, k, arena@[k], id); assert(sk.take(sk.len() - a).push(id) =~= st@); }
=== raw
/// what combining guarantees about the expression it rewrote, for every reading `ev` of the operators under which the ids of the configuration are + * -
pub open spec fn combined<T: Float>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>, cfg: CombineCfg) -> bool {
    &&& well_formed(n1) && consts_valid(n1, c1.len() as int) && n1.len() <= n0.len() && drawn(n0, n1) && ext(c0, c1)
    &&& forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] means(ev, cfg) ==> same_v(ev, tree_of(n0), c0, tree_of(n1), c1)
}
pub proof fn combined_refl<T: Float>(n: Seq<PNode>, c: Seq<T>, cfg: CombineCfg)
    requires well_formed(n), consts_valid(n, c.len() as int),
    ensures combined(n, c, n, c, cfg),
{ assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]) is Const || n.contains(n[i]) by { } }
/// writing the combined arena back out
pub proof fn combined_out<T: Float, const D: usize>(n0: Seq<PNode>, c0: Seq<T>, a0: Seq<ArenaNode<D>>, root: int, a1: Seq<ArenaNode<D>>, r: int, c1: Seq<T>, cfg: CombineCfg)
    requires
        well_formed(n0), wf(a0, root), term_at(a0, root) == tree_of(n0), a0.len() == n0.len(), forall|i: int| 0 <= i < n0.len() ==> pn(#[trigger] a0[i]) == n0[i],
        comb(a0, root, c0, a1, r, c1, cfg),
    ensures combined(n0, c0, flatten(term_at(a1, r)), c1, cfg),
{
    let t = term_at(a1, r);
    proper_at(a1, r);
    parse_flatten(t);
    parse_vs_parse0(n0); flat_parse0(n0);
    assert(parse(n0)->0 =~= seq![tree_of(n0)]);
    assert(flatten_all(parse(n0)->0) =~= flatten(tree_of(n0))) by { assert(parse(n0)->0.drop_last() =~= seq![]); assert(flatten_all(Seq::<Term>::empty()) =~= seq![]); }
    let p = |m: PNode| (m is Const ==> m->Const_idx < c1.len()) && (m is Const || n0.contains(m));
    assert forall|i: int| #[trigger] inn(a1, r, i) implies p(pn(a1[i])) by {
        inn_range(a1, r);
        assert(inn(a0, root, i)); inn_range(a0, root);
        assert(head_ok(a0[i], a1[i]));
        assert(pn(a0[i]) == n0[i]);
    }
    flat_p(a1, r, p);
    assert forall|i: int| 0 <= i < flatten(t).len() implies (#[trigger] flatten(t)[i]) is Const || n0.contains(flatten(t)[i]) by { assert(p(flatten(t)[i])); }
    assert forall|i: int| 0 <= i < flatten(t).len() && (#[trigger] flatten(t)[i]) is Const implies flatten(t)[i]->Const_idx < c1.len() by { assert(p(flatten(t)[i])); }
}
/// what an arena read from a node list reads, the list reads
pub proof fn cv_from<const D: usize>(n0: Seq<PNode>, a: Seq<ArenaNode<D>>, root: int, nc: int)
    requires wf(a, root), a.len() == n0.len(), forall|i: int| 0 <= i < n0.len() ==> pn(#[trigger] a[i]) == n0[i], consts_valid(n0, nc),
    ensures cv(a, root, nc),
{ inn_range(a, root); assert forall|i: int| #[trigger] inn(a, root, i) && a[i].kind is Const implies a[i].kind->Const_0 < nc by { assert(pn(a[i]) == n0[i]); } }
=== fn dynamic_expressions/src/simplify.rs combine_operators_in_place_with_cfg
--- ret r
--- spec
requires well_formed(old(expr).nodes@), consts_valid(old(expr).nodes@, old(expr).consts@.len() as int), arity_le(old(expr).nodes@, D as int),
ensures
    combined(old(expr).nodes@, old(expr).consts@, final(expr).nodes@, final(expr).consts@, cfg),
    !r ==> final(expr).nodes@ == old(expr).nodes@ && final(expr).consts@ == old(expr).consts@,
--- entry
let ghost n0 = expr.nodes@;
let ghost c0 = expr.consts@;
proof { combined_refl(n0, c0, cfg); }
--- at before #0 let new_root
let ghost a0 = arena@;
proof { cv_from(n0, a0, root as int, c0.len() as int); }
--- at before #0 let mut out
proof { combined_out(n0, c0, a0, root as int, arena@, new_root as int, expr.consts@, cfg); }
--- at after #0 emit_postfix
proof { assert(out@ =~= flatten(term_at(arena@, new_root as int))); }
=== fn dynamic_expressions/src/simplify.rs combine_operators_in_place
--- ret r
--- spec
requires well_formed(old(expr).nodes@), consts_valid(old(expr).nodes@, old(expr).consts@.len() as int), arity_le(old(expr).nodes@, D as int),
ensures
    combined_all::<T, Ops>(old(expr).nodes@, old(expr).consts@, final(expr).nodes@, final(expr).consts@),
    !r ==> final(expr).nodes@ == old(expr).nodes@ && final(expr).consts@ == old(expr).consts@,
--- exit
proof {
    assert forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] arith::<T, Ops>(ev) implies means(ev, cfg) by { }
}
