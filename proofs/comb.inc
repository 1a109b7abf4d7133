=== include simp.inc
=== raw
// ---- values under any reading of the operators and any row of data ----
pub open spec fn vt<T>(ev: spec_fn(u8, u16, Seq<T>) -> T, t: Term, env: spec_fn(u16) -> T, c: Seq<T>) -> T
    decreases t,
{ match t { Term::Var(f) => env(f), Term::Const(k) => c[k as int], Term::Op(a, op, ch) => ev(a, op, vts(ev, ch, env, c)) } }
pub open spec fn vts<T>(ev: spec_fn(u8, u16, Seq<T>) -> T, ts: Seq<Term>, env: spec_fn(u16) -> T, c: Seq<T>) -> Seq<T>
    decreases ts,
{ if ts.len() == 0 { seq![] } else { vts(ev, ts.drop_last(), env, c).push(vt(ev, ts.last(), env, c)) } }
pub open spec fn same_v<T>(ev: spec_fn(u8, u16, Seq<T>) -> T, t0: Term, c0: Seq<T>, t1: Term, c1: Seq<T>) -> bool {
    forall|env: spec_fn(u16) -> T| #[trigger] vt(ev, t1, env, c1) == vt(ev, t0, env, c0)
}
pub proof fn vts_at<T>(ev: spec_fn(u8, u16, Seq<T>) -> T, ts: Seq<Term>, env: spec_fn(u16) -> T, c: Seq<T>)
    ensures vts(ev, ts, env, c).len() == ts.len(), forall|j: int| 0 <= j < ts.len() ==> #[trigger] vts(ev, ts, env, c)[j] == vt(ev, ts[j], env, c),
    decreases ts.len(),
{
    if ts.len() > 0 {
        vts_at(ev, ts.drop_last(), env, c);
        assert forall|j: int| 0 <= j < ts.len() implies #[trigger] vts(ev, ts, env, c)[j] == vt(ev, ts[j], env, c) by { if j < ts.len() - 1 { assert(ts.drop_last()[j] == ts[j]); } }
    }
}
pub open spec fn ev_of<O: OpSem>() -> spec_fn(u8, u16, Seq<O::T>) -> O::T { |a: u8, op: u16, s: Seq<O::T>| O::ev(OpId { arity: a, id: op }, s) }
pub open spec fn env_of<T>(x: Seq<T>, n: int, row: int) -> spec_fn(u16) -> T { |f: u16| x[f * n + row] }
pub proof fn den_vt<O: OpSem>(t: Term, x: Seq<O::T>, n: int, c: Seq<O::T>, row: int)
    ensures den::<O>(t, x, n, c, row) == vt(ev_of::<O>(), t, env_of(x, n, row), c),
    decreases t,
{ match t { Term::Op(a, op, ch) => { den_vts::<O>(ch, x, n, c, row); } _ => {} } }
pub proof fn den_vts<O: OpSem>(ts: Seq<Term>, x: Seq<O::T>, n: int, c: Seq<O::T>, row: int)
    ensures den_all::<O>(ts, x, n, c, row) == vts(ev_of::<O>(), ts, env_of(x, n, row), c),
    decreases ts,
{ if ts.len() > 0 { den_vts::<O>(ts.drop_last(), x, n, c, row); den_vt::<O>(ts.last(), x, n, c, row); } }
// ---- what combining may assume of + - * : the laws of exact arithmetic (floats satisfy them up to rounding) ----
pub open spec fn laws<T: Float>() -> bool { add_comm::<T>() && add_assoc::<T>() && mul_comm::<T>() && mul_assoc::<T>() && sub_add::<T>() && add_sub::<T>() }
#[verifier::opaque]
pub open spec fn add_comm<T: Float>() -> bool { forall|a: T, b: T| #[trigger] a.add_spec(b) == b.add_spec(a) }
#[verifier::opaque]
pub open spec fn add_assoc<T: Float>() -> bool { forall|a: T, b: T, c: T| #[trigger] a.add_spec(b).add_spec(c) == a.add_spec(b.add_spec(c)) }
#[verifier::opaque]
pub open spec fn mul_comm<T: Float>() -> bool { forall|a: T, b: T| #[trigger] a.mul_spec(b) == b.mul_spec(a) }
#[verifier::opaque]
pub open spec fn mul_assoc<T: Float>() -> bool { forall|a: T, b: T, c: T| #[trigger] a.mul_spec(b).mul_spec(c) == a.mul_spec(b.mul_spec(c)) }
#[verifier::opaque]
pub open spec fn sub_add<T: Float>() -> bool { forall|a: T, b: T| #[trigger] a.sub_spec(b).add_spec(b) == a }
#[verifier::opaque]
pub open spec fn add_sub<T: Float>() -> bool { forall|a: T, b: T| #[trigger] a.add_spec(b).sub_spec(b) == a }
pub proof fn l_ac<T: Float>(a: T, b: T) requires laws::<T>(), ensures a.add_spec(b) == b.add_spec(a), { reveal(add_comm); }
pub proof fn l_aa<T: Float>(a: T, b: T, c: T) requires laws::<T>(), ensures a.add_spec(b).add_spec(c) == a.add_spec(b.add_spec(c)), { reveal(add_assoc); }
pub proof fn l_mc<T: Float>(a: T, b: T) requires laws::<T>(), ensures a.mul_spec(b) == b.mul_spec(a), { reveal(mul_comm); }
pub proof fn l_ma<T: Float>(a: T, b: T, c: T) requires laws::<T>(), ensures a.mul_spec(b).mul_spec(c) == a.mul_spec(b.mul_spec(c)), { reveal(mul_assoc); }
pub proof fn l_sa<T: Float>(a: T, b: T) requires laws::<T>(), ensures a.sub_spec(b).add_spec(b) == a, { reveal(sub_add); }
pub proof fn l_as<T: Float>(a: T, b: T) requires laws::<T>(), ensures a.add_spec(b).sub_spec(b) == a, { reveal(add_sub); }
/// the exact-arithmetic laws hold and the set's binary operators named + * - are addition, multiplication and subtraction under `ev`
pub open spec fn arith<T: Float, O: OpSem>(ev: spec_fn(u8, u16, Seq<T>) -> T) -> bool {
    &&& laws::<T>()
    &&& forall|id: u16, s: Seq<T>| #![trigger ev(2, id, s)] O::named("+", OpId { arity: 2, id }) && s.len() == 2 ==> ev(2, id, s) == s[0].add_spec(s[1])
    &&& forall|id: u16, s: Seq<T>| #![trigger ev(2, id, s)] O::named("*", OpId { arity: 2, id }) && s.len() == 2 ==> ev(2, id, s) == s[0].mul_spec(s[1])
    &&& forall|id: u16, s: Seq<T>| #![trigger ev(2, id, s)] O::named("-", OpId { arity: 2, id }) && s.len() == 2 ==> ev(2, id, s) == s[0].sub_spec(s[1])
}
pub open spec fn combined_all<T: Float, O: OpSem>(n0: Seq<PNode>, c0: Seq<T>, n1: Seq<PNode>, c1: Seq<T>) -> bool {
    &&& well_formed(n1) && consts_valid(n1, c1.len() as int) && n1.len() <= n0.len() && drawn(n0, n1) && ext(c0, c1)
    &&& forall|ev: spec_fn(u8, u16, Seq<T>) -> T| #[trigger] arith::<T, O>(ev) ==> same_v(ev, tree_of(n0), c0, tree_of(n1), c1)
}
pub open spec fn arity_le(nodes: Seq<PNode>, d: int) -> bool { forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Op ==> nodes[i]->arity <= d }
