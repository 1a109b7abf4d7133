# symbolic_regression: choosing the operators of a search by name
=== include prelude.inc
=== include float_sr.inc
=== raw
use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
=== include text.inc
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== type dynamic_expressions/src/traits.rs OpMeta
text
=== type dynamic_expressions/src/traits.rs LookupError
text
=== include lookspec.inc
=== include operators.inc
=== type symbolic_regression/src/operators.rs OperatorSelectError
text
subst dynamic_expressions::LookupError => LookupError
=== raw
/// `std::collections::HashSet` of keys compared by equality
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: Vec<K> }
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_to_array<X, const N: usize>(v: Vec<X>) -> (a: [X; N]) requires v@.len() == N, ensures a@ == v@, { unimplemented!() }
/// an entry of the selection: the arity it is given for (any, or a particular one) and its token
pub struct Ask { pub a: Option<u8>, pub tok: Seq<u8> }
pub open spec fn has_pick<O: OperatorSet>(w: Ask) -> bool { exists|op: OpId| the_op::<O>(w.a, w.tok, op) }
pub open spec fn pick<O: OperatorSet>(w: Ask) -> OpId { choose|op: OpId| the_op::<O>(w.a, w.tok, op) }
pub open spec fn repeated<O: OperatorSet>(ws: Seq<Ask>, i: int) -> bool { exists|j: int| 0 <= j < i && pick::<O>(#[trigger] ws[j]) == pick::<O>(ws[i]) }
/// entry i names exactly one operator, of an arity the search handles, that no earlier entry names
pub open spec fn good<O: OperatorSet>(ws: Seq<Ask>, i: int, d: int) -> bool { has_pick::<O>(ws[i]) && pick::<O>(ws[i]).arity <= d && !repeated::<O>(ws, i) }
pub open spec fn good_upto<O: OperatorSet>(ws: Seq<Ask>, k: int, d: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] good::<O>(ws, i, d) }
/// the operators named by the first k entries, in their order, that have arity a
pub open spec fn picked<O: OperatorSet>(ws: Seq<Ask>, k: int, a: int) -> Seq<OpId>
    decreases k,
{
    if k <= 0 { Seq::empty() } else {
        let op = pick::<O>(ws[k - 1]);
        if op.arity == a { picked::<O>(ws, k - 1, a).push(op) } else { picked::<O>(ws, k - 1, a) }
    }
}
/// the selection holds exactly the operators named by the first k entries
pub open spec fn selected<O: OperatorSet, const D: usize>(o: Operators<D>, ws: Seq<Ask>, k: int) -> bool {
    &&& o.ops_by_arity@.len() == D
    &&& forall|a: int| 1 <= a <= D ==> (#[trigger] o.ops_by_arity@[a - 1])@ == picked::<O>(ws, k, a)
}
/// the keys seen: those of the first k entries
pub open spec fn seen_upto<O: OperatorSet>(seen: Set<(u8, u16)>, ws: Seq<Ask>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> seen.contains((pick::<O>(#[trigger] ws[i]).arity, pick::<O>(ws[i]).id))
    &&& forall|x: (u8, u16)| #[trigger] seen.contains(x) ==> exists|i: int| 0 <= i < k && pick::<O>(#[trigger] ws[i]) == (OpId { arity: x.0, id: x.1 })
}
/// the answer to a selection
pub open spec fn answered<O: OperatorSet, const D: usize>(ws: Seq<Ask>, r: Result<Operators<D>, OperatorSelectError>) -> bool {
    match r {
        Ok(o) => ws.len() > 0 && good_upto::<O>(ws, ws.len() as int, D as int) && selected::<O, D>(o, ws, ws.len() as int),
        Err(OperatorSelectError::Empty) => ws.len() == 0,
        Err(e) => exists|i: int| 0 <= i < ws.len() && #[trigger] good_upto::<O>(ws, i, D as int) && faulty::<O>(ws, i, D as int, e),
    }
}
/// entry i is reported for what is wrong with it
pub open spec fn faulty<O: OperatorSet>(ws: Seq<Ask>, i: int, d: int, e: OperatorSelectError) -> bool {
    match e {
        OperatorSelectError::Lookup(LookupError::Unknown(_)) => no_op::<O>(ws[i].a, ws[i].tok),
        OperatorSelectError::Lookup(LookupError::Ambiguous { .. }) => two_ops::<O>(ws[i].a, ws[i].tok),
        OperatorSelectError::ArityTooLarge { token, arity, max_arity } => has_pick::<O>(ws[i]) && pick::<O>(ws[i]).arity > d && token@ == ws[i].tok && arity == pick::<O>(ws[i]).arity && max_arity == d,
        OperatorSelectError::Duplicate(token) => has_pick::<O>(ws[i]) && repeated::<O>(ws, i) && token@ == ws[i].tok,
        _ => false,
    }
}
pub proof fn pick_is<O: OperatorSet>(w: Ask, op: OpId)
    requires the_op::<O>(w.a, w.tok, op),
    ensures has_pick::<O>(w), pick::<O>(w) == op,
{ let p = pick::<O>(w); assert(the_op::<O>(w.a, w.tok, p)); assert(meant::<O>(w.a, p) && meant::<O>(w.a, op)); }
pub proof fn seen_is<O: OperatorSet>(seen: Set<(u8, u16)>, ws: Seq<Ask>, k: int, key: (u8, u16))
    requires seen_upto::<O>(seen, ws, k), pick::<O>(ws[k]) == (OpId { arity: key.0, id: key.1 }),
    ensures seen.contains(key) == repeated::<O>(ws, k),
{
    if seen.contains(key) { let i = choose|i: int| 0 <= i < k && pick::<O>(#[trigger] ws[i]) == (OpId { arity: key.0, id: key.1 }); assert(pick::<O>(ws[i]) == pick::<O>(ws[k])); }
    if repeated::<O>(ws, k) { let j = choose|j: int| 0 <= j < k && pick::<O>(#[trigger] ws[j]) == pick::<O>(ws[k]); assert(seen.contains((pick::<O>(ws[j]).arity, pick::<O>(ws[j]).id))); }
}
/// one more entry accepted
pub proof fn step<O: OperatorSet, const D: usize>(ws: Seq<Ask>, k: int, s0: Set<(u8, u16)>, s1: Set<(u8, u16)>, o0: Operators<D>, o1: Operators<D>)
    requires
        0 <= k < ws.len(), has_pick::<O>(ws[k]), 1 <= pick::<O>(ws[k]).arity <= D, !repeated::<O>(ws, k), good_upto::<O>(ws, k, D as int),
        seen_upto::<O>(s0, ws, k), s1 == s0.insert((pick::<O>(ws[k]).arity, pick::<O>(ws[k]).id)), selected::<O, D>(o0, ws, k),
        o1.ops_by_arity@.len() == D,
        forall|a: int| 1 <= a <= D ==> (#[trigger] o1.ops_by_arity@[a - 1])@ == (if a == pick::<O>(ws[k]).arity { o0.ops_by_arity@[a - 1]@.push(pick::<O>(ws[k])) } else { o0.ops_by_arity@[a - 1]@ }),
    ensures good_upto::<O>(ws, k + 1, D as int), seen_upto::<O>(s1, ws, k + 1), selected::<O, D>(o1, ws, k + 1),
{
    let op = pick::<O>(ws[k]);
    assert(good::<O>(ws, k, D as int));
    assert forall|x: (u8, u16)| #[trigger] s1.contains(x) implies exists|i: int| 0 <= i < k + 1 && pick::<O>(#[trigger] ws[i]) == (OpId { arity: x.0, id: x.1 }) by {
        if s0.contains(x) { let i = choose|i: int| 0 <= i < k && pick::<O>(#[trigger] ws[i]) == (OpId { arity: x.0, id: x.1 }); assert(pick::<O>(ws[i]) == (OpId { arity: x.0, id: x.1 })); }
        else { assert(x == (op.arity, op.id)); assert(pick::<O>(ws[k]) == (OpId { arity: x.0, id: x.1 })); }
    }
    assert forall|a: int| 1 <= a <= D implies (#[trigger] o1.ops_by_arity@[a - 1])@ == picked::<O>(ws, k + 1, a) by { assert(o0.ops_by_arity@[a - 1]@ == picked::<O>(ws, k, a)); }
}
/// the entries of a plain list of names
pub open spec fn plain(names: Seq<&[u8]>) -> Seq<Ask> { Seq::new(names.len(), |i: int| Ask { a: None, tok: names[i]@ }) }
pub open spec fn of_arity(a: u8, names: Seq<&[u8]>) -> Seq<Ask> { Seq::new(names.len(), |i: int| Ask { a: Some(a), tok: names[i]@ }) }
/// the entries of the three lists, and where the list for arity k + 1 starts
pub open spec fn three(u: Seq<&[u8]>, b: Seq<&[u8]>, t: Seq<&[u8]>) -> Seq<Ask> { of_arity(1, u) + of_arity(2, b) + of_arity(3, t) }
pub open spec fn start(u: Seq<&[u8]>, b: Seq<&[u8]>, t: Seq<&[u8]>, k: int) -> int { if k <= 0 { 0 } else if k == 1 { u.len() as int } else if k == 2 { (u.len() + b.len()) as int } else { (u.len() + b.len() + t.len()) as int } }
=== uses lookup.vx OperatorSet::lookup
=== uses lookup.vx OperatorSet::lookup_with_arity
=== uses operators.vx Operators::push
=== fn symbolic_regression/src/operators.rs Operators::new
--- opt fromfn:D
--- subst let mut __acc0 = Vec::new() => let mut __acc0: Vec<Vec<OpId>> = Vec::new()
--- ret r
--- spec
ensures r.ops_by_arity@.len() == D, forall|a: int| 0 <= a < D ==> (#[trigger] r.ops_by_arity@[a])@ == Seq::<OpId>::empty(),
--- loop 0
invariant __k0 <= __n0, __n0 == D, __acc0@.len() == __k0, forall|a: int| 0 <= a < __k0 ==> (#[trigger] __acc0@[a])@ == Seq::<OpId>::empty(),
decreases __n0 - __k0,
=== fn symbolic_regression/src/operators.rs Operators::from_names
--- opt text
--- subst Ops::lookup( => lookup::<Ops>(
--- ret r
--- spec
requires D <= 255,
ensures answered::<Ops, D>(plain(names@), r),
--- entry
let ghost ws = plain(names@);
--- loop 0
invariant ws == plain(names@), __n0 == names@.len(), 1 <= __n0, __k0 <= __n0, D <= 255,
    seen_upto::<Ops>(seen@, ws, __k0 as int), good_upto::<Ops>(ws, __k0 as int, D as int), selected::<Ops, D>(out, ws, __k0 as int),
decreases __n0 - __k0,
--- head 0
let ghost vx_k = __k0 - 1;
proof { assert(ws[vx_k] == (Ask { a: None, tok: names@[vx_k]@ })); }
--- at after #0 let op
proof { pick_is::<Ops>(ws[vx_k], op); }
let ghost (vx_s0, vx_o0) = (seen@, out);
--- at after #0 let key
proof { seen_is::<Ops>(seen@, ws, vx_k, key); }
--- tail 0
proof { step::<Ops, D>(ws, vx_k, vx_s0, seen@, vx_o0, out); }
=== fn symbolic_regression/src/operators.rs Operators::from_names_by_arity
--- opt text
--- subst Ops::lookup_with_arity( => lookup_with_arity::<Ops>(
--- ret r
--- spec
requires D <= 255,
ensures answered::<Ops, D>(three(unary@, binary@, ternary@), r),
--- entry
let ghost ws = three(unary@, binary@, ternary@);
--- before 0
proof { assert(__h0@ =~= seq![(1u8, unary), (2u8, binary), (3u8, ternary)]); }
--- loop 0
invariant ws == three(unary@, binary@, ternary@), ws.len() > 0, __n0 == 3, __h0@ == seq![(1u8, unary), (2u8, binary), (3u8, ternary)], __k0 <= __n0, D <= 255,
    seen_upto::<Ops>(seen@, ws, start(unary@, binary@, ternary@, __k0 as int)), good_upto::<Ops>(ws, start(unary@, binary@, ternary@, __k0 as int), D as int),
    selected::<Ops, D>(out, ws, start(unary@, binary@, ternary@, __k0 as int)),
decreases __n0 - __k0,
--- head 0
let ghost vx_b = start(unary@, binary@, ternary@, __k0 - 1);
--- loop 1
invariant ws == three(unary@, binary@, ternary@), 1 <= __k0 <= 3, __n1 == toks@.len(), __k1 <= __n1, D <= 255, expected == __k0,
    vx_b == start(unary@, binary@, ternary@, __k0 - 1), vx_b >= 0, vx_b + __n1 == start(unary@, binary@, ternary@, __k0 as int) <= ws.len(),
    toks == (if __k0 == 1 { unary } else if __k0 == 2 { binary } else { ternary }),
    seen_upto::<Ops>(seen@, ws, vx_b + __k1), good_upto::<Ops>(ws, vx_b + __k1, D as int), selected::<Ops, D>(out, ws, vx_b + __k1),
decreases __n1 - __k1,
--- head 1
let ghost vx_k = vx_b + __k1 - 1;
proof { assert(ws[vx_k] == (Ask { a: Some(expected), tok: toks@[__k1 - 1]@ })); }
--- at after #0 let op
proof { pick_is::<Ops>(ws[vx_k], op); }
let ghost (vx_s0, vx_o0) = (seen@, out);
--- at after #0 let key
proof { seen_is::<Ops>(seen@, ws, vx_k, key); }
--- tail 1
proof { step::<Ops, D>(ws, vx_k, vx_s0, seen@, vx_o0, out); }
=== raw
pub trait OpTag: Sized {}
/// the operator set lists the operator called `Op`
pub trait HasOp<Op> {
    spec fn s_op() -> OpId;
    fn op_id() -> (r: OpId) ensures r == Self::s_op();
}
pub open spec fn appended<const D: usize>(o: Operators<D>, p: Operators<D>, op: OpId) -> bool {
    &&& p.ops_by_arity@.len() == D
    &&& forall|a: int| 1 <= a <= D ==> (#[trigger] p.ops_by_arity@[a - 1])@ == (if a == op.arity { o.ops_by_arity@[a - 1]@.push(op) } else { o.ops_by_arity@[a - 1]@ })
}
=== type symbolic_regression/src/operators.rs OperatorsBuilder
=== fn symbolic_regression/src/operators.rs Operators::builder
--- ret r
--- spec
ensures r.operators.ops_by_arity@.len() == D, forall|a: int| 0 <= a < D ==> (#[trigger] r.operators.ops_by_arity@[a])@ == Seq::<OpId>::empty(),
=== fn symbolic_regression/src/operators.rs OperatorsBuilder::build
--- ret r
--- spec
ensures r == self.operators,
=== fn symbolic_regression/src/operators.rs OperatorsBuilder::push_op
--- panics !(1 <= <Ops as HasOp<Op>>::s_op().arity <= D)
--- subst dynamic_expressions::OpTag => OpTag
--- ret r
--- spec
requires self.operators.ops_by_arity@.len() == D,
ensures 1 <= <Ops as HasOp<Op>>::s_op().arity <= D, appended::<D>(self.operators, r.operators, <Ops as HasOp<Op>>::s_op()),
=== fn symbolic_regression/src/operators.rs OperatorsBuilder::unary
--- panics !(1 == <Ops as HasOp<Op>>::s_op().arity <= D)
--- subst dynamic_expressions::OpTag => OpTag
--- ret r
--- spec
requires self.operators.ops_by_arity@.len() == D,
ensures <Ops as HasOp<Op>>::s_op().arity == 1, appended::<D>(self.operators, r.operators, <Ops as HasOp<Op>>::s_op()),
=== fn symbolic_regression/src/operators.rs OperatorsBuilder::binary
--- panics !(2 == <Ops as HasOp<Op>>::s_op().arity <= D)
--- subst dynamic_expressions::OpTag => OpTag
--- ret r
--- spec
requires self.operators.ops_by_arity@.len() == D,
ensures <Ops as HasOp<Op>>::s_op().arity == 2, appended::<D>(self.operators, r.operators, <Ops as HasOp<Op>>::s_op()),
