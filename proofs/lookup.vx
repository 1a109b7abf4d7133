# dynamic_expressions: looking up an operator by token, with and without an arity
=== include prelude.inc
=== include text.inc
=== type dynamic_expressions/src/traits.rs OpId
derive Copy, Clone
=== type dynamic_expressions/src/traits.rs OpMeta
text
=== type dynamic_expressions/src/traits.rs LookupError
text
=== include lookspec.inc
=== raw
pub proof fn literals()
    ensures [117u8, 110u8, 107u8, 110u8, 111u8, 119u8, 110u8, 95u8, 111u8, 112u8]@ == unknown_op(),
{ assert([117u8, 110u8, 107u8, 110u8, 111u8, 119u8, 110u8, 95u8, 111u8, 112u8]@ =~= unknown_op()); }
=== uses strings.vx OperatorSet::name
=== uses strings.vx OperatorSet::display
=== uses strings.vx OperatorSet::infix
=== fn dynamic_expressions/src/traits.rs OperatorSet::matches_token
--- opt text
--- pre t == Self::display(op) => vx_same_text(t, Self::display(op))
--- pre t == s => vx_same_text(t, s)
--- subst Self:: => 
--- subst name(op) => name::<O>(op)
--- subst display(op) => display::<O>(op)
--- subst infix(op) => infix::<O>(op)
--- subst fn matches_token( => fn matches_token<O: OperatorSet>(
--- ret r
--- spec
ensures r == named::<O>(op, tok@),
=== fn dynamic_expressions/src/traits.rs OperatorSet::lookup_all
--- opt text inline:for_each_op
--- subst Self::MAX_ARITY => O::max_arity()
--- subst Self::ops_with_arity => O::ops_with_arity
--- subst Self::matches_token => matches_token::<O>
--- subst fn lookup_all( => fn lookup_all<O: OperatorSet>(
--- ret r
--- spec
ensures r@ == hits_upto::<O>(token@, O::top() as int),
--- loop 0
invariant __n0 == O::top() < 255, 1 <= __k0 <= __n0 + 1, out@ == hits_upto::<O>(token@, __k0 - 1),
decreases __n0 + 1 - __k0,
--- loop 1
invariant __it1.seq().unref() == O::ids(arity), out@ == hits_upto::<O>(token@, arity - 1) + hits::<O>(token@, arity, __it1.index()),
--- head 1
let ghost vx_o0 = out@;
--- tail 1
proof { assert(out@ =~= hits_upto::<O>(token@, arity - 1) + hits::<O>(token@, arity, __it1.index() + 1)); }
--- after 1
proof { assert(out@ == hits_upto::<O>(token@, __k0 - 1)); }
=== fn dynamic_expressions/src/traits.rs OperatorSet::lookup
--- opt text
--- subst Self::lookup_all => lookup_all::<O>
--- subst Self::name => name::<O>
--- subst fn lookup( => fn lookup<O: OperatorSet>(
--- ret r
--- spec
ensures
    // one operator of any arity is named by the token: it is the answer; none: unknown; several: ambiguous
    looked_up::<O>(None, token@, r),
--- at after #0 let matches
proof {
    let m = O::top() as int;
    upto_are::<O>(token@, m);
    let h = hits_upto::<O>(token@, m);
    if h.len() >= 1 { assert(meant::<O>(None, h[0]) && named::<O>(h[0], token@)); }
    if h.len() >= 2 { assert(meant::<O>(None, h[1]) && named::<O>(h[1], token@)); assert(h[0] != h[1]); }
}
--- loop 0
invariant __n0 == matches@.len(), __k0 <= __n0,
decreases __n0 - __k0,
=== fn dynamic_expressions/src/traits.rs OperatorSet::lookup_with_arity
--- opt text
--- subst Self::ops_with_arity => O::ops_with_arity
--- subst Self::matches_token => matches_token::<O>
--- subst Self::name => name::<O>
--- subst fn lookup_with_arity( => fn lookup_with_arity<O: OperatorSet>(
--- ret r
--- spec
ensures
    // one operator of that arity is named by the token: it is the answer; none: unknown; several: ambiguous
    looked_up::<O>(Some(arity), token@, r),
--- loop 0
invariant
    __it0.seq().unref() == O::ids(arity), matches@ == hits::<O>(token@, arity, __it0.index()),
--- after 0
proof {
    let m = O::ids(arity).len() as int;
    hits_are::<O>(token@, arity, m);
    let h = hits::<O>(token@, arity, m);
    assert forall|o: OpId| #[trigger] meant::<O>(Some(arity), o) && named::<O>(o, token@) implies h.contains(o) by {
        let j = choose|j: int| 0 <= j < m && O::ids(arity)[j] == o.id;
        assert(o == (OpId { arity, id: O::ids(arity)[j] }));
    }
    if h.len() >= 1 { assert(meant::<O>(Some(arity), h[0]) && named::<O>(h[0], token@)); }
    if h.len() >= 2 { assert(meant::<O>(Some(arity), h[1]) && named::<O>(h[1], token@)); assert(h[0] != h[1]); }
}
--- loop 1
invariant __n1 == matches@.len(), __k1 <= __n1,
decreases __n1 - __k1,
