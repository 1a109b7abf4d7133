=== include prelude.inc
=== include node.inc
=== type dynamic_expressions/src/compile.rs EvalPlan
=== type dynamic_expressions/src/compile.rs Instr
derive Copy, Clone
=== raw
// Content hash of the node list: only used as a cache key; its value is irrelevant to the contract.
#[verifier::external_body]
pub fn build_node_hash(nodes: &[PNode]) -> u64 { unimplemented!() }

/// Symbolic state of the slot machine: what tree each slot holds.
pub open spec fn src_term(s: Src, m: Map<int, Term>) -> Term {
    match s { Src::Slot(k) => m[k as int], Src::Var(f) => Term::Var(f), Src::Const(c) => Term::Const(c) }
}
pub open spec fn arg_terms<const D: usize>(i: Instr<D>, m: Map<int, Term>) -> Seq<Term> {
    Seq::new(i.arity as nat, |j: int| src_term(i.args[j], m))
}
pub open spec fn sym_exec<const D: usize>(instrs: Seq<Instr<D>>) -> Map<int, Term>
    decreases instrs.len(),
{
    if instrs.len() == 0 { Map::empty() } else {
        let m = sym_exec(instrs.drop_last());
        let i = instrs.last();
        m.insert(i.dst as int, Term::Op(i.arity, i.op, arg_terms(i, m)))
    }
}
pub open spec fn src_dom(s: Src, m: Map<int, Term>) -> bool { s is Slot ==> m.dom().contains(s->Slot_0 as int) }
/// every operand read was written before
pub open spec fn run_ok<const D: usize>(instrs: Seq<Instr<D>>) -> bool
    decreases instrs.len(),
{
    instrs.len() == 0 || {
        &&& run_ok(instrs.drop_last())
        &&& forall|j: int| 0 <= j < instrs.last().arity ==> src_dom(#[trigger] instrs.last().args[j], sym_exec(instrs.drop_last()))
    }
}
/// the terms computed, in order
pub open spec fn exec_terms<const D: usize>(instrs: Seq<Instr<D>>) -> Seq<Term>
    decreases instrs.len(),
{
    if instrs.len() == 0 { seq![] } else {
        let m = sym_exec(instrs.drop_last());
        exec_terms(instrs.drop_last()).push(Term::Op(instrs.last().arity, instrs.last().op, arg_terms(instrs.last(), m)))
    }
}
/// the plan is one the compiler may produce for this program
pub open spec fn plan_for<const D: usize>(p: EvalPlan<D>, nodes: Seq<PNode>, nf: int, nc: int) -> bool {
    &&& compilable(nodes, nf, nc, D as int)
    &&& plan_ok(p, nf, nc)
    &&& run_ok(p.instrs@)
    &&& src_dom(p.root, sym_exec(p.instrs@))
    &&& src_term(p.root, sym_exec(p.instrs@)) == tree_of(nodes)
    &&& exec_terms(p.instrs@) == subops(tree_of(nodes))
}
pub open spec fn src_ok(s: Src, n_slots: int, nf: int, nc: int) -> bool {
    match s { Src::Slot(k) => k < n_slots, Src::Var(f) => f < nf, Src::Const(c) => c < nc }
}
pub open spec fn instr_ok<const D: usize>(i: Instr<D>, n_slots: int, nf: int, nc: int) -> bool {
    &&& 1 <= i.arity <= D
    &&& i.dst < n_slots
    &&& forall|j: int| 0 <= j < i.arity ==> src_ok(#[trigger] i.args[j], n_slots, nf, nc) && i.args[j] != Src::Slot(i.dst)
}
pub open spec fn leaves_ok(nodes: Seq<PNode>, nf: int, nc: int, d: int) -> bool {
    forall|i: int| 0 <= i < nodes.len() ==> match #[trigger] nodes[i] {
        PNode::Var { feature } => feature < nf,
        PNode::Const { idx } => idx < nc,
        PNode::Op { arity, op } => 1 <= arity <= d,
    }
}
/// The inputs compile_plan must accept; everything else must be rejected.
pub open spec fn compilable(nodes: Seq<PNode>, nf: int, nc: int, d: int) -> bool {
    nf <= 65535 && nc <= 65535 && leaves_ok(nodes, nf, nc, d) && well_formed(nodes)
}
pub open spec fn plan_ok<const D: usize>(p: EvalPlan<D>, nf: int, nc: int) -> bool {
    &&& forall|i: int| 0 <= i < p.instrs.len() ==> instr_ok(#[trigger] p.instrs[i], p.n_slots as int, nf, nc)
    &&& src_ok(p.root, p.n_slots as int, nf, nc)
}
pub open spec fn distinct_slots(st: Seq<Src>) -> bool {
    forall|i: int, j: int| 0 <= i < j < st.len() && st[i] is Slot ==> st[i] != st[j]
}
/// Representation invariant of the compiler loop.
pub open spec fn machine<const D: usize>(st: Seq<Src>, terms: Seq<Term>, free: Seq<u16>, next: int, max: int, instrs: Seq<Instr<D>>, nf: int, nc: int) -> bool {
    let m = sym_exec(instrs);
    &&& st.len() == terms.len()
    &&& forall|i: int| 0 <= i < st.len() ==> src_term(#[trigger] st[i], m) == terms[i]
    &&& forall|i: int| 0 <= i < st.len() ==> src_ok(#[trigger] st[i], max, nf, nc)
    &&& forall|i: int| 0 <= i < st.len() ==> src_dom(#[trigger] st[i], m)
    &&& run_ok(instrs)
    &&& exec_terms(instrs) == subops_all(terms)
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i] is Slot ==> st[i]->Slot_0 < next)
    &&& distinct_slots(st)
    &&& forall|x: int| 0 <= x < free.len() ==> #[trigger] free[x] < next
    &&& forall|x: int, y: int| 0 <= x < y < free.len() ==> free[x] != free[y]
    &&& forall|x: int, i: int| 0 <= x < free.len() && 0 <= i < st.len() ==> #[trigger] st[i] != Src::Slot(#[trigger] free[x])
    &&& 0 <= next <= max
    &&& next <= instrs.len()
    &&& forall|i: int| 0 <= i < instrs.len() ==> instr_ok(#[trigger] instrs[i], max, nf, nc)
}
=== fn dynamic_expressions/src/compile.rs compile_plan
--- ret r
--- panics !compilable(nodes@, n_features as int, n_consts as int, D as int)
--- spec
requires nodes.len() <= 65535,
ensures
    compilable(nodes@, n_features as int, n_consts as int, D as int),
    plan_ok(r, n_features as int, n_consts as int),
    src_term(r.root, sym_exec(r.instrs@)) == tree_of(nodes@),
    plan_for(r, nodes@, n_features as int, n_consts as int),
--- loops 3
--- lift alloc_slot
requires
    old(free_slots)@.len() == 0 ==> *old(next_slot) < 65535,
    forall|j: int| 0 <= j < old(free_slots)@.len() ==> #[trigger] old(free_slots)@[j] < 65535,
ensures
    old(free_slots)@.len() > 0 ==> r == old(free_slots)@.last() && final(free_slots)@ == old(free_slots)@.drop_last()
        && *final(next_slot) == *old(next_slot),
    old(free_slots)@.len() == 0 ==> r == *old(next_slot) && final(free_slots)@ == old(free_slots)@
        && *final(next_slot) == *old(next_slot) + 1,
    *final(max_slot) == (if *old(max_slot) > r + 1 { *old(max_slot) as int } else { r + 1 }),
--- entry
proof { assert(nodes@.take(0) =~= Seq::<PNode>::empty()); assert(sym_exec(Seq::<Instr<D>>::empty()) == Map::<int, Term>::empty()); }
--- loop 0
invariant
    __n0 == nodes.len(), __k0 <= __n0, nodes.len() <= 65535,
    n_features <= 65535, n_consts <= 65535, n_features_u16 == n_features, n_consts_u16 == n_consts,
    parse(nodes@.take(__k0 as int)) is Some,
    leaves_ok(nodes@.take(__k0 as int), n_features as int, n_consts as int, D as int),
    machine(stack@, parse(nodes@.take(__k0 as int))->0, free_slots@, next_slot as int, max_slot as int, instrs@, n_features as int, n_consts as int),
    instrs.len() <= __k0,
decreases __n0 - __k0,
--- head 0
let ghost prefix = nodes@.take(__k0 - 1);
let ghost terms = parse(prefix)->0;
let ghost stack0 = stack@;
let ghost instrs0 = instrs@;
let ghost next0 = next_slot;
let ghost max0 = max_slot;
let ghost m0 = sym_exec(instrs@);
proof {
    parse_step(nodes@, __k0 - 1);
    if well_formed(nodes@) { parse_prefix(nodes@, __k0 as int); }
    if !(nodes@[__k0 - 1] is Op) {
        match nodes@[__k0 - 1] {
            PNode::Var { feature } => { subops_leaf(terms, Term::Var(feature)); },
            PNode::Const { idx } => { subops_leaf(terms, Term::Const(idx)); },
            _ => {},
        }
    }
    assert(leaves_ok(nodes@, n_features as int, n_consts as int, D as int) ==> match nodes@[__k0 - 1] {
        PNode::Var { feature } => feature < n_features,
        PNode::Const { idx } => idx < n_consts,
        PNode::Op { arity, op } => 1 <= arity <= D });
}
--- tail 0
proof {
    assert forall|i: int| 0 <= i < __k0 implies match #[trigger] nodes@.take(__k0 as int)[i] {
        PNode::Var { feature } => feature < n_features,
        PNode::Const { idx } => idx < n_consts,
        PNode::Op { arity, op } => 1 <= arity <= D } by {
        if i < __k0 - 1 { assert(nodes@.take(__k0 - 1)[i] == nodes@[i]); }
    }
}
--- loop 1
invariant
    __n1 == 0, __k1 <= arity, arity == arity_u8 <= D, 
    stack@.len() + (arity - __k1) == stack0.len(),
    forall|i: int| 0 <= i < stack@.len() ==> #[trigger] stack@[i] == stack0[i],
    forall|j: int| __k1 <= j < arity ==> #[trigger] args[j] == stack0[stack0.len() - arity + j],
    stack0.len() < arity ==> !compilable(nodes@, n_features as int, n_consts as int, D as int),
decreases __k1,
--- at after let dst=
let ghost freemid = free_slots@;
--- before 2
proof {
    let m1 = sym_exec(instrs@);
    assert(instrs@.drop_last() =~= instrs0);
    assert(m1 == m0.insert(dst as int, Term::Op(arity_u8, op, arg_terms(instrs@.last(), m0))));
    assert(arg_terms(instrs@.last(), m0) =~= terms.skip(terms.len() - arity));
    assert(dst < max_slot);
    assert forall|i: int| 0 <= i < stack0.len() implies stack0[i] != Src::Slot(dst) by {}
}
--- loop 2
invariant
    __n2 == arity, __k2 <= arity, arity <= D,
    next_slot <= max_slot, dst < next_slot,
    arity <= stack0.len(),
    forall|j: int| 0 <= j < arity ==> #[trigger] args[j] == stack0[stack0.len() - arity + j],
    stack@ == stack0.take(stack0.len() - arity),
    distinct_slots(stack0),
    forall|i: int| 0 <= i < stack0.len() ==> #[trigger] stack0[i] != Src::Slot(dst) && (stack0[i] is Slot ==> stack0[i]->Slot_0 < next_slot),
    forall|x: int| 0 <= x < free_slots@.len() ==> #[trigger] free_slots@[x] < next_slot && free_slots@[x] != dst,
    forall|x: int, y: int| 0 <= x < y < free_slots@.len() ==> free_slots@[x] != free_slots@[y],
    forall|x: int, i: int| 0 <= x < free_slots@.len() && 0 <= i < stack0.len() - arity + 0 ==> #[trigger] stack0[i] != Src::Slot(#[trigger] free_slots@[x]),
    forall|x: int, i: int| 0 <= x < free_slots@.len() && stack0.len() - arity + __k2 <= i < stack0.len() ==> #[trigger] stack0[i] != Src::Slot(#[trigger] free_slots@[x]),
decreases __n2 - __k2,
--- head 2
proof { assert(args[__k2 - 1] == stack0[stack0.len() - arity + __k2 - 1]); }
--- at after stack.push(Src::Slot(dst))
proof {
    let m1 = sym_exec(instrs@);
    let terms1 = terms.take(terms.len() - arity).push(Term::Op(arity_u8, op, terms.skip(terms.len() - arity)));
    assert(parse(nodes@.take(__k0 as int))->0 == terms1);
    subops_op(terms, arity as int, terms1.last());
    assert(exec_terms(instrs@) == exec_terms(instrs0).push(terms1.last()));
    assert(run_ok(instrs@)) by {
        assert forall|j: int| 0 <= j < arity implies src_dom(#[trigger] instrs@.last().args[j], m0) by {
            assert(src_dom(stack0[stack0.len() - arity + j], m0));
        }
    }
    assert forall|i: int| 0 <= i < stack@.len() implies src_dom(#[trigger] stack@[i], m1) by {
        if i < stack@.len() - 1 { assert(stack@[i] == stack0[i]); assert(src_dom(stack0[i], m0)); }
    }
    assert forall|i: int| 0 <= i < stack@.len() implies src_term(#[trigger] stack@[i], m1) == terms1[i] by {
        if i < stack@.len() - 1 {
            assert(stack@[i] == stack0[i]);
            assert(src_term(stack0[i], m0) == terms[i]);
        }
    }
    assert forall|i: int| 0 <= i < instrs@.len() implies instr_ok(#[trigger] instrs@[i], max_slot as int, n_features as int, n_consts as int) by {
        if i < instrs@.len() - 1 { assert(instrs@[i] == instrs0[i]); assert(instr_ok(instrs0[i], max0 as int, n_features as int, n_consts as int)); }
        else {
            assert forall|j: int| 0 <= j < arity implies src_ok(#[trigger] instrs@[i].args[j], max_slot as int, n_features as int, n_consts as int)
                && instrs@[i].args[j] != Src::Slot(dst) by {
                assert(src_ok(stack0[stack0.len() - arity + j], max0 as int, n_features as int, n_consts as int));
            }
        }
    }
    assert forall|i: int| 0 <= i < stack@.len() implies src_ok(#[trigger] stack@[i], max_slot as int, n_features as int, n_consts as int) by {
        if i < stack@.len() - 1 { assert(src_ok(stack0[i], max0 as int, n_features as int, n_consts as int)); }
    }
}
--- after 0
proof {
    assert(nodes@.take(__k0 as int) =~= nodes@);
    let ts = parse(nodes@)->0;
    if ts.len() == 1 {
        assert(ts.drop_last() =~= Seq::<Term>::empty());
        assert(subops_all(ts.drop_last()) =~= Seq::<Term>::empty());
        assert(ts.last() == ts[0]);
        assert(subops_all(ts) =~= subops(ts[0]));
    }
}
