=== raw
// ---- choosing the kind of mutation ----
pub open spec fn is_leaf(n: PNode) -> bool { n is Var || n is Const }
pub open spec fn all_leaves(s: Seq<PNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_leaf(#[trigger] s[i]) }
pub open spec fn is_binary(n: PNode) -> bool { n is Op && n->arity == 2 }
pub open spec fn some_binary(s: Seq<PNode>) -> bool { exists|i: int| 0 <= i < s.len() && is_binary(#[trigger] s[i]) }
pub open spec fn n_consts(s: Seq<PNode>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { n_consts(s.drop_last()) + (if s.last() is Const { 1int } else { 0 }) } }
pub open spec fn w0(keep: bool, w: Fx) -> Fx { if keep { w } else { fx_lit(0, 1) } }
/// eighths of the weight, by the number of constants
pub open spec fn few(n: int) -> Fx { fx_int(if n < 8 { n } else { 8 }).s_div(fx_lit(8, 1)) }
/// the weights of the kinds of mutation for this member: zero for a kind it does not admit
pub open spec fn conditioned<T: Float, Ops, const D: usize>(w: MutationWeights, m: PopMember<T, Ops, D>, o: Options<T, D>, cur: int, nf: int) -> MutationWeights {
    let ns = m.expr.nodes@;
    let hasc = m.expr.consts@.len() > 0;
    if all_leaves(ns) {
        MutationWeights {
            mutate_operator: fx_lit(0, 1), swap_operands: fx_lit(0, 1), delete_node: fx_lit(0, 1), simplify: fx_lit(0, 1),
            optimize: w0(hasc, w.optimize), mutate_constant: w0(hasc, w.mutate_constant), mutate_feature: w0(!hasc, w.mutate_feature), ..w
        }
    } else {
        MutationWeights {
            swap_operands: w0(some_binary(ns), w.swap_operands),
            mutate_constant: w.mutate_constant.s_mul(few(n_consts(ns))),
            mutate_feature: w0(nf > 1, w.mutate_feature),
            add_node: w0(m.complexity < cur, w.add_node), insert_node: w0(m.complexity < cur, w.insert_node),
            simplify: w0(o.should_simplify, w.simplify),
            optimize: w0(o.should_optimize_constants && !(!o.optimizer_probability.isnan() && o.optimizer_probability.k() == 0real) && hasc, w.optimize), ..w
        }
    }
}
/// the weight of a kind of mutation
pub open spec fn weight_of(w: MutationWeights, c: MutationChoice) -> Fx {
    match c {
        MutationChoice::MutateConstant => w.mutate_constant, MutationChoice::MutateOperator => w.mutate_operator, MutationChoice::MutateFeature => w.mutate_feature,
        MutationChoice::SwapOperands => w.swap_operands, MutationChoice::RotateTree => w.rotate_tree, MutationChoice::AddNode => w.add_node,
        MutationChoice::InsertNode => w.insert_node, MutationChoice::DeleteNode => w.delete_node, MutationChoice::Simplify => w.simplify,
        MutationChoice::Randomize => w.randomize, MutationChoice::DoNothing => w.do_nothing, MutationChoice::Optimize => w.optimize,
    }
}
pub open spec fn listed_weights(w: MutationWeights) -> Seq<Fx> {
    seq![w.mutate_constant, w.mutate_operator, w.mutate_feature, w.swap_operands, w.rotate_tree, w.add_node, w.insert_node, w.delete_node, w.simplify, w.randomize, w.do_nothing, w.optimize]
}
/// the member admits this kind of mutation
pub open spec fn admits<T: Float, Ops, const D: usize>(c: MutationChoice, m: PopMember<T, Ops, D>, o: Options<T, D>, cur: int, nf: int) -> bool {
    let ns = m.expr.nodes@;
    let hasc = m.expr.consts@.len() > 0;
    let leaf = all_leaves(ns);
    match c {
        MutationChoice::MutateConstant => if leaf { hasc } else { n_consts(ns) > 0 },
        MutationChoice::MutateOperator | MutationChoice::DeleteNode => !leaf,
        MutationChoice::MutateFeature => if leaf { !hasc } else { nf > 1 },
        MutationChoice::SwapOperands => !leaf && some_binary(ns),
        MutationChoice::AddNode | MutationChoice::InsertNode => leaf || m.complexity < cur,
        MutationChoice::Simplify => !leaf && o.should_simplify,
        MutationChoice::Optimize => hasc && (leaf || (o.should_optimize_constants && !(!o.optimizer_probability.isnan() && o.optimizer_probability.k() == 0real))),
        _ => true,
    }
}
pub proof fn n_consts_bounds(s: Seq<PNode>)
    ensures 0 <= n_consts(s) <= s.len(), 
    decreases s.len(),
{ if s.len() > 0 { n_consts_bounds(s.drop_last()); } }
#[verifier::external_body]
pub proof fn fx_lit_whole(n: int) requires 0 <= n <= 16777216 ensures fx_lit(n, 1).isfin(), fx_lit(n, 1).k() == n as real { }
/// THEOREM: a kind with a positive conditioned weight is configured with a positive weight, and the member admits it
pub proof fn chosen<T: Float, Ops, const D: usize>(c: MutationChoice, w: MutationWeights, m: PopMember<T, Ops, D>, o: Options<T, D>, cur: int, nf: int)
    requires weight_of(conditioned(w, m, o, cur, nf), c).k() > 0real, weight_of(conditioned(w, m, o, cur, nf), c).isfin(),
        weight_of(w, c).isfin(), weight_of(w, c).k() >= 0real,
    ensures weight_of(w, c).k() > 0real, admits(c, m, o, cur, nf),
{
    fx_laws(); fx_int_law();
    n_consts_bounds(m.expr.nodes@);
    if c is MutateConstant && !all_leaves(m.expr.nodes@) {
        let n = n_consts(m.expr.nodes@);
        let f = few(n);
        rnd_int(if n < 8 { n } else { 8 }); rnd_int(8);
        fx_lit_whole(8);
        if n == 0 {
            assert(fx_int(0).k() == 0real);
            assert(fx_is(f, 0real / 8real));
            assert(fx_is(w.mutate_constant.s_mul(f), w.mutate_constant.k() * 0real));
            assert(w.mutate_constant.k() * 0real == 0real) by (nonlinear_arith);
        }
        if w.mutate_constant.k() == 0real {
            let e: int = if n < 8 { n } else { 8 };
            assert(fx_int(e).k() == e as real);
            assert(0real <= (e as real) / 8real <= 1real) by (nonlinear_arith) requires 0 <= e <= 8;
            assert(fx_is(f, (e as real) / 8real));
            assert(f.isfin());
            assert(0real * f.k() == 0real) by (nonlinear_arith);
        }
    }
}
pub proof fn is_listed(w: MutationWeights, c: MutationChoice)
    requires weights_ok(listed_weights(w)),
    ensures weight_ok(weight_of(w, c)),
{
    let l = listed_weights(w);
    assert(weight_ok(l[0]) && weight_ok(l[1]) && weight_ok(l[2]) && weight_ok(l[3]) && weight_ok(l[4]) && weight_ok(l[5]) && weight_ok(l[6]) && weight_ok(l[7]) && weight_ok(l[8]) && weight_ok(l[9]) && weight_ok(l[10]) && weight_ok(l[11]));
}
/// a kind that may be tried on the member: configured with a positive weight and admitted
pub open spec fn may_try<T: Float, Ops, const D: usize>(c: MutationChoice, m: PopMember<T, Ops, D>, o: Options<T, D>, cur: int, nf: int) -> bool {
    weight_of(o.mutation_weights, c).k() > 0real && admits(c, m, o, cur, nf)
}
