# symbolic_regression: the cost of a loss - loss over the normaliser plus parsimony times complexity
=== include prelude.inc
=== include realfloat.inc
=== raw
/// the normaliser: the baseline when it is used and at least 0.01, otherwise 0.01
pub open spec fn normaliser<T: Float>(use_baseline: bool, b: Option<T>) -> real {
    if use_baseline && b is Some && b->0.r() * 100real >= 1real { b->0.r() } else { 1real / 100real }
}
=== fn symbolic_regression/src/loss_functions.rs loss_to_cost
--- opt fx
--- ret r
--- spec
ensures r.r() == loss.r() / normaliser(use_baseline, baseline_loss) + fx_num(parsimony) * (complexity as real), // [P33]
--- entry
proof { T::laws(); }
