#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to keep statements and anchors)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DE = "dynamic_expressions/src/"
SR = "symbolic_regression/src/"
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, obs, hook=False):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": obs, "hook_needed": ("cfg verif_hooks" if hook else None)}})

p("P01", "Batched evaluation returns the value of the operator tree",
  "For every well-formed postfix expression, data matrix and option setting, evaluating the expression over all rows gives, row by row, exactly the value obtained by applying its operators to its operands bottom-up, with every feature index reading that feature's row of data and every constant index that constant. It holds for any arity up to the declared maximum, any mix of constant and column operands, any number of rows including none, and for the precompiled-plan entry point as well, whatever the scratch buffer held before. Results are promised whenever evaluation reports completion or early exit is disabled.",
  ["programs", "inputs", "configurations"], "all well-formed expressions (any operators, arities, sizes), all data, all option settings",
  "The compiler reuses scratch slots and specialises kernels per operand kind; a wrong reuse or offset shows only for particular tree shapes, and a test suite samples a handful of shapes.",
  [DE+"compile.rs", DE+"evaluate.rs", DE+"dispatch.rs", DE+"utils.rs"],
  [("EvalPlan", "instruction list over reusable slots", DE+"compile.rs"), ("scratch", "slot-major buffer of intermediate columns", DE+"evaluate.rs")],
  [("slot allocation and operand order", DE+"compile.rs compile_plan"), ("operand resolution around the destination slot", DE+"evaluate.rs resolve_val_src"), ("kernels", DE+"evaluate.rs eval_nary/eval_unary_loop/eval_binary_loop")],
  ["eval_tree_array", "eval_tree_array_into", "eval_plan_array_into"])

p("P02", "Malformed expressions are rejected before anything is evaluated",
  "Compiling a postfix program succeeds exactly when every operator finds its operands, has arity between 1 and the maximum, every variable and constant index is in range, and exactly one value remains; anything else is refused with a panic rather than producing a plan. An accepted plan only ever refers to existing slots, features and constants, and never reads the slot it is writing.",
  ["programs"], "all node sequences of up to 65535 nodes, all feature and constant counts",
  "The set of malformed programs is unbounded; tests try three or four of them.",
  [DE+"compile.rs"], [("stack/free slot list", "operands awaiting use; slots free for reuse", DE+"compile.rs")],
  [("operand and index checks", DE+"compile.rs compile_plan")], ["compile_plan", "eval_tree_array"])

p("P03", "Forward derivatives follow the chain rule",
  "For every well-formed expression, data matrix and chosen feature, directional differentiation returns the same values as plain evaluation, and as derivative the chain-rule sum over the expression tree of each operator's partial derivatives times its operands' derivatives, where the chosen feature has derivative one and all other features and constants zero. It holds for any arity, any operand mix and any number of rows, whenever the call reports completion or early exit is off.",
  ["programs", "inputs", "configurations"], "all well-formed expressions, all data, all directions, all option settings",
  "Each operand-kind combination has its own loop; tests compare a few smooth expressions with finite differences.",
  [DE+"evaluate_derivative.rs", DE+"evaluate.rs"], [("der_scratch", "slot-major derivative columns", DE+"evaluate_derivative.rs")],
  [("derivative operand resolution", DE+"evaluate.rs resolve_der_src"), ("derivative kernels", DE+"evaluate.rs diff_nary, grad_unary_loop, grad_binary_loop")],
  ["eval_diff_tree_array"])

p("P04", "Gradients follow the chain rule in every direction",
  "For every well-formed expression and data matrix, the gradient with respect to all features, or with respect to all constants, contains for each direction and row the chain-rule derivative of the expression in that direction, laid out direction-major, along with the values plain evaluation gives. Its shape is always the number of directions times the number of rows, and a call that is abandoned early returns NaN-filled results of that same shape and reports failure.",
  ["programs", "inputs", "configurations"], "all well-formed expressions, all data, both gradient kinds, all option settings",
  "Direction-strided buffers and per-operand specialisations fail only for particular combinations of arity, operand kinds and direction counts.",
  [DE+"evaluate_derivative.rs", DE+"evaluate.rs", DE+"dispatch.rs"], [("grad_scratch", "slot-major, direction-major gradient blocks", DE+"evaluate_derivative.rs")],
  [("gradient operand resolution", DE+"evaluate.rs resolve_grad_src"), ("gradient kernels", DE+"evaluate.rs grad_nary, grad_dir_view"), ("grad_at", DE+"dispatch.rs")],
  ["eval_grad_tree_array"])

p("P05", "The completeness flag tells the truth about non-finite values",
  "With finiteness checking on and at least one row, evaluation, differentiation and gradient computation report completion exactly when every operator result (and a constant that is the whole expression) is finite on every row (directional differentiation through an operator of three or more arguments may in addition count a non-finite derivative as incomplete, but it never reports completion when a value is non-finite); with checking off they always report completion. Turning early exit on or off never changes the flag, and turning it off never changes the returned values of a call that completes.",
  ["programs", "inputs", "configurations"], "all well-formed expressions, all data including NaN and infinities, all option settings",
  "A dropped flag only matters when the only non-finite intermediate is masked later in the tree.",
  [DE+"evaluate.rs", DE+"evaluate_derivative.rs"], [("complete", "conjunction of per-instruction flags", DE+"evaluate.rs")],
  [("flag accumulation", DE+"evaluate.rs eval_plan_array_into"), ("per-kernel checks", DE+"evaluate.rs eval_nary/diff_nary/grad_nary")],
  ["eval_tree_array_into", "eval_diff_tree_array", "eval_grad_tree_array"])

p("P06", "Reusing an evaluation context never changes a result",
  "Whatever sequence of expressions, data matrices and gradient kinds has been run through one evaluation, derivative or gradient context before, the next call through it returns the same result as a call through a fresh context of the same row count. In particular a cached plan is never used for a program, feature count or constant count it was not compiled for.",
  ["histories", "programs"], "all histories of calls through one context",
  "A stale plan needs two programs that agree on what the cache compares; tests reuse contexts on unrelated programs.",
  [DE+"evaluate.rs", DE+"evaluate_derivative.rs", DE+"compile.rs"], [("plan cache", "plan plus the program/feature/constant identity it was built for", DE+"evaluate.rs EvalContext")],
  [("cache validity test", DE+"evaluate.rs needs_recompile"), ("same test for derivatives and gradients", DE+"evaluate_derivative.rs"), ("program identity", DE+"compile.rs build_node_hash")],
  ["eval_tree_array_into", "eval_diff_tree_array", "eval_grad_tree_array"])

p("P07", "Postfix validity and subtree queries agree with the operator tree",
  "The validity test accepts a node sequence exactly when it is the postfix form of one operator tree, and for such sequences the reported subtree sizes, subtree ranges, depth and node counts are those of the tree each position is the root of. Sequences in which an operator lacks operands, or which leave more or fewer than one value, are reported as invalid and refused by the size and depth queries, never given a size.",
  ["programs"], "all node sequences",
  "Mutation and crossover splice by these ranges; an off-by-one shows only on particular nestings.",
  [DE+"node_utils.rs", DE+"node.rs"], [("subtree sizes", "number of nodes of the subtree ending at each position", DE+"node_utils.rs")],
  [("stack walk", DE+"node_utils.rs")], ["node_utils::is_valid_postfix", "node_utils::subtree_sizes", "node_utils::subtree_range", "node_utils::count_depth"])

p("P08", "Removing unused constants preserves the expression",
  "Compressing constants leaves an expression with the same tree, in which every constant reads the same value as before, every remaining constant is used, and constant indices are valid; all leaf kinds other than constants are untouched. Applying it again changes nothing.",
  ["programs"], "all expressions with valid constant indices, including shared and unused constants",
  "Index remapping errors show only with particular orders of shared, repeated or unused constants.",
  [DE+"utils.rs"], [("consts", "constant table indexed by constant nodes", DE+"expression.rs")], [("remapping", DE+"utils.rs compress_constants")], ["utils::compress_constants"])

p("P09", "Simplification never changes what an expression computes",
  "Constant folding and operator-combination simplification return a well-formed expression whose value on every input is that of the original wherever the original is finite (up to rounding in re-associated constants), never longer than the original, using only features and constants that exist. When they report no change the expression is as it was, and they terminate.",
  ["programs", "inputs"], "all well-formed expressions over any operator set, all inputs",
  "Rewrites fire on specific operator/constant patterns at specific depths; tests list a dozen of them.",
  [DE+"simplify.rs"], [("expression nodes and constants", "rewritten in place", DE+"simplify.rs")],
  [("constant folding", DE+"simplify.rs simplify_tree"), ("operator combination", DE+"simplify.rs combine_operators")], ["simplify::simplify_tree_in_place", "simplify::combine_operators_in_place", "simplify::simplify_in_place"])

p("P10", "Building expressions algebraically composes their meaning",
  "Combining expressions with the arithmetic operators and functions yields a well-formed expression whose value is the operator applied to the operands' values in order, with each operand keeping its own constants even when several operands have constants.",
  ["programs", "inputs"], "all operand expressions and operators",
  "Constant index shifting errors need two operands with constants in particular positions.",
  [DE+"expression_algebra.rs", DE+"expression.rs"], [("consts", "concatenated constant tables", DE+"expression_algebra.rs")], [("operand concatenation with constant offset", DE+"expression_algebra.rs")], ["operator overloads on PostfixExpr", "__apply_postfix"])

p("P11", "Mutations keep expressions well-formed",
  "Every mutation operator, applied to a well-formed expression with any random stream, leaves a well-formed expression whose constant and feature indices are valid and whose operators are drawn from the configured ones with the right arity. Each changes only what its name says: constant mutation only constants, operator mutation one operator to another of the same arity, feature mutation one feature, operand swap the order of one operator's operands, and insertion and deletion the expected nodes; and one that reports that nothing was changed leaves the expression exactly as it was.",
  ["programs", "schedules"], "all well-formed expressions, all random streams, all operator configurations",
  "The random stream decides positions; a splice error occurs only at particular positions of particular trees.",
  [SR+"mutation_functions.rs"], [("expression", "nodes and constants edited in place", SR+"mutation_functions.rs")], [("splicing by subtree ranges", SR+"mutation_functions.rs")], ["mutate_* functions (guarded hook)"], True)

p("P12", "Crossover exchanges exactly two subtrees",
  "Crossing two well-formed expressions yields two well-formed children, each being one parent with one subtree replaced by a subtree of the other, with the donated subtree's constants keeping their values. The parents are unchanged.",
  ["programs", "schedules"], "all pairs of well-formed expressions, all random streams",
  "Constant re-indexing across the splice fails only for particular cut positions.",
  [SR+"mutation_functions.rs"], [("children", "spliced copies", SR+"mutation_functions.rs")], [("splice and constant remap", SR+"mutation_functions.rs crossover_trees")], ["crossover_trees (guarded hook)"], True)

p("P13", "Random expression generation is well-formed and keeps to its size",
  "Random generation returns well-formed expressions over the configured operators and existing features, with valid constants, for every random stream. The requested size is met exactly where the configured arities allow it and never exceeded.",
  ["schedules", "configurations"], "all random streams, sizes, operator configurations and feature counts",
  "Only particular draws reach the edge cases of leaf replacement.",
  [SR+"mutation_functions.rs"], [("expression", "grown node list", SR+"mutation_functions.rs")], [("growth loop", SR+"mutation_functions.rs random_expr, random_expr_append_ops")], ["random_expr", "random_expr_append_ops (guarded hook)"], True)

p("P14", "Structural constraints are enforced exactly",
  "An expression passes the constraint check exactly when its complexity and depth are within the limits, every operator's arguments respect the configured argument-complexity limits, and no operator is nested inside another more deeply than configured. Argument positions, arities and nested occurrences are attributed to the right operator at every depth.",
  ["programs", "configurations"], "all well-formed expressions and constraint settings",
  "Attribution errors show only for particular nestings and argument positions.",
  [SR+"check_constraints.rs"], [("options", "configured limits", SR+"options.rs")], [("argument ranges and nestedness", SR+"check_constraints.rs")], ["check_constraints (guarded hook)"], True)

p("P15", "Complexity is the configured weighted node sum",
  "The complexity of an expression is the sum over its nodes of the configured weight of that node's kind (variables per feature or overall, constants, operators by arity and identity), defaulting to one each, saturating instead of overflowing. It depends only on the node list and the configuration.",
  ["programs", "configurations"], "all expressions and weight settings",
  "Mixed weight settings and operators sharing an id across arities are rarely sampled.",
  [SR+"complexity.rs", SR+"options.rs"], [("weights", "per-kind weights", SR+"options.rs")], [("weighted sum", SR+"complexity.rs compute_complexity")], ["compute_complexity"])

p("P16", "The hall of fame keeps the best member of every complexity",
  "After any sequence of submissions, the hall of fame holds for each complexity from one to the maximum size the member of lowest cost (the earliest among equals) out of the members submitted at that complexity that satisfy the structural constraints, and nothing else. The reported Pareto front is exactly those held members whose loss is below infinity and strictly below the loss of every held member of smaller complexity, in increasing complexity.",
  ["histories"], "all submission histories, including infinite losses and out-of-range complexities (costs and losses that are not NaN)",
  "Order-dependent errors need particular submission sequences.",
  [SR+"hall_of_fame.rs"], [("members/exists", "best per complexity", SR+"hall_of_fame.rs")], [("consider", SR+"hall_of_fame.rs"), ("pareto_front", SR+"hall_of_fame.rs")], ["HallOfFame::consider", "HallOfFame::pareto_front"], True)

p("P17", "Evolution replaces the oldest members and keeps population size",
  "Replacing members of a population always overwrites the member with the earliest birth (the two earliest for a pair), touches no other member, and keeps the population's size. After any number of evolution steps the population has the same size and every survivor is either an original or a newly created member.",
  ["histories"], "all populations and birth orders",
  "Tie and ordering errors need particular birth permutations.",
  [SR+"population.rs", SR+"regularized_evolution.rs"], [("members", "population array with birth stamps", SR+"population.rs")], [("oldest index search", SR+"population.rs"), ("replacement", SR+"regularized_evolution.rs")], ["Population::oldest_index / two_oldest_indices (guarded hook)", "reg_evol_cycle"], True)

p("P18", "Migration only copies migrants in and keeps the population intact",
  "Migration replaces some members of a population by copies of members of the migrant pool, each with a fresh identifier and birth stamp, the migrant as its parent, and otherwise identical, and leaves all other members and the population size unchanged. With an empty pool or a zero fraction nothing changes.",
  ["schedules", "inputs"], "all populations, pools, fractions and random streams",
  "Replacement positions and counts are random.",
  [SR+"migration.rs"], [("population members", "overwritten in place", SR+"migration.rs")], [("sampling positions and migrants", SR+"migration.rs migrate_into")], ["migrate_into (guarded hook)"], True)

p("P19", "Tournament selection picks from the drawn sample by rank",
  "Tournament selection returns a member of the population that is among the distinct members drawn for the tournament, and with selection probability one it is the member with the lowest (parsimony-adjusted) cost of the draw. Weighted choice never returns an item of zero weight when some weight is positive, and sampled index sets are distinct, in range and of the requested size.",
  ["schedules", "inputs"], "all populations, tournament sizes and random streams",
  "Bad picks depend on the random stream and on ties.",
  [SR+"selection.rs"], [("sample", "drawn indices", SR+"selection.rs")], [("sampling", SR+"selection.rs")], ["best_of_sample", "weighted_index (guarded hook)"], True)

p("P20", "Constant optimisation never makes a member worse",
  "Optimising the constants of a member never changes its tree or the number of its constants. When it reports an improvement, the member carries the loss and cost of its new constants on the data used, and that loss is strictly below the loss of the old constants; when it reports none, the member's constants, loss, cost and birth are exactly what they were. The member's loss on that data therefore never rises.",
  ["programs", "inputs", "schedules"], "all members, data sets, losses and random streams",
  "Whether a restart is accepted depends on random starts and on non-finite losses.",
  [SR+"constant_optimization.rs", SR+"optim.rs"], [("member", "constants and cached loss", SR+"constant_optimization.rs")], [("accept only improvement", SR+"constant_optimization.rs optimize_constants")], ["optimize_constants (guarded hook)"], True)

p("P21", "Search members always carry the loss of their own expression",
  "A mutation step leaves its parent alone and yields one new member, born from it: if the mutation failed or was rejected, the new member has the parent's expression, complexity, loss and cost; if it was accepted, its expression satisfies the structural constraints and it carries the complexity, loss and cost of its own expression on the data evaluated, except that a pure simplification keeps its parent's loss, with its own complexity and the cost of both. A crossover yields two members of which each satisfies the constraints and carries its own complexity, loss and cost, or copies of both parents. Over a cycle of evolution a population keeps its size, each member's expression is one it started with or satisfies the constraints, and its stored complexity, loss and cost belong to its expression; the hall of fame of the cycle holds only members satisfying the constraints, at their own complexity, with losses on the full data when the cycle ran on batches. After the optimisation phase every member carries exactly the complexity, loss and cost of its own expression on the full data. So throughout a whole search, whatever the stepping and whatever the order in which workers finish, every member of every population, every member of the hall of fame, the best member and every member returned carries the complexity, the loss on the full data and the cost of its own expression.",
  ["histories", "schedules"], "all search histories and random streams",
  "Stale losses arise from particular mutation/acceptance sequences.",
  [SR+"mutate.rs", SR+"pop_member.rs", SR+"regularized_evolution.rs"], [("PopMember", "expression with cached complexity, loss, cost, plan", SR+"pop_member.rs")], [("next_generation", SR+"mutate.rs"), ("evaluate", SR+"pop_member.rs")], ["next_generation", "crossover_generation", "PopMember::evaluate (guarded hook)"], True)

p("P22", "A search performs exactly the configured amount of work",
  "A search performs exactly niterations times populations cycles and no more: in every round each population is worked on exactly once. Stepping an engine by a budget performs the smaller of the budget and the remaining cycles and returns that number, whatever budgets came before; the engine is finished exactly when the total is reached, and further steps change nothing. The parallel driver performs the same total for every order in which workers finish. At no point is anything found lost: a complexity held in the hall of fame stays held, by the same member or one of strictly lower cost, and a best member that satisfies the constraints gives way only to another that does and has a strictly lower loss; once a population with a member satisfying the constraints has been taken up, the best member satisfies them and no such member of that population has a lower loss.",
  ["histories", "schedules", "configurations"], "all stepping sequences, population and iteration counts, orders of worker completion; at least one population",
  "Accounting errors need particular splits of the budget or orders of completion.",
  [SR+"search_utils.rs", SR+"warmup.rs"], [("counters", "cycles started/completed/total", SR+"search_utils.rs"), ("pools", "populations and the best member", SR+"search_utils.rs"), ("hall", "best member by complexity", SR+"hall_of_fame.rs")], [("step accounting", SR+"search_utils.rs"), ("best member replacement", SR+"search_utils.rs apply_task_result")], ["SearchEngine::new", "SearchEngine::step", "SearchEngine::run_to_completion", "SearchEngine::is_finished", "SearchEngine::best", "SearchEngine::hall_of_fame", "equation_search"], True)

p("P23", "Train/validation splitting partitions the rows",
  "Splitting a data set of n rows gives two index lists that together contain every row exactly once, with the validation part being the requested fraction (at most 90 percent) of the rows, rounded to the nearest whole number, and the training part never empty when there is a row at all. The split data sets hold exactly those rows of features, targets and weights, in corresponding order.",
  ["inputs", "schedules"], "all row counts, fractions and seeds",
  "Rounding at small sizes and extreme fractions is easily missed.",
  ["web/wasm/src/lib.rs"], [("indices", "shuffled row numbers", "web/wasm/src/lib.rs")], [("split", "web/wasm/src/lib.rs make_split_indices")], ["make_split_indices, split_train_val (guarded hook)"], True)

p("P24", "Adaptive parsimony statistics stay consistent",
  "The running complexity-frequency statistics count each submitted in-range complexity exactly once and ignore the others. Reducing them leaves them alone when their total is within the window, and otherwise brings the total down to the window (or until every count is one), never raising a count, never taking one below one and never changing the order of two counts. The normalised frequencies are the counts divided by their sum.",
  ["histories"], "all histories of updates, window moves and normalisations",
  "The window-reduction loop has corner cases that depend on the accumulated counts.",
  [SR+"adaptive_parsimony.rs"], [("frequencies", "counts per complexity", SR+"adaptive_parsimony.rs")], [("move_window", SR+"adaptive_parsimony.rs")], ["RunningSearchStatistics"], True)

p("P25", "Losses and their derivatives are the stated weighted means",
  "Each built-in loss is the (weighted) mean over rows of its stated per-row function, and its gradient with respect to the predictions is the derivative of that mean wherever the row function is differentiable (and zero at its kinks), up to rounding; unit weights give the unweighted loss, and weights that sum to zero give zero for both.",
  ["inputs"], "all predictions, targets and weights",
  "Weight normalisation errors vanish with the uniform weights tests use.",
  [SR+"loss_functions.rs"], [("loss parameters", "per-loss parameters", SR+"loss_functions.rs")], [("weighted mean", SR+"loss_functions.rs")], ["LossFn"], True)

p("P26", "The size limit warm-up stays within bounds and reaches the maximum",
  "During warm-up the current size limit starts at three (or at the maximum, if that is smaller), never decreases as progress advances, never exceeds the configured maximum, and equals it once the warm-up fraction has passed or when warm-up is disabled.",
  ["configurations", "histories"], "all configurations and progress values",
  "Rounding and extreme configurations are not sampled.",
  [SR+"warmup.rs"], [("cur_maxsize", "current size limit", SR+"warmup.rs")], [("interpolation", SR+"warmup.rs get_cur_maxsize")], ["get_cur_maxsize (guarded hook)"], True)

p("P27", "Data sets and mini-batches contain consistent rows of the full data set",
  "A data set holds exactly the rows it was given, whatever the memory layout of the arrays. A batch data set filled from the full data set contains for each batch row the features, target and weight of one and the same row of the full data set, for every random stream, and the full data set is never modified.",
  ["schedules", "inputs"], "all data sets, batch sizes and random streams",
  "Row/column mix-ups need particular shapes and weights.",
  [SR+"dataset.rs"], [("batch", "resampled rows", SR+"dataset.rs")], [("resample", SR+"dataset.rs")], ["Dataset"], True)

p("P28", "Built-in operators compute their named function and its partial derivatives",
  "Every built-in operator returns the mathematical function its name states at every argument where that function is defined, and the partial derivative it reports for each argument is the derivative of that same function wherever it is differentiable. An operator set dispatches every operator identifier it lists to the operator of that name, so the metadata, the lookup by name, symbol or infix and the evaluated function always agree, and an ambiguous or unknown token is reported as such.",
  ["inputs", "programs"], "all built-in operators, all arguments, all preset operator sets and tokens",
  "There are dozens of operators with branch points; tests evaluate a few of them at a few points, and a wrong branch or argument order shows only there.",
  [DE+"operator_enum.rs", DE+"traits.rs", DE+"operators.rs"], [("operator tables", "per-arity identifiers and metadata of a preset", DE+"operator_enum.rs")],
  [("operator definitions", DE+"operator_enum.rs builtin_op!"), ("dispatch", DE+"operators.rs opset!"), ("lookup", DE+"traits.rs lookup, lookup_with_arity")],
  ["Operator::eval", "Operator::partial", "OperatorSet::lookup"])

p("P29", "Printed expressions show their tree",
  "The text of an expression (string_tree, Display, print_tree) is determined by its tree and shows all of it: a variable appears under the name supplied with the options, else under the expression's own name for it, else as x followed by its number; a constant as its own Display text; an operator that has an infix symbol and at least two operands as its operands, each exactly once and in order, joined by that symbol inside parentheses; any other operator as its name followed by its parenthesised comma-separated operands. Only pairs of parentheses that enclose a whole call argument or the whole text are omitted, so with names free of punctuation the text reads back to the same tree. The pretty option changes nothing but the symbols.",
  ["inputs", "programs"], "all expressions, operator sets, names and styles",
  "The result of a search is read by its printed form, and the places where parentheses may be left out depend on the whole text; tests print a handful of small trees.",
  [DE+"strings.rs", DE+"traits.rs"], [("stack of partial texts", "the texts of the subtrees read so far", DE+"node_utils.rs tree_mapreduce")],
  [("string_tree", DE+"strings.rs string_tree"), ("strip_outer_parens", DE+"strings.rs strip_outer_parens"), ("default_string_variable", DE+"strings.rs default_string_variable"), ("names and symbols", DE+"traits.rs OperatorSet::name, display, infix")],
  ["string_tree", "PostfixExpr Display"])

p("P30", "An operator selection holds exactly the operators its tokens name",
  "Building the operator selection of a search from tokens (Operators::from_names, from_names_by_arity) succeeds exactly when there is at least one token, every token names exactly one operator of the operator set (of any arity, or of the arity it is listed under) by its name in any letter case, its display symbol or its infix symbol, blanks around it aside, that operator's arity is one the selection can hold, and no operator is named twice. The selection then holds, for each arity, exactly the named operators of that arity in the order of their tokens. Otherwise the first token at fault decides the error, which says what is wrong with it: unknown, ambiguous, arity too large, or duplicate; no tokens at all is reported as empty. The builder appends each operator asked for to the list of its arity.",
  ["inputs"], "all operator sets, token lists and numbers of arities",
  "The selection decides which functions a search may use at all; a token resolved to the wrong operator, or one dropped or kept twice, silently searches another space, and tests try two tokens.",
  [SR+"operators.rs", DE+"traits.rs"], [("ops_by_arity", "the operators named so far, by arity, in order", SR+"operators.rs Operators")],
  [("from_names", SR+"operators.rs Operators::from_names"), ("from_names_by_arity", SR+"operators.rs Operators::from_names_by_arity"), ("lookup", DE+"traits.rs lookup, lookup_with_arity, lookup_all, matches_token")],
  ["Operators::from_names", "Operators::from_names_by_arity"])

p("P31", "Mutation kinds are drawn by their configured weights",
  "When a member is mutated, the kind of mutation that is tried has a positive configured weight and is one the member admits: never a kind whose weight is zero; never an operator change, deletion or simplification of a single leaf, an operand swap in a tree without a binary operator, a constant change in a tree without constants, a feature change on a lone constant or (beyond a single leaf) with fewer than two features, a node addition or insertion in a tree beyond a leaf whose complexity has reached the current size limit; never a simplification when that is switched off, nor an optimisation of a tree without constants or (beyond a single leaf) when constant optimisation is switched off or has probability zero. Among the admitted kinds the draw uses the configured weights unchanged, except that the weight of constant changes beyond a single leaf is reduced to one eighth per constant up to eight. This holds when the weights are finite and non-negative and some admitted kind has a positive one. The configured weights themselves are not altered.",
  ["inputs"], "all members, weights, settings and random streams",
  "The weights are how a user steers a search and switches kinds of change off; a kind that is tried in spite of a zero weight, or weights attached to the wrong kinds, changes every search without any visible sign.",
  [SR+"mutate.rs", SR+"selection.rs"], [("weights", "the weights of the twelve kinds for one member", SR+"mutate.rs condition_mutation_weights")],
  [("condition_mutation_weights", SR+"mutate.rs condition_mutation_weights"), ("sample_mutation", SR+"mutate.rs sample_mutation"), ("next_generation", SR+"mutate.rs next_generation")],
  ["next_generation", "SearchEngine::step"])

p("P32", "Reported error figures are those of the predictions",
  "The figures the browser front-end reports for a member's predictions on a data set are those of its predictions and the targets: the row count; the weighted means of the squared and of the absolute errors (unweighted without row weights, zero when the weights do not sum to something positive) and the root of the former; the coefficient of determination about the weighted mean of the targets (zero when the targets do not vary, which for weighted data means among rows of nonzero weight); Pearson's correlation of predictions and targets over the rows without weights, as documented (zero when either does not vary); and the least and the greatest absolute error (zero without rows). Without rows the coefficient and the correlation are NaN. Rounding and overflow aside, for finite predictions, targets and weights.",
  ["inputs"], "all lists of finite predictions, targets and weights",
  "Users choose among equations by these figures; a slip in weighting or normalisation gives plausible numbers, and no test covers them.",
  ["web/wasm/src/lib.rs"], [("sse, sst, cov, vy, vyh", "the sums over the rows seen so far", "web/wasm/src/lib.rs r2_and_corr")],
  [("compute_metrics", "web/wasm/src/lib.rs compute_metrics"), ("r2_and_corr", "web/wasm/src/lib.rs r2_and_corr")],
  ["WasmSearch::evaluate_member"])

p("P33", "Costs follow the configured rule",
  "The cost recorded for a member of finite loss is its loss divided by a normaliser plus the parsimony times its complexity, and infinity for a member without a finite loss. The normaliser is the baseline when use_baseline is set and the baseline is at least 0.01, and 0.01 otherwise; the baseline of a search is the loss, on its full data set with its weights, of predicting zero in every row, provided that is a finite number. One and the same baseline serves every population, mini-batch, mutation, optimisation and hall of fame of the search, so that costs are comparable throughout and the best member and the hall of fame returned carry costs by this rule. Rounding and overflow aside.",
  ["inputs", "configurations", "histories"], "all data sets, weights, loss functions, parsimonies and settings; all stepping sequences and orders of worker results",
  "Costs decide every acceptance, tournament and replacement; a wrong normaliser or a baseline of other data leaves every result plausible, and no test compares costs across parts of a search.",
  [SR+"loss_functions.rs", SR+"search_utils.rs", SR+"pop_member.rs", SR+"mutate.rs"], [("baseline_loss", "the baseline of the search, handed on with the data set", SR+"dataset.rs TaggedDataset")],
  [("loss_to_cost", SR+"loss_functions.rs loss_to_cost"), ("baseline", SR+"loss_functions.rs baseline_loss_from_zero_expression"), ("evaluate", SR+"pop_member.rs PopMember::evaluate"), ("the search", SR+"search_utils.rs SearchEngine::new, equation_search_parallel")],
  ["SearchEngine::best", "SearchEngine::hall_of_fame", "equation_search"], hook=True)


with open(f"{V}/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
