# The table of properties, executed by gen.py. prop(id, title, statement, over, text, why, files, mech, tech, note)
BFS = "bounded exhaustive enumeration of programs x inputs on the real code against a reference model"

prop("C01", "Array evaluation equals evaluating the expression tree row by row",
 "Evaluating an expression over a data set gives, for each row, exactly the value obtained by applying its operators to its operands bottom-up on that row alone, with operands in written order. This holds for every well-formed expression (any arity mix, any number of simultaneously live intermediate results, shared or unused constants), every number of rows including zero, any memory layout of the data, and through every evaluation entry point.",
 ["programs", "inputs"], "all well-formed expressions up to the stated size over operator sets of arity 1-5, all leaf labellings of wide shapes, row counts 0..130, array layouts, all entry points",
 "The tests and property tests sample a few dozen expressions and one layout; a wrong slot reuse, operand order or kernel shortcut appears only in particular tree shapes and leaf combinations.",
 [DE+"evaluate.rs", DE+"compile.rs", DE+"traits.rs", DE+"dispatch.rs"], [("compile_plan slot allocation", DE+"compile.rs"), ("eval kernels, specialisations by operand kind", DE+"evaluate.rs"), ("NaryEval dispatch", DE+"traits.rs")],
 BFS, "Every tree up to the bound was evaluated by the real code and compared with an independent recursive interpreter whose operators make every subtree's value distinct; assumes the small-scope hypothesis for larger trees.")
prop("C02", "The completeness flag tells exactly whether evaluation stayed finite",
 "With finiteness checking on and finite data, evaluation reports itself complete if and only if no operator application or used constant produced a non-finite value on any row; with checking off it always reports complete. Stopping early never changes the flag, and a complete result always carries the true values; derivative evaluations never claim completeness when the expression's own value became non-finite.",
 ["programs", "inputs", "configurations"], "all expressions up to the bound x data with one non-finite-producing row at each position x both options",
 "Tests exercise two or three hand-picked overflow cases; skipping one operand kind, one row or one kernel is invisible to them.",
 [DE+"evaluate.rs"], [("finiteness scan after each kernel", DE+"evaluate.rs")],
 BFS, "Exhaustive over expressions up to the bound, options and the position of the offending row; finite input data only.")
prop("C03", "Forward-mode derivatives follow the chain rule",
 "The derivative of an expression with respect to a chosen variable is, on every row, the chain-rule combination of its operators' partial derivatives at the actual operand values, and the value returned with it is the plain evaluation. An operand that does not depend on the chosen variable contributes nothing, even where its own partial derivative does not exist.",
 ["programs", "inputs"], "all well-formed expressions up to the bound x every variable x data including points where some partials are undefined",
 "Tests compare against finite differences on a few fixed expressions and smooth points.",
 [DE+"evaluate.rs", DE+"evaluate_derivative.rs", DE+"operator_enum.rs"], [("eval_diff_tree_array", DE+"evaluate_derivative.rs"), ("diff kernels per arity", DE+"evaluate.rs")],
 BFS, "Exhaustive over expressions up to the bound with tagged operators whose partials are pairwise distinct, plus built-ins.")
prop("C04", "Gradients are correct, complete and laid out one direction after another",
 "The gradient of an expression, with respect to all variables or to all constants, holds for every direction and row the chain-rule derivative, stored direction by direction, with one direction per variable of the data or per constant of the table (zero for those not used). It agrees with the forward derivative, and works for any number of rows, including none.",
 ["programs", "inputs"], "all well-formed expressions up to the bound x both gradient kinds x row counts 0..130 x constants shared, unused or out of order",
 "Tests check few expressions with one constant each; a transposed layout or dropped direction needs several directions, rows and a particular operand kind.",
 [DE+"evaluate_derivative.rs", DE+"evaluate.rs"], [("eval_grad_tree_array", DE+"evaluate_derivative.rs"), ("grad kernels", DE+"evaluate.rs")],
 BFS, "Exhaustive over expressions up to the bound; same oracle as C03 in every direction.")
prop("C05", "Built-in operators compute their functions and true partial derivatives",
 "Every built-in operator returns the value of the mathematical function it is named after, in single and double precision, including its documented behaviour outside the natural domain (non-finite rather than a made-up number). Its partial derivatives equal the true derivatives wherever these exist.",
 ["inputs"], "every built-in operator x every tuple of a grid of arguments covering signs, zeros, integers, halves, domain edges, large and tiny magnitudes",
 "Tests evaluate a handful of operators at one or two points; a wrong branch or partial shows only at particular signs or domain edges.",
 [DE+"operator_enum.rs"], [("builtin operator definitions", DE+"operator_enum.rs")],
 "exhaustive enumeration of operator x argument grid on the real code against reference definitions",
 "All operators on every grid tuple; between grid points nothing is claimed.")
prop("C06", "Reusing an evaluation context never changes results",
 "Evaluating through contexts or scratch buffers that were used before - for other expressions, other data, other row counts, other options or other kinds of derivative - gives exactly the results of fresh ones, and never panics where fresh ones do not.",
 ["histories"], "all sequences of evaluation calls up to depth 2 over the full call alphabet and depth 3 over the core one, plus all ordered pairs of equal-length small trees",
 "Tests reuse a context once or twice with the same shapes; stale plans or buffers depend on the pair of calls.",
 [DE+"evaluate.rs", DE+"compile.rs"], [("cached plan fingerprint", DE+"evaluate.rs"), ("scratch resizing", DE+"evaluate.rs")],
 "explicit enumeration of all call histories up to a depth on the real contexts, compared with fresh contexts",
 "Every history in the bound replayed on real contexts; call alphabet varies expression, constants, data shape and options one at a time.")
prop("C07", "Simplification preserves meaning and never grows an expression",
 "Simplifying or constant-combining any expression leaves its value unchanged on every input where the original is finite (up to rounding of re-associated constants), keeps it well formed with all constant references valid, never increases its number of nodes, and folds operators applied only to constants when the result is finite. When it reports that nothing changed, the expression is untouched.",
 ["programs"], "all expressions up to the bound over operator sets whose ids coincide across arities, lacking some combinable operators, or holding all built-ins",
 "Tests cover about ten rewrite examples; a sign slip in one of the re-association patterns or an id mix-up between arities needs a particular nested pattern.",
 [DE+"simplify.rs"], [("simplify_in_place", DE+"simplify.rs"), ("combine_operators_in_place", DE+"simplify.rs")],
 BFS, "Exhaustive over trees up to the bound with generic constants and several data rows.")
prop("C08", "Reading, writing and compacting constants keeps every constant in its place",
 "Reading an expression's constants and writing back a list changes exactly the listed constants and no others; compacting the constant table drops only unreferenced entries and leaves the value each leaf refers to unchanged, with every remaining entry referenced; compacting twice changes nothing more.",
 ["programs", "inputs"], "all node sequences up to the bound x all reference patterns into tables with unused and shared entries x all partial and permuted position lists",
 "Tests use one or two expressions with in-order constants.",
 [DE+"utils.rs", DE+"expression.rs"], [("get/set_scalar_constants, compress_constants", DE+"utils.rs")],
 BFS, "Exhaustive over reference patterns within the bound.")
prop("C09", "Expression arithmetic composes: (f op g)(x) = f(x) op g(x)",
 "Combining expressions with operator syntax or with the named operator functions yields an expression whose value is the operator applied to the operands' values in the written order, with each operand's constants kept independent and the operands unchanged. Scalars on either side act as constants.",
 ["programs"], "all programs of the algebra up to depth 3 over variables, constants, scalars on both sides and every operator wrapper",
 "Tests build a few expressions by hand; constant-index offsetting and operand order go wrong only in particular nestings.",
 [DE+"expression_algebra.rs", DE+"operators.rs", DE+"expression.rs"], [("operator overloads and __apply_postfix", DE+"expression_algebra.rs")],
 BFS, "All programs to the bounded depth, compared with composition of evaluated operands.")
prop("C10", "Printed expressions read back as the same expression",
 "The text printed for an expression determines it: parsed with the usual reading of parentheses, infix operators and function calls it has the same value as the expression, with the given variable names (or x0, x1, ... as documented) and each constant printed so that it reads back as the same number.",
 ["programs", "configurations"], "all expressions up to the bound x operator sets with infix, prefix and custom display names x naming options",
 "Tests compare a few fixed strings; a missing parenthesis or swapped operand shows only for certain nestings.",
 [DE+"strings.rs"], [("string_tree / StringTreeOptions", DE+"strings.rs")],
 BFS, "Every tree up to the bound is rendered by the real code, parsed by an independent parser and compared structurally.")
prop("C11", "Operator names, ids and dispatch stay consistent in every operator set",
 "In any declared operator set, looking an operator up by any of its names or symbols (with arity where ambiguous) finds exactly that operator, unknown or ambiguous names are refused, and the id found evaluates and differentiates as the operator that the metadata names. Ids, arities and counts reported by a set agree with each other.",
 ["configurations"], "all tokens x several spellings x arities over built-in, custom and clashing operator sets; all ids x evaluation, forward and reverse dispatch",
 "Tests look up a few names in one set; clashes between arities or aliases need specific combinations.",
 [DE+"traits.rs", DE+"operator_enum.rs", DE+"dispatch.rs", DE+"operators.rs"], [("OperatorSet lookup", DE+"traits.rs"), ("custom_opset!, opset!", DE+"operator_enum.rs")],
 "exhaustive enumeration of operator sets x tokens x arities on the real registry",
 "Complete over the tokens and sets in the harness, among them sets with ids, names and symbols that coincide across arities.")
prop("C13", "Tree utilities describe exactly the tree",
 "For any sequence of nodes, the utilities accept it as one expression exactly when it is a well-formed postfix tree, and for such a tree the reported subtree sizes, subtree ranges, child ranges, depth, node counts and leaf positions are those of the tree. Folding over the tree visits each node once, children in order, and malformed input is refused, not misread.",
 ["programs", "histories"], "all node sequences (well-formed or not) up to the bound, and histories mixing malformed and well-formed inputs",
 "Property tests sample trees of fixed arity; malformed sequences and stale thread-local buffers are barely touched.",
 [DE+"node_utils.rs", DE+"node.rs"], [("subtree_sizes, subtree_range, count_depth, is_valid_postfix", DE+"node_utils.rs"), ("tree_mapreduce", DE+"node_utils.rs")],
 BFS, "All node sequences up to the bound, compared with an independent stack parser.")

# ------------------------------------------------------------------ symbolic_regression
RNG = "stateless exploration of the real code under a random-number generator whose every outcome is enumerated"
HIST = "bounded exhaustive enumeration of operation histories on the real code against a reference model"
SEARCH = "exhaustive enumeration of searches (configurations, cycles, windows of random choices) on the real engine with monitors"
SCHED = "stateless exploration of every task completion order of the real parallel search under a controlled scheduler"

prop("C14", "Mutations only ever produce well-formed, self-consistent expressions",
 "Every mutation of every expression, whatever the random choices, terminates without panicking and leaves one well-formed expression over the configured operators and features, whose constants are all in its table and all used, whose compiled form evaluates that very expression, and whose recorded complexity, loss and cost are its own.",
 ["programs", "inputs"], "all twelve mutations x all expressions up to the bound (constants distinct, shared or unused) x operator sets with every mix of arities x every outcome of the random choices",
 "Tests run seeded mutations on a few trees; a bad splice or a stale constant index needs a particular node, operator arity and table.",
 [SR+"mutation_functions.rs", SR+"mutate.rs"], [("apply_mutation and the mutation functions", SR+"mutation_functions.rs"), ("next_generation", SR+"mutate.rs")],
 RNG, "All outcomes of bounded integer draws; real-valued draws from a small grid; expressions up to the bound.")
prop("C15", "Each mutation can produce exactly the results it is documented to produce",
 "Each mutation changes an expression only in the way its name says (one constant rescaled within the perturbation bound, one operator replaced by another of the same arity, one feature replaced by another, two operands swapped, one rotation, one node added, inserted or deleted, a fresh tree within the size limit, an equivalent simplification, improved constants, nothing), and every such result that exists for the expression can actually occur: each eligible place is chosen equally often, and there each operator, feature and operand.",
 ["programs", "inputs"], "all mutations x all expressions up to the bound x operator sets x every outcome of the random choices",
 "A test sees a few samples; an unreachable outcome, an off-by-one in a choice, or a wrongly chosen parent is invisible in samples.",
 [SR+"mutation_functions.rs"], [("mutation functions", SR+"mutation_functions.rs")],
 RNG, "The outcomes over all random choices and their probabilities equal those given by an independent relational definition.")
prop("C16", "Crossover exchanges two subtrees and nothing else",
 "The two children of a crossover are the parents with one subtree of each exchanged, constants included; every pair of subtrees is chosen equally often; the parents are unchanged; children that violate the constraints are not accepted, and then the parents themselves go on; accepted children carry their own metrics (infinite loss and cost where they cannot be evaluated), new ids and births, and name the parent whose place they take.",
 ["programs", "inputs"], "all ordered pairs of parents up to the bound, with shared and separate constants, x every pair of exchange points x size limits",
 "Tests cross a few trees with one seed; index arithmetic of constants across two tables goes wrong in particular positions.",
 [SR+"mutation_functions.rs", SR+"mutate.rs"], [("crossover_trees", SR+"mutation_functions.rs"), ("crossover_generation", SR+"mutate.rs")],
 RNG, "Outcomes over all random choices and their probabilities equal all swaps, for every parent pair within the bound.")
prop("C17", "Random expressions are well formed, sized as asked and fairly distributed",
 "Generated expressions are well-formed over the configured operators and features, have the size that was asked for as far as the operators allow and never exceed it, every expression that fits can be generated, leaves to grow, operators and features are drawn uniformly and fresh constants are standard normal. A randomising mutation asks for every size up to the current limit equally often.",
 ["configurations", "inputs"], "all operator sets (every mix of arities, none) x sizes up to the bound x every outcome of the random choices",
 "Tests check means of seeded samples for a single operator set.",
 [SR+"mutation_functions.rs", SR+"random.rs"], [("random_expr, random_expr_append_ops", SR+"mutation_functions.rs"), ("random normal", SR+"random.rs")],
 RNG, "Support and exact probabilities computed from the full choice tree; the normal checked on a grid of underlying draws.")
prop("C18", "A child is accepted exactly by the stated rule, and otherwise the parent goes on",
 "A mutated child is accepted only if it satisfies the constraints and can be evaluated finitely, and then with the probability given by temperature, cost difference and complexity frequencies; a rejected child leaves expression, loss, cost and complexity of its parent. A mutation is tried up to ten times until its result satisfies the constraints. Every child has a new id, a birth of its own and names its parent. With annealing the temperature falls evenly from 1 to 0 over the cycles of an iteration; without, it stays 1.",
 ["programs", "configurations", "inputs"], "all combinations of annealing, frequency use, temperature, alpha x parents and limits x all outcomes of the random choices",
 "Tests cover two retry paths; a sign error in the exponent or an accepted violation shows only statistically.",
 [SR+"mutate.rs"], [("next_generation acceptance", SR+"mutate.rs")],
 RNG, "Acceptance probability computed from the full choice tree on a grid of the uniform draw and compared with the formula.")
prop("C19", "The constraint check accepts exactly the expressions within all limits",
 "An expression passes exactly if its complexity is at most the current limit, its depth at most the maximum, every operator argument is within its own complexity limit, and no nesting limit is exceeded on any path.",
 ["programs", "configurations"], "all expressions up to the bound x limits on size, depth, arguments and nestings, singly and combined",
 "Tests have one or two constraints on fixed trees; nesting is counted along paths, so failures need particular nestings.",
 [SR+"check_constraints.rs"], [("check_constraints, nested constraints", SR+"check_constraints.rs")],
 BFS, "Exhaustive over expressions and limits within the bound, against an independent recursive definition.")
prop("C20", "Complexity is the sum of the configured complexities of the nodes",
 "The complexity of an expression is the sum over its nodes of the complexity configured for that operator, variable or constant, for every combination of configured values, and a member records it. Where the options say nothing, a variable, a constant and a built-in operator count 1, and in a search an operator of a custom set counts what that set declares for it.",
 ["programs", "configurations"], "all expressions up to the bound x complexity maps (none, per operator, per variable, of constants); searches over a custom set with declared complexities, with and without overrides",
 "Tests compute it for a few trees.",
 [SR+"complexity.rs"], [("compute_complexity", SR+"complexity.rs"), ("with_declared_complexities", SR+"options.rs")],
 BFS, "Exhaustive within the bound.")
prop("C21", "The hall of fame keeps the best member seen at each complexity",
 "After any sequence of insertions the hall of fame holds, for each complexity within the limit, unchanged the member of lowest cost among those offered that satisfied the constraints (of equals the first), nothing for other complexities; its Pareto front lists exactly the entries whose loss is lower than that of all simpler ones, in order of complexity.",
 ["histories"], "all sequences of insertions up to the bound over members of all complexities within and beyond the limits, with costs including ties and infinity, under both size limits; all loss patterns for the front",
 "Tests insert a handful of members.",
 [SR+"hall_of_fame.rs"], [("consider, pareto_front", SR+"hall_of_fame.rs")],
 HIST, "All histories to the bounded depth against a reference model.")
prop("C22", "Evolution replaces the oldest members and keeps the population intact",
 "Each cycle keeps the population size; each new member replaces the oldest one present (the two children of a crossover the two oldest), skipped events change nothing, at most as many events take place as population and tournament size imply (size divided by tournament, rounded up), and the births of new members are new and distinct. An event is a crossover with the configured probability and otherwise a mutation; its parents are chosen by tournament from the population as it stands at that moment, the two of a crossover independently of each other. An iteration is exactly the configured number of such cycles, one after the other.",
 ["histories", "inputs"], "populations of 1-5 members with every order of births x crossover on/off x sequences of cycles x all outcomes of the random choices",
 "The test replaces once in one population.",
 [SR+"regularized_evolution.rs", SR+"population.rs"], [("reg_evol_cycle", SR+"regularized_evolution.rs"), ("oldest index", SR+"population.rs")],
 RNG, "All birth orders and random outcomes for small populations.")
prop("C23", "Migration replaces the drawn number of random members with copies of migrants",
 "The best members offered for migration are those of lowest cost, in order. Migration overwrites uniformly chosen places with copies of uniformly chosen migrants, each drawn independently of the others, that carry new ids and births and name their source as parent, as many times as a Poisson draw with mean rate x population size, capped by the sizes of population and migrant list, and touches nothing else; with rate zero, infinite or undefined, or no migrants, nothing changes. Shuffling draws every permutation equally often.",
 ["inputs", "configurations"], "population sizes x migrant lists x rates x all outcomes of the random choices",
 "Tests check one seeded call; duplicates and off-by-one ranges are invisible there.",
 [SR+"migration.rs", SR+"random.rs"], [("migrate_into", SR+"migration.rs"), ("poisson_sample", SR+"random.rs"), ("shuffle", SR+"random.rs")],
 RNG, "All random outcomes for small populations; the Poisson law checked on a grid of underlying draws.")
prop("C24", "Optimising constants never makes a member worse and changes only constants",
 "Constant optimisation leaves the structure unchanged, never increases the member's loss, reports metrics of the constants it leaves, reaches the least-squares optimum when the expression is linear in its constants, restores the member exactly when nothing improves, and computes the loss no more often than the limit allows for each start (up to the step in progress).",
 ["programs", "configurations", "inputs"], "all expressions with constants up to the bound x optimisers, restarts, iterations, losses, batching x all outcomes of the restart draws from a grid",
 "Tests optimise two or three expressions from one seed.",
 [SR+"constant_optimization.rs", SR+"optim.rs"], [("optimize_constants", SR+"constant_optimization.rs")],
 RNG, "Exhaustive over the expressions, configurations and restart draws of the grid.")
prop("C25", "Losses, their derivatives and costs follow their definitions",
 "Each loss is the (weighted) mean of its documented point loss over the rows, its derivative is the true derivative of that mean in each prediction, perfect predictions give the minimum, weights of zero exclude rows, and the cost is the loss normalised by the baseline plus parsimony times complexity; a loss can be found by each of its names and by no other.",
 ["inputs", "configurations"], "all losses and parameters x all combinations of residuals, targets and weights from grids of magnitudes x row counts",
 "Tests evaluate each loss at one or two points.",
 [SR+"loss_functions.rs"], [("losses", SR+"loss_functions.rs"), ("loss_to_cost", SR+"loss_functions.rs")],
 "exhaustive enumeration of losses x parameters x argument grids on the real code against definitions", "Exact on the grid; one-sided slopes at kinks.")
prop("C26", "Tournament selection draws with the stated probabilities",
 "Selecting a parent takes a uniformly random sample of the tournament size (all members if it is larger) without repetition and returns a copy of its j-th best member, j counting from 0, with probability proportional to p(1-p)^j; best means lowest cost, multiplied by exp(scaling x normalised frequency of its complexity) when that is enabled. A perfect cost of zero stays the best and an infinite one the worst.",
 ["inputs", "configurations"], "populations x tournament sizes x p x frequency use x costs with ties, zero and infinite x all outcomes of the random choices",
 "Tests check the winner of one or two tournaments.",
 [SR+"selection.rs"], [("best_of_sample", SR+"selection.rs")],
 RNG, "Exact selection probabilities from the full choice tree.")
prop("C27", "Stepping the search in any portions gives the same search",
 "Running a search in steps of any sizes gives the same state, hall of fame and best member as running it at once, counts exactly the cycles done, stops when all are done, and is the same as the parallel search with a single worker.",
 ["histories", "configurations"], "all configurations of the grid x all ways to partition the cycles into steps (including steps of size zero and beyond the end)",
 "The tests run the engine in one way.",
 [SR+"search_utils.rs"], [("SearchEngine::step", SR+"search_utils.rs"), ("equation_search", SR+"search_utils.rs")],
 SEARCH, "All partitions of the bounded number of cycles for every configuration; comparisons are bit-exact.")
prop("C28", "A search is determined by its inputs and seed",
 "Two searches with the same data, options and seed give bit-identical results, whatever else ran before on the same thread and whichever thread they run on; under a given order of task completion the same holds for the parallel search. Populations draw from streams of their own, and the seed matters.",
 ["histories", "configurations"], "all configurations of the grid x repetition after another search, on another thread, under scripted schedules x seeds",
 "Tests do not run a search twice, let alone after others.",
 [SR+"search_utils.rs", SR+"single_iteration.rs"], [("per-population generators", SR+"search_utils.rs"), ("thread-local scratch", "dynamic_expressions/src/node_utils.rs")],
 SEARCH, "Every configuration and history of the grid; comparisons are bit-exact.")
prop("C29", "The parallel search is correct under every schedule of its tasks",
 "Whatever the order in which tasks finish and however many threads there are, the parallel search ends, does all its cycles, and returns a hall of fame and best member that are truthful, within the limits and no worse than what it started from; populations that do not exchange members give the same outcome under every schedule.",
 ["schedules", "configurations"], "all completion orders of the tasks for small numbers of populations, iterations and threads x configurations",
 "Tests run one schedule; a lost result or a wrong merge order needs a particular one.",
 [SR+"search_utils.rs"], [("equation_search scheduling loop", SR+"search_utils.rs")],
 SCHED, "All completion orders up to the stated cap per search (the evidence says where the cap was reached); rayon replaced by a controlled scheduler with the same interface.")
prop("C30", "Reported losses, costs and complexities are those of the reported expressions",
 "At every point of a search, each member in the hall of fame and the best member carry the loss, cost and complexity that their expression has on the full data set with the configured loss, weights and normalisation, whatever batching, optimisation, simplification and migration did before.",
 ["histories", "configurations", "inputs"], "all single options and pairs of options varied x seeds, after every cycle; plus every resolution of windows of random choices in small searches",
 "Tests check that a search runs, not what it reports; stale metrics arise after particular sequences.",
 [SR+"search_utils.rs", SR+"pop_member.rs", SR+"single_iteration.rs"], [("finish of an iteration, full-data evaluation", SR+"single_iteration.rs"), ("PopMember::evaluate", SR+"pop_member.rs")],
 SEARCH, "Every cycle of every configuration of the grid and all executions within the windows, judged by an independent evaluator.")
prop("C31", "The hall of fame and the best member never get worse",
 "During a search no hall-of-fame entry disappears or gets a higher cost and the best member's loss never increases; both take into account every admissible member of every generation, also those that lived only within an iteration.",
 ["histories", "configurations", "inputs"], "as C30; plus every iteration re-run cycle by cycle",
 "Tests look at the final result only.",
 [SR+"search_utils.rs", SR+"single_iteration.rs", SR+"hall_of_fame.rs"], [("update of hall of fame and best", SR+"search_utils.rs"), ("s_r_cycle best_seen", SR+"single_iteration.rs")],
 SEARCH, "As C30; with warm-up, generations are judged by the limit in force.")
prop("C32", "The size limit warms up from 3 to the maximum and never exceeds it",
 "With a warm-up fraction f the limit starts at min(3, maxsize), never decreases, reaches the maximum when the fraction f of the search is done and never exceeds it; without warm-up it is always the maximum.",
 ["configurations", "inputs"], "all maximum sizes x fractions x cycle counts x every point of the search",
 "There is no test of the schedule.",
 [SR+"warmup.rs"], [("get_cur_maxsize", SR+"warmup.rs")],
 BFS, "All combinations within the bound.")
prop("C33", "Complexity statistics count what was seen within their window",
 "After any sequence of updates, window moves and normalisations the frequencies are those of a reference model: every complexity starts at one, each observed complexity within range adds one, moving the window lowers all frequencies evenly, none below one, until their sum fits the window, and normalising divides them by their sum; a complexity outside the range has a small positive frequency.",
 ["histories"], "all sequences of operations up to the bound over sizes inside and outside the range, and windows",
 "There is no test of longer sequences.",
 [SR+"adaptive_parsimony.rs"], [("RunningSearchStatistics", SR+"adaptive_parsimony.rs")],
 HIST, "All histories to the bounded depth.")
prop("C34", "Data sets keep features, targets and weights of each row together",
 "A data set built from arrays in any memory layout holds for each row the given features, target and weight; a batch holds rows of the full set, each with its own target and weight, of the size asked for, every row equally likely, and any batch size works; the mean of the targets is the weighted one, and the baseline is the loss of the prediction 0, absent if not finite. Sizes that do not match are refused.",
 ["inputs", "configurations"], "row and feature counts x array layouts (row-major, column-major, strided, reversed, transposed) x batch sizes x all outcomes of the row draws",
 "Tests use one layout and one batch size.",
 [SR+"dataset.rs"], [("Dataset::new, make_batch", SR+"dataset.rs"), ("baseline_loss", SR+"dataset.rs")],
 RNG, "All layouts, batch sizes and row draws within the bound.")
prop("C35", "A member's id stands for one expression throughout a search",
 "In one search, two members with the same id, seen at any times and in any populations, hall of fame or best, have the same expression, constants included; no member is its own parent, populations keep their size, and the births in a population start out distinct.",
 ["histories", "configurations", "inputs"], "as C30",
 "Tests never compare members across cycles; in-place changes under an old id need optimisation or simplification of a member already recorded.",
 [SR+"pop_member.rs", SR+"single_iteration.rs", SR+"search_utils.rs"], [("MemberId, set_expr", SR+"pop_member.rs"), ("optimise and simplify", SR+"single_iteration.rs")],
 SEARCH, "As C30.")
prop("C36", "A failure inside a search task reaches the caller",
 "If a search task panics (for instance in a user-supplied loss), the parallel search ends with that panic under every schedule, at whatever evaluation it happens and whatever its payload, instead of hanging or returning a result; the same holds for stepping.",
 ["schedules", "histories"], "every evaluation of small searches made to fail x all completion orders x payload kinds",
 "There is no test with a failing loss; the hang needs a failure in a worker.",
 [SR+"search_utils.rs"], [("equation_search task loop", SR+"search_utils.rs")],
 SCHED, "All failure points and completion orders of the small searches, up to the cap stated in the evidence.")
prop("C39", "Selecting operators by name yields exactly the named ones",
 "A selection of operators by names, symbols or types - from lists of text, lists by arity, the builder or the macro - contains exactly the operators named, in the order given, each once and under its arity; sampling draws an arity in proportion to its operators and each operator of an arity uniformly; unknown, ambiguous, repeated or misplaced names and arities beyond the limit are refused, whatever the operator set.",
 ["configurations"], "all selections up to three tokens over every name and symbol, in each way of selecting, over built-in, custom and clashing operator sets",
 "Tests select a few common operators.",
 [SR+"operators.rs", SR+"operator_library.rs"], [("OperatorsBuilder", SR+"operators.rs"), ("sr_ops!", SR+"operators.rs")],
 "exhaustive enumeration of selections on the real registry", "Complete over tokens and sets of the harness.")
prop("C40", "Numeric optimisers return the best point they evaluated, within budget",
 "The optimisers never return a point worse than the start or than the best they reached, report the objective value of the point they return and the number of evaluations made, stay within the limit on evaluations (up to the step in progress), lose nothing by a larger budget, survive an objective that becomes non-finite or fails at any evaluation, and converge on quadratic functions.",
 ["histories", "configurations"], "objectives x starts x every iteration and call limit x a failure of the objective at every evaluation",
 "Tests optimise two smooth functions with ample budget.",
 [SR+"optim.rs"], [("bfgs_minimize, newton_1d_minimize, line search", SR+"optim.rs")],
 "exhaustive fault enumeration (every failing evaluation, every limit) on the real optimisers", "All fault points and limits within the bound.")
prop("C41", "Everything a search reports satisfies the user's constraints",
 "At every point of a search each hall-of-fame entry satisfies the constraints on size, depth, arguments and nesting and uses only selected operators and existing features; an entry made during the warm-up satisfied the size limit of that moment; the best member satisfies the constraints as soon as the hall of fame has an entry.",
 ["histories", "configurations", "inputs"], "as C30, with constraint options",
 "Tests set one constraint in one search.",
 [SR+"search_utils.rs", SR+"check_constraints.rs", SR+"hall_of_fame.rs"], [("admission to the hall of fame", SR+"search_utils.rs")],
 SEARCH, "As C30.")
prop("C44", "Mutations are drawn in proportion to their weights, and only applicable ones",
 "Each kind of mutation is drawn with probability proportional to its weight, never with weight zero; kinds that cannot apply to the expression at hand (no constants, no operators, and for an expression with operators also: size limit reached, single feature, switched off) have weight zero, the others keep theirs, except that changing a constant is weighted by the number of constants up to eight.",
 ["inputs", "configurations"], "weight vectors (all single, pairs, subsets of the defaults) x a fine grid of the uniform draw with its edges; all expressions up to the bound x limits x options",
 "Tests condition weights for a few trees.",
 [SR+"mutate.rs", SR+"options.rs"], [("sample_mutation, condition_mutation_weights", SR+"mutate.rs")],
 RNG, "Exact up to the resolution of the grid of draws.")

prop("C45", "Members move between populations only as the migration options say",
 "Each cycle of a search ends with migration into the population just evolved, and into no other: if migration is on, random members are overwritten by copies of the best members (as many as topn, by cost) of each other population as it was last evolved, at the rate of migration; if hall-of-fame migration is on, by copies of the members of the Pareto front, at its own rate. Every such source can reach every place, copies keep expression and metrics, name their source as parent and have new births; a migration that is off or has rate zero moves nothing whatever the other does.",
 ["inputs", "configurations", "histories"], "every cycle of small searches x sizes, topn, both switches and rates x all outcomes of the random choices of the migration",
 "No test looks at migration within a search; a wrong source list, swapped rates or a stale list of best members shows only in particular cycles.",
 [SR+"search_utils.rs", SR+"migration.rs"], [("apply_task_result, best_sub_pops", SR+"search_utils.rs"), ("migrate_into, best_sub_pop", SR+"migration.rs")],
 RNG, "All outcomes of one cycle's migration (the same cycle without migration gives what evolved); number and uniformity of replacements are C23.")
prop("C46", "The end of an iteration simplifies and optimises exactly as configured",
 "At the end of an iteration each member is simplified if and only if that is on, and then has its constants optimised (on the phase's data) with exactly the configured probability, each independently of the others, if and only if that is on; afterwards its complexity, loss and cost are those on the full data. Members whose expression changed get a new id naming the old one as parent, the others keep theirs, and nothing else happens to any member.",
 ["programs", "configurations", "inputs"], "all populations of up to three members (thorough: four) from a pool of simplifiable, improvable and inert expressions x switches, probabilities, batches, losses and weights x all outcomes of the draws",
 "Tests run the phase once on one population.",
 [SR+"single_iteration.rs"], [("optimize_and_simplify_population", SR+"single_iteration.rs")],
 RNG, "Every outcome of the draws around the probability; simplification and constant optimisation themselves are C07 and C24.")
prop("C47", "Each cycle of a search evolves one population, each once per iteration",
 "A search evolves in every iteration each population exactly once, in an order of which all permutations are possible and equally likely. One cycle changes that population only: it runs one iteration with the complexity statistics (normalised) and the size limit as they were when it was handed out, on the full data or on batches drawn from it; afterwards the statistics count the complexities of its members, and hall of fame and best member take into account what it saw and holds before any migration.",
 ["histories", "configurations"], "every cycle of all searches of the grid of single options and pairs x seeds, compared with a model of the search; all outcomes of the ordering draws for up to five populations (thorough: six)",
 "Tests look at final results; a skipped population, stale statistics or a limit from the wrong moment leaves a plausible result.",
 [SR+"search_utils.rs", SR+"single_iteration.rs", SR+"random.rs"], [("step_one_cycle, prepare_iteration, execute_task, apply_task_result", SR+"search_utils.rs"), ("shuffle", SR+"random.rs")],
 SEARCH, "A model of the search composed of the separately checked phases is stepped along with the real engine and must agree bit for bit after every cycle.")
prop("C48", "The progress display is complete, readable and harmless",
 "The table shown during a search has one row per member of the Pareto front, in order, with its complexity, its loss and its whole equation, continued over as many lines as needed and marked where it goes on, aligned under the heading and within the width of the terminal, whatever characters names consist of. What stands on the terminal at the end is the final hall of fame. Showing progress never changes the result of a search; switched off, nothing is shown.",
 ["inputs", "configurations"], "all equations of up to 40 terms over names of every pattern of one- to four-byte characters x terminal widths x styles; all searches of the grid on terminals of several widths",
 "The one test looks at the heading.",
 [SR+"progress_bars.rs", SR+"search_utils.rs"], [("format_hall_of_fame, wrap_equation, truncate_to_width", SR+"progress_bars.rs"), ("update_progress_msg, SearchProgress", SR+"progress_bars.rs")],
 "bounded exhaustive enumeration of tables on the real code, read back by an independent parser; searches run on a pseudo-terminal", "Every line break position for the enumerated names and widths; speed figures are not claimed.")
prop("C49", "A parallel search merges its tasks one by one, in the order they complete",
 "Under every schedule the parallel search is what its description says: at most as many tasks as workers (or populations) are under way, an iteration's tasks all end before the next iteration begins, each task evolves its population with statistics and limit of the moment it was handed out, and its result - population, statistics, hall of fame, best member, offers for migration - is merged before the next one, so that the result is a function of the order of completion alone. No result is lost, merged twice or merged into another population.",
 ["schedules", "configurations"], "all completion orders of the tasks for up to four populations (thorough: six) and three iterations x workers x options",
 "Tests run one schedule; sharing between tasks through migration and statistics differs with every order.",
 [SR+"search_utils.rs"], [("run_scoped_search", SR+"search_utils.rs"), ("execute_task, apply_task_result", SR+"search_utils.rs")],
 "stateless model checking of the real search under a controlled scheduler, each schedule compared with a model of the merge", "All completion orders up to the stated cap per search; rayon replaced by a controlled scheduler with the same interface.")

# ------------------------------------------------------------------ browser layer
W = "web/wasm/src/lib.rs"
prop("C37", "Options set in the browser form reach the search, and only those",
 "Each option in the form's data reaches the option of the same name of the search, whatever other options are present and whatever the search options held before; absent options have the documented defaults, which are the same in the form, the wire format and the core; options not in the form are kept; writing and reading the form gives the same options. A loss is found by each of its names (any case, surrounding blanks) with its own parameter and other names are refused; progress output is off in the browser. The defaults handed to the page are a plain object with every field; no form data means the defaults, and form data that cannot be read is refused rather than replaced. The page is offered exactly the operators of the set, and a search holds exactly those chosen; names that do not exist at their arity are refused.",
 ["configurations"], "every set of up to two options (three in the thorough tier), every subset of the flags, every mutation weight, all loss names x spellings x parameters, each also through the creation of a search; every value of a wrong type for every field; every choice of operators from a few, in both orders",
 "Tests set three options; a swapped or dropped field is visible only for that field.",
 [SR+"options.rs", W], [("sr_options_spec!, WasmOptionsShim::apply_to", SR+"options.rs"), ("WasmSearchOptions, options_from_wasm", W), ("WasmSearch::new, default_search_options, default_core_options, builtin_operator_registry", W)],
 "exhaustive enumeration of option subsets on the real code", "Complete for singles and pairs; JavaScript values are stand-ins that follow serde-wasm-bindgen's conversion rules.")
prop("C38", "CSV input becomes exactly the data set it describes",
 "A table in CSV form is read cell by cell with its headers, in every usual spelling of numbers, quoting, blanks and line ends; tables with a cell that is not a number or rows of unequal length are refused. The chosen columns become features (named by their headers, in column order, each once), target and weights; impossible choices are refused. The split assigns every row to exactly one of training and validation, of the documented sizes with at least one training row, depends only on seed and sizes, treats all rows alike, and keeps each row's features, target and weight together; a search created from the page trains on the one part and shows the other.",
 ["inputs", "configurations"], "all small tables x spellings x every single damage; all choices of columns; all sizes and fractions; every outcome of the shuffle for small tables; every list of rows; searches created for all choices of columns of small tables",
 "There are no tests of the input path.",
 [W], [("parse_csv_to_rows, build_full_dataset", W), ("make_split_indices, split_train_val, WasmSearch::new, get_split_indices", W)],
 "bounded exhaustive enumeration of inputs and shuffle outcomes on the real code", "All tables, choices and shuffle outcomes within the bound.")
prop("C42", "Displayed metrics are those of the predictions",
 "For any predictions, targets and weights the displayed number of rows, (weighted) mean squared and absolute error and root mean squared error, least and largest absolute error, (weighted) coefficient of determination and (unweighted) correlation are those of their definitions; zero total weight gives zero errors, and r2 and correlation are zero where they are undefined.",
 ["inputs"], "all predictions x targets x weights from grids up to five rows",
 "There are no tests of the metrics.",
 [W], [("compute_metrics, r2_and_corr", W)],
 "bounded exhaustive enumeration of inputs on the real code", "Exact on the grid up to rounding.")
prop("C43", "Everything the browser shows of a search can be looked up and re-evaluated",
 "At every point of a search the snapshot shows the current best member and the requested number of best members of the Pareto front with their ids, complexities, losses and costs and the cycles and evaluations done; each listed id finds that very member, the text shown is that of the member's expression with the data set's names, and evaluating it on the training or validation rows gives the expression's value on each row and the loss that was listed; unknown ids and parts are refused, as is a validation part that does not exist.",
 ["histories", "configurations"], "searches over seeds x weights x batching x headers x size limits, at every cycle, for every number of listed members",
 "There are no tests of inspection.",
 [W], [("snapshot, summary_from_member, find_member_by_id, eval_member_on_dataset", W), ("WasmSearch::step, best_equations, evaluate_member, set_pareto_k", W)],
 SEARCH, "Every cycle of every configuration of the grid.")
UI = "web/ui/src/"
CTRL = UI + "app/panes/searchSolutions/useSearchController.ts"
prop("C50", "The search worker answers every request exactly once, in any order of requests",
 "For any sequence of init, start, pause, reset, step and evaluate sent through the worker's client, and however messages, timers and module loading interleave: init answers ready with the split (or an error) unless a later init or reset replaced it, in which case nothing of the replaced search arrives any more; reset answers once; a started search is stepped by one loop only, reports non-decreasing progress of itself and ends with its final state and exactly one done, or one error if it fails; pause stops it and answers once, only if it was running, after which it is not stepped until started again; step advances by the cycles asked and answers with the state reached; evaluate answers with that member's values on that part of the data under the request's name; requests without a search are answered with an error.",
 ["schedules", "histories", "faults"], "all sequences of up to four (thorough: five) requests after initialisation, all interleavings with deliveries, timers and slow or failing module loading, failing initialisation and failing steps",
 "No test runs the worker's message handling; races need particular interleavings of requests and the run loop.",
 [UI+"worker/srWorker.ts", UI+"worker/srWorkerClient.ts", UI+"worker/protocol.ts"], [("onmessage, runLoop", UI+"worker/srWorker.ts"), ("SrWorkerClient", UI+"worker/srWorkerClient.ts")],
 "stateless model checking of the real worker and client under a controlled scheduler (replay, sleep sets)", "The compiled search is a stand-in that tags everything it says; real module loading and threads are outside.")
prop("C51", "The run pane shows the search the user asked for, and its true state",
 "Whatever the user does (initialise, start, pause, reset, select a solution, leave the tab and come back) and however messages, timers and module loading interleave with it: solutions, selected equation, progress and metrics shown belong to the search last initialised, and nothing is shown after a reset; metrics are those of the selected solution and of the part of the data they stand under; once nothing is under way, the status says what is the case (idle, ready, paused, done with the final solutions shown, error with its reason) and a search that was started and not paused has run to its end; the selected complexity stays selected as solutions are replaced, its best current solution (or, while there is none, that of the closest lower complexity) is the one shown and evaluated.",
 ["schedules", "histories", "faults"], "all sequences of up to four (thorough: five) user actions in every interleaving with deliveries, worker turns, timers and module loading, with failing initialisation and steps",
 "The existing UI tests mount one static state; races between the pane and the worker need particular interleavings.",
 [CTRL, UI+"state/sessionStore.ts", UI+"app/panes/SearchSolutions.tsx", UI+"worker/srWorker.ts"], [("useSearchController", CTRL), ("setRuntime, setFront, setEvalResult, getSelectedSummary", UI+"state/sessionStore.ts"), ("ControlsCard, SolutionsTableCard, QuickStatsCard", UI+"app/panes/searchSolutions/")],
 "stateless model checking of the real components, store, client and worker under a controlled scheduler (replay, sleep sets)", "React, zustand and the compiled search are small stand-ins (the packages are not installed); rendering is synchronous.")
prop("C52", "The data tab shows the table entered; column choices exist and never overlap",
 "In every state users can reach on the data tab by entering or dropping tables, switching the header row, parsing and choosing target, weights, X and inspected columns: of several files the last one chosen counts, whichever is read first; the target, weights and X columns exist in the table and do not overlap, each choice changes what it names and nothing else (except that a column chosen as target or weights leaves the X columns, and choices another table lacks fall back to the defaults), the pickers and boxes show the choices; the preview, its counts, the summary statistics and the scatter plot are those of the text entered, and no table is shown for a text that was not parsed.",
 ["histories", "inputs"], "all states reachable by any sequence of user actions (search to closure) over pairs (thorough: triples) of tables: different widths (up to 14 columns), columns of the same name, constant columns, ragged or non-numeric rows, empty text; files read in any order",
 "The tests click once; stale choices need a sequence of tables and choices.",
 [UI+"app/panes/EnterData.tsx", UI+"state/sessionStore.ts"], [("parseCsvText, parseCsv, setCsvText, setOptionsPatch", UI+"state/sessionStore.ts"), ("EnterData", UI+"app/panes/EnterData.tsx")],
 "explicit-state search of the real component and store to closure, each transition compared with a reference model", "CSV parsing by Papa is a stand-in for plain comma-separated cells.")
prop("C53", "Fit plots pair each prediction with the row it was made for",
 "Once a solution is evaluated the fit plot shows, for each part of the split, exactly the rows of that part with the target (and, for one X column, that column's) values of the table and columns the search was initialised with and the prediction made for that very row, sorted by x for the curve, for the selected solution only; editing or parsing another table or choosing other columns afterwards changes nothing until the next initialisation.",
 ["schedules", "histories", "configurations"], "all sequences of up to four actions (initialise, start, pause, reset, select, edits on the data tab) in all interleavings with the worker, over column setups and tables",
 "The tests plot three rows of an identity split; misalignment needs a permuted split or an edit at the right moment.",
 [CTRL, UI+"app/panes/searchSolutions/FitPlot.tsx", UI+"app/panes/searchSolutions/plotUtils.ts"], [("gatherByIndices, gatherPairsByIndices, dataset", CTRL), ("FitPlot", UI+"app/panes/searchSolutions/FitPlot.tsx"), ("sortXY", UI+"app/panes/searchSolutions/plotUtils.ts")],
 "stateless model checking of the real components, store, client and worker under a controlled scheduler", "Plots are observed as the data handed to the plotting library.")
prop("C54", "The search is created with exactly the settings shown on the page",
 "After any sequence of edits of option fields, switches, mutation weights, loss, iterations, validation fraction, operator boxes and presets, every control shows what was last chosen for it and nothing else has changed, and Initialize creates the search with exactly these options, operators (each once) and the text entered; without operators it cannot be initialised.",
 ["histories", "configurations"], "all sequences of up to two edits (three with one edit of each kind, thorough: more) over all controls, initialised at the end or in between",
 "No test edits a setting; a control wired to another option shows only for that control.",
 [UI+"app/panes/ModelingTask.tsx", UI+"state/sessionStore.ts", CTRL], [("ModelingTask", UI+"app/panes/ModelingTask.tsx"), ("setOptionsPatch, toggleOp, applyPreset, loadWasmMetadata", UI+"state/sessionStore.ts"), ("initSearch", CTRL)],
 "bounded exhaustive enumeration of edit sequences on the real components and store", "Complete for pairs of edits.")
PANES = UI+"app/panes/searchSolutions/"
prop("C55", "Solutions, metrics and progress stand on the page as they are",
 "Whatever solutions a search reports and whatever the user clicks on the Run pane: the list has one row per solution, the best (most complex) first, with its own equation and its loss to four digits, the plot one point per solution at its complexity and loss, in both exactly the selected solution is marked, and in the plot the best one; clicking a row or a point selects that very solution, whose equation, complexity and loss are shown and copied; each metric of each part of the data stands under its own name and heading, all of them or the usual ones as asked; cycles, percentage and evaluations are those of the last snapshot, and the evaluations per second lie between the rates measured; a button is enabled exactly when it can be used, each tab shows its pane and is marked, and if the module cannot be loaded the page says so.",
 ["inputs", "histories"], "all lists of solutions from a family (none to three, equal, huge, tiny and infinite losses) x best solution x split x metrics x every sequence of two (thorough: three) clicks; all sequences of snapshot intervals and evaluations from a grid",
 "Tests render one list and click one row; a number under another's name shows only for that number.",
 [PANES+f for f in ["SolutionsTableCard.tsx", "ParetoPlotCard.tsx", "QuickStatsCard.tsx", "MetricsTable.tsx", "ControlsCard.tsx", "useSearchController.ts"]] + [UI+"app/App.tsx", UI+"app/panes/SearchSolutions.tsx"],
 [("SolutionsTableCard", PANES+"SolutionsTableCard.tsx"), ("ParetoPlotCard", PANES+"ParetoPlotCard.tsx"), ("QuickStatsCard, MetricsTable, formatSci", PANES+"MetricsTable.tsx"), ("ControlsCard", PANES+"ControlsCard.tsx"), ("onSnapshot, selectEquation", CTRL), ("App", UI+"app/App.tsx")],
 "bounded exhaustive enumeration of click sequences and reports on the real components, worker and store", "Complete for the family of lists and two clicks; the look of marks is not judged, only that they tell the right element apart.")
