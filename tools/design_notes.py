# Per property: what the real code is compared with, and the bounds (quick -> thorough). Read by design.py.
NOTES = {
"C01": "Oracle: a recursive interpreter of the tree whose operators ('tag' operators) give every subtree, operand order and row a distinct value, so that any wrong slot, operand or row changes the result. All trees up to 9 -> 10 nodes over arity sets 1-3, 1-5, 2+4, up to 14 -> 15 for sparse ones, all shapes up to 23 -> 24 nodes with rotating leaf labels, comb forests with many live temporaries, 0..130 rows, 6 memory layouts, every entry point (array, in place, compiled plan, reused context). Beyond byte sizes: chains and combs of up to 300 live temporaries, more than 256 variables and constants.",
"C02": "Oracle: the interpreter, recording whether any operator application or used constant was non-finite on any row. All trees up to 6 -> 7 nodes with an operator of each arity that overflows on one chosen row, the row at every position of several row counts, both options.",
"C03": "Oracle: forward-mode chain rule over the interpreter (partials of tag operators are pairwise distinct and nowhere zero); undefined partials of built-ins where the operand does not depend on the variable. Same sweeps as C01 with smaller bounds; 0..130 rows. Also beyond byte sizes (more than 256 slots, variables, constants).",
"C04": "As C03 in every direction (variables and constants), layout direction-major, agreement with the forward derivative, rows 0..130 around the chunk size, shared, unused and unordered constants. Also beyond byte sizes (more than 256 slots, variables, constants).",
"C05": "Oracle: independent definitions (f64 reference with error-free fallbacks) and central differences of high order / closed forms for partials. Grid of 52 -> 108 arguments (27 in tuples): signs, zeros, halves, integers, domain edges, small and large; f32 within its rounding.",
"C06": "All ordered histories (depth 2 over the whole call alphabet, depth 3 over a core) of calls on one context compared with fresh contexts; all ordered pairs of small trees of equal length evaluated through one context and one plan. Programs of up to 151 (301) leaves that differ in one node, at every place, through one context.",
"C07": "Oracle: value of the original and of the simplified tree on generic data, validity of constants, node count, 'unchanged means identical', 'an operator over constants only is gone'. All trees up to 13 -> 15 nodes for single re-associable operators, 11 -> 13 for two, 7 -> 9 for three, up to 5..8 for whole operator sets (ids coinciding across arities, missing sub/mul, all built-ins). Expressions with more than 256 constants.",
"C08": "Oracle: constants as a finite map position -> value. All node sequences up to 6 -> 7 nodes, all reference patterns into tables of up to 5 entries (unused, shared), all lists of positions. Tables beyond 256 constants.",
"C09": "Oracle: composition of the operands' interpreted values. All programs of the expression algebra of depth 2 (3 truncated; 3 thorough) over variables, constants, scalars left and right, every wrapper and overload. Operands with more than 256 constants each.",
"C10": "Oracle: an independent precedence parser reads the text back and compares trees; constants: all bit patterns of a lattice of mantissas x exponents and all short decimals, f32 and f64. All trees up to 5 -> 6 nodes per operator set, all shapes up to 21 -> 25 nodes for single operators. Variables beyond x255, nesting beyond 128 levels.",
"C11": "Oracle: tables of names written by hand. All tokens x spellings x arities; every id x dispatch path (eval, diff, grad) gives the value of the operator named.",
"C13": "Oracle: an independent stack parser. All node sequences (well-formed or not) up to 7 -> 8 symbols over arities 0-5, shapes up to 9 -> 10, histories of malformed and well-formed input on one thread (the thread-local buffer). Sizes and depths around 127, 128, 255, 256, 300 and 512.",
"C14": "Monitor on every execution of next_generation: well-formedness, allowed operators/features, table exactly used, plan evaluates the expression, complexity/loss/cost are its own, no panic. Every tree up to 3 -> 4 nodes, shapes up to 5 -> 6, per mutation x operator sets x limits x data. The same over a custom set with up to four operands and with D = 1 and 2.",
"C15": "Oracle: relational definition of each mutation (the set of allowed results). The set of results over all draws must be exactly that set and each result as likely as the definition says (real draws: membership in the continuous family and both ends of it). Trees up to 4 -> 5, shapes up to 6 -> 7. The same over a custom set with up to four operands and with D = 1 and 2.",
"C16": "Oracle: all subtree swaps, equally likely. All ordered pairs of parents up to 4 -> 6 nodes; acceptance part with limits and data that make children fail. The same over a custom set with up to four operands. Parents with more than 256 constants.",
"C17": "Oracle: the exact probability of every expression from the choice tree against the law computed step by step (leaf, operator, operands uniform); normal law by Box-Muller on a grid of 120^2 -> 400^2 draws. The same over a custom set with up to four operands and with D = 1 and 2.",
"C18": "Oracle: the acceptance formula, computed independently, against the total weight of accepting branches on a grid of the final uniform draw. The same over a custom set with up to four operands. The temperature of each cycle: an iteration is re-run cycle by cycle with the stated schedule from a copy of the state.",
"C19": "Oracle: recursive definition of each limit. All trees up to 4 nodes (shapes to 7) x all size, depth, argument and nesting limits and combinations. The same over a custom set with up to four operands. Sizes, depths and limits around 127, 255, 256 and above.",
"C20": "Oracle: the sum. All trees to 5 nodes (shapes to 8) x complexity maps. The same over a custom set with up to four operands; searches (stepped and parallel) over every subset of operators with declared complexities x overrides x seeds. Sums around 2^16, including the stated saturation.",
"C21": "Oracle: reference hall (map complexity -> first lowest cost). All sequences of length 4 -> 5 over the alphabet of members; all loss patterns for the front. Halls of up to 300 complexities, filled upwards, downwards and crosswise.",
"C22": "Monitor: which places were replaced, in age order; ids/births; size. All birth orders of 1..6 (7) members, 1-2 cycles. The probability of every population after a cycle, added up over all executions, equals that of a model of the cycle (2-5 members, tournaments of 1-5, crossover 0, 1/4, 1/2, 1, children within and beyond the limit, failures skipped or not). An iteration is re-run as its configured number of cycles from a copy of the state (all configurations in pairs). Populations of up to 1030 members with the oldest two at every place (at 1030: every 17th in the quick run); cycles of up to 100 events.",
"C23": "Oracle: Poisson mass function, uniform distributions by exact weight over the choice tree; relation of migrants. The best of up to 300 members; up to 300 arrivals at once.",
"C24": "Oracle: independent loss and linear least squares optimum; structure equality; exact restore on failure. The same in single precision and over a custom set with up to four operands. Data of 33 to 300 rows, 1 to 12 constants; the number of loss computations (counted by the loss itself) against the call limit.",
"C25": "Oracle: definitions in extended form; derivative by independent formulas; all names. Vectors of 33 to 1000 values as well. Up to 70,001 rows.",
"C26": "Oracle: exact probabilities p(1-p)^j over uniformly chosen sub-samples, computed by enumeration of sub-samples.",
"C27": "Differential: every composition of the number of cycles into steps (also 0 and beyond the end) against one run, bit for bit, and against the parallel search with one worker. The same in single precision and over a custom set with up to four operands. Searches of up to 390 cycles in portions of 1 to more than all.",
"C28": "Differential: repeated after another search on the same thread, on another thread, under scripted orders; streams of populations compared pairwise; different seeds differ. Up to 300 populations, all starting differently.",
"C29": "Monitor at the end of every schedule: termination, number of evaluations, truth of every member, limits, best against the hall, no worse than the start; populations that do not interact give the sequential outcome under every schedule. All completion orders up to 400 -> 4000 per search, pools of 1-4 threads, called inside and outside the pool.",
"C30": "Monitor after every cycle: an independent evaluator recomputes loss, cost and complexity of every reported member on the full data. The same in single precision and over a custom set with up to four operands.",
"C31": "Monitor after every cycle against the previous state; the iteration's generations are re-run cycle by cycle from a copy of the state to see every member that lived. The same in single precision and over a custom set with up to four operands.",
"C32": "Oracle: closed form of the warm-up, all maximum sizes to 40 -> 120, fractions, totals to 60 -> 200 (and 1000, 3100), every remaining count. Searches of 70,000 and 1,000,003 cycles.",
"C33": "Oracle: reference model with exact rationals where possible. All operation sequences of length 6 -> 7. Up to 300 complexities.",
"C34": "Oracle: row map. All layouts x sizes x batch sizes x draws. Data sets of 50 to 1000 rows; the layouts a transposed or sliced array has; average of targets over all rows. Batches from 70,000 rows.",
"C35": "Monitor: map id -> expression over the whole search (all populations, hall, best, after every cycle). The same in single precision and over a custom set with up to four operands. Up to 300 populations.",
"C36": "Fault injection: the loss panics at evaluation k for every k, three payload kinds, under all completion orders to a cap; also when stepping, and during initialisation. Also where a task's failure must not be swallowed when later tasks succeed.",
"C37": "Oracle: table of fields. Singles, pairs (thorough: triples), all subsets of flags, every mutation weight, all loss names x spellings. The front door (`WasmSearch::new`, the registry, the defaults) runs natively over `shims/wasm-bindgen` and `shims/serde-wasm-bindgen`, where a JavaScript value is plain data and conversions follow serde-wasm-bindgen 0.6 (a flattened struct serialises to a `Map` unless maps are asked for as objects; numbers with a fraction are not integers; a missing property is undefined): every option and pair through the creation of a search, every value of a wrong type, every choice from eight operators in both orders.",
"C38": "Oracle: independent reading of the table; split law by exact weights for small tables; all choices of columns of tables of up to four (thorough: five) columns through `WasmSearch::new`, comparing the engine's and the validation rows. Tables of up to 70,000 rows or 3,000 columns.",
"C39": "Oracle: independent resolution of tokens. All selections up to 3 (4) tokens in every way of selecting; sampling law by exact weights.",
"C40": "Objective wrappers count, record and fail at the k-th call (infinite, NaN, None). All iteration limits and call limits of the lists. Problems of up to a dozen dimensions.",
"C41": "Monitor after every cycle with an independent constraint checker. The same in single precision and over a custom set with up to four operands.",
"C42": "Oracle: definitions, two-pass formulas.",
"C43": "Oracle: the engine's hall of fame and an independent evaluation of the member on the rows of the split, compared with what `step`, `best_equations` and `evaluate_member` hand to the page.",
"C44": "Oracle: expected weights after conditioning; the law by scanning the uniform draw over 4096 -> 65536 points with edges. The same over a custom set with up to four operands and with D = 1 and 2.",
"C45": "The same cycle is executed from a copy of the state with migration off (what evolved) and with migration under all outcomes of its draws; the difference must be explained by the offers recorded from the previous cycles. Both the support (every source, every place) and the untouched rest are judged.",
"C46": "Every population of up to 3 (4) members from a pool of ten expressions is put through optimize_and_simplify_population under all outcomes of the probability draws (menu around the probability, its value included); each member must be one of the outcomes computed for it alone; weights of the optimised subsets must be products of the probability.",
"C47": "A model search (Rust, in c_search.rs) built from the phases checked elsewhere - own book-keeping of order, statistics, limits, offers, hall, best - is stepped along with the engine; states must agree bit for bit after every cycle (members, ids, births, generator states, statistics, hall, best, evaluations). Order draws: all outcomes for up to 5 (6) populations. Up to 70 populations: every outcome of single draws of the order.",
"C48": "Oracle: an independent reader of the printed table re-assembles equations and numbers and compares them with the front. Terminal part: searches as child processes on a pseudo-terminal; a small terminal emulator reads the final screen.",
"C49": "For every schedule the model of C47 is replayed in the completion order the scheduler recorded and must give the parallel result bit for bit; monitors on number in flight and on iteration borders.",
"C50": "Monitor automaton per request over the messages the client sees, stand-in search that stamps all it says with its identity. All interleavings (sleep sets) of deliveries in both directions, timers, module loads.",
"C51": "As C50 with the real components, store and controller on top (small stand-ins for React, zustand); at every quiescent state and after every event the rendered output is read back and compared with the history. Time advances 250 ms per event; progress, percent and the rate must lie between the bounds that this search's snapshots allow.",
"C52": "Search to closure over states of the store; each transition is compared with a reference model of the tab, the rendered pickers, boxes, previews and statistics are read back. Tables with repeated column names, one column, one row and fourteen columns; files that arrive late and in the wrong order; lists whose items share a key are reconciled as React does, so rows left over from an earlier table are seen.",
"C53": "The stand-in search returns predictions that encode split and row; the data handed to the plotting library must pair them with the rows of the table at initialisation. Column choices made without parsing the table before.",
"C54": "All sequences of two (some three) edits over all controls; the search creation message is compared with a model of the form, all controls are read back.",
"C55": "Oracle: the scripted search's own list, metrics and snapshots; the rendered tree is read back by text, test ids and attributes, marks only by whether they differ. Every list x best x split x metrics set x click sequence; for the rate, every triple of intervals and increments (a moving average stays between the rates it averages).",
}
FIRST_MISSED = ["finite-sum", "const-digits", "strip-parens", "lookup-ambiguous", "name-case", "slot-free", "const-arg-swap", "crossover-limit", "migrant-parent", "lp-clamped", "seed-streams", "simplified-complexity", "last-task", "births-shared", "web-selected-best", "web-fallback-lowest", "simplify-finite", "rescore-rows", "stats-per-iteration", "web-rate", "web-one-row", "id-blocks", "smaller-leftover", "tournament-edge", "no-single-node", "largest-unseen", "web-box-prefix", "web-early-boxes", "web-negative-max", "web-lower-neighbour", "feature-pull", "insert-first", "exchange-edge", "csv-comment", "seed-half", "distinct-parents", "failed-crossover", "places-once", "hash-head", "ids-many", "warm-up-long"]
