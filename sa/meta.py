"""Texts of the properties: properties.jsonl and MANIFEST.json are generated from this table (bin/gen.py)."""

V = "value-flow normal forms over MIR"

META = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, note, explain, floor, assume=()):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     technique=technique, note=note, explain=explain, floor=floor, assume=list(assume))


prop("C01", "Editing the structure discards exactly the parameters it invalidates",
     "Whenever the network's structure is edited, every node whose set of parents changes loses its conditional intensities and its sufficient statistics, and every node whose parents do not change keeps them together with its label and domain. "
     "A freshly inserted node never brings parameters along, and inserting a node or re-initialising the structure, which drop all arcs, clear every node that had a parent.",
     ["histories", "inputs"], "every sequence of insertions, re-initialisations and arc additions on networks of any size, for every pair of nodes",
     "The tests add a handful of arcs to networks of two or three nodes whose parameters were never set; none observes the parameters of the other nodes, or of nodes whose arcs are dropped.",
     ["src/process/ctbn.rs", "src/params.rs"],
     [("add_edge resets the child", "src/process/ctbn.rs: add_edge"), ("initialize_adj_matrix / add_node reset the nodes that had parents", "src/process/ctbn.rs: initialize_adj_matrix, add_node"), ("reset_params", "src/params.rs: reset_params")],
     "gated-SSA value-flow summaries of the editing operations, queried at a generic node",
     "Decided for all inputs on the closed-form summary of each editing operation; trusts the models of Option/Vec/ndarray operations. Does not cover edits a caller makes through a mutable node reference.",
     "For each editing operation the analysis computes the final value of every node as a function of the initial network and a generic node index, and discharges one obligation per (operation, node role, parameter field).", 46)

prop("C02", "Parents and children are two views of one arc relation",
     "A node is among the parents of another exactly when that other is among its children, adding an arc adds exactly that arc to the relation, and a freshly initialised structure of n nodes is n by n and has no arc.",
     ["inputs", "histories"], "all networks, all pairs of nodes, all sequences of structural edits",
     "The tests compare the two queries on one three-node network; a transposed lookup or an arc recorded in the wrong cell passes on symmetric or single-arc cases.",
     ["src/process/ctbn.rs"],
     [("get_parent_set filters a column, get_children_set a row of the adjacency", "src/process/ctbn.rs: get_parent_set, get_children_set"), ("add_edge writes one cell", "src/process/ctbn.rs: add_edge")],
     "value-flow summaries; set membership compared as canonical decision diagrams",
     "Exact for all inputs on the summaries, given that the adjacency has one row and one column per node (also checked where it is created).",
     "Membership of a generic node in the parent set and in the child set, and the adjacency cell at a generic position after each edit, are compared as canonical decision diagrams.", 15)

prop("C03", "One mixed-radix index identifies a parent configuration everywhere",
     "The index of the configuration of a node's parents is the sum, over the parents in increasing order, of the parent's state times the product of the cardinalities of the parents before it, both for the network's own parents and for a parent set chosen by the caller. "
     "A process without parents has the single configuration 0.",
     ["inputs"], "all networks, cardinalities, parent sets and states",
     "The tests check a few indices on small networks with mostly binary nodes, where a swapped or shifted radix often gives the same value.",
     ["src/process/ctbn.rs", "src/process/ctmp.rs"],
     [("fold over the parents", "src/process/ctbn.rs: get_param_index_network, get_param_index_from_custom_parent_set"), ("single-node index", "src/process/ctmp.rs: get_param_index_network")],
     "value-flow: loop recurrences solved to sum/product normal forms and compared with the mixed-radix polynomial",
     "Exact for all inputs modulo machine overflow; the single-node process is a recorded known finding.",
     "The loops that compute the index are solved into sum-of-products normal forms, which must be identical to the mixed-radix polynomial.", 3)

prop("C04", "Decoding an index inverts the mixed-radix encoding",
     "Decoding a joint-state index returns one component per variable, and component i is the index divided by the product of the cardinalities of the variables before i, modulo its own cardinality.",
     ["inputs"], "all lists of cardinalities and all indices",
     "One test decodes the indices of one domain; nothing relates the decoder to the encoder for other cardinalities.",
     ["src/process/ctbn.rs"], [("repeated division", "src/process/ctbn.rs: idx_to_state")],
     "value-flow: division recurrence solved to closed form", "Exact for all inputs modulo overflow and empty domains.",
     "The decoding loop is solved to a closed form and compared with the mixed-radix digit at a generic position.", 2)

prop("C06", "Only validated intensity matrices are ever stored by the checked setter",
     "Setting a node's conditional intensities through the checked setter succeeds exactly when the given table passes validation; on success the table is stored, and on failure the node is left with no table at all. The setter touches nothing else.",
     ["inputs"], "all nodes and all tables",
     "The tests try one valid and a few invalid tables and never look at what remains stored after a rejection.",
     ["src/params.rs"], [("store, validate, roll back", "src/params.rs: set_cim")],
     "value-flow: setter summary compared with the validator's own decision diagram",
     "Exact for all inputs, relative to the validator's condition, which C07 constrains.",
     "The condition under which the setter returns Ok is compared with the validator's condition on the stored table, and the stored value is checked under both outcomes.", 9)

prop("C07", "Validation rejects every malformed conditional intensity matrix",
     "A node's table is accepted only if it is present, has one square matrix of the node's cardinality per parent configuration, and in every configuration has negative diagonal entries, non-negative off-diagonal entries and rows summing to zero, an undefined (NaN) entry never being accepted. Every table that satisfies this is accepted.",
     ["inputs"], "all tables: any number of configurations, any state pair, any sign class of any entry including NaN",
     "Each invalid example of the tests has a single configuration and a single kind of defect; defects in later configurations, NaN, or compensating signs are not tried.",
     ["src/params.rs"], [("sequence of checks with early rejection", "src/params.rs: validate_params")],
     "value-flow: quantified validity condition evaluated in a sign/magnitude abstract domain at generic witnesses",
     "Decides the sign, shape and row-sum conditions for a generic entry of a generic configuration; the exact tolerance on row sums is only bracketed.",
     "The validator's result is a decision diagram over quantified atoms; each defect class is instantiated at a generic witness in the sign domain {negative, zero, positive, NaN} and must force rejection, the fault-free class must force acceptance.", 13)

prop("C12", "Each sampling step executes exactly the earliest pending transition",
     "Each step of a forward-sampled trajectory returns the state and instant entered last, then moves only the node with the earliest pending transition, at that instant, to a state drawn from that node's intensities for its current state and the current configuration of its parents. "
     "A node without a pending transition draws a residence time starting now, and exactly the moved node and its children have to draw again.",
     ["histories", "inputs"], "all networks, all sampler states reached by any sequence of steps, all random draws",
     "The tests check the number and order of samples for one network and seed; a stale pending transition of a child, or a draw made for the wrong configuration, only changes the law of the trajectory.",
     ["src/sampling.rs"], [("argmin over pending transitions, then invalidation of the node and its children", "src/sampling.rs: ForwardSampler::next")],
     "value-flow summary of the step compared component-wise at a generic node",
     "Exact for all sampler states on the step's summary, with the random draws left symbolic.",
     "The complete post-state of one step is computed as a function of the pre-state and the symbolic draws; each component is compared at a generic node.", 20)

prop("C13", "A sampler starts and restarts from the requested state at time zero",
     "A new or restarted sampler is at time zero with no pending transition, in the requested initial state if there is one and otherwise in a state drawn node by node from each node's own domain. A requested seed is the one used, without one the stream is not a fixed one, and a restart keeps the network, the requested state and the random stream.",
     ["histories", "inputs"], "all networks, seeds, requested states, and restarts after any number of steps",
     "The tests restart a sampler once; a pending transition or clock surviving a restart depends on the history before it.",
     ["src/sampling.rs"], [("new builds an empty sampler and resets it", "src/sampling.rs: ForwardSampler::new"), ("reset", "src/sampling.rs: ForwardSampler::reset")],
     "value-flow summaries of construction and restart", "Exact for all inputs; draws are symbolic.",
     "The fields of the sampler after construction and after a restart from an arbitrary state are compared with their required values.", 18)

prop("C16", "Sufficient statistics account for every step of every trajectory once",
     "The transition counts of a node are, for each configuration of the given parents and each pair of distinct states, the number of consecutive instants of all trajectories between which the node makes that move while its parents are in that configuration, and the residence times are the corresponding total durations. Both have one cell per configuration and state.",
     ["inputs"], "all datasets, nodes, parent sets and cardinalities",
     "The tests compare learnt parameters with the generating ones within a tolerance on one sampled dataset; a misplaced increment of a rare cell or a lost last interval stays within it.",
     ["src/parameter_learning.rs"], [("double loop over trajectories and instants", "src/parameter_learning.rs: sufficient_statistics")],
     "value-flow: scatter-accumulation loops solved to guarded sums, compared with the defining double sum",
     "Exact for all inputs (integers unbounded, floats as reals); assumes a trajectory has as many event rows as instants (C29).",
     "The nested accumulation loops are solved to a closed form for a generic cell, which must be identical to the defining sum over trajectories and instants.", 7)

prop("C17", "Learnt intensities are the prescribed estimate with zero-sum rows",
     "Every off-diagonal entry of a learnt table is the ratio of the transition count to the residence time of that configuration and state, with the two prior hyper-parameters each shared equally among the configurations when the estimate is Bayesian, and every diagonal entry is minus the sum of the other entries of its row.",
     ["inputs"], "all statistics, hyper-parameters, configurations and state pairs",
     "The tests compare with known values within 1-10% on one dataset; a prior divided by the wrong count or a diagonal summed over the wrong axis of one configuration stays inside.",
     ["src/parameter_learning.rs"], [("element-wise division, then diagonal assignment", "src/parameter_learning.rs: MLE::fit, BayesianApproach::fit")],
     "value-flow: array pipelines reduced to per-cell rational normal forms",
     "Exact per cell for all inputs in real arithmetic; undefined ratios (no observation) are outside the claim.",
     "The learnt table is reduced to a rational normal form of a generic cell of the statistics and compared with the estimator's formula.", 10)

prop("C18", "A learnt node reports what it was learnt from",
     "Learning the parameters of a node for a given parent set uses exactly that parent set, and the node's current parents when none is given. The result keeps the label and domain of the node it was learnt for and carries the very counts and residence times its table was computed from.",
     ["inputs"], "all networks, datasets, nodes and parent sets",
     "The tests only look at the table of the result.",
     ["src/parameter_learning.rs"], [("parent-set default and setters", "src/parameter_learning.rs: MLE::fit, BayesianApproach::fit")],
     "value-flow: provenance of the fields of the learnt node", "Exact for all inputs; the statistics routine itself is C16.",
     "For both estimators and both ways of choosing the parents, each field of the result is traced to its source.", 20)

prop("C05", "Independence tests compare matching parent configurations",
     "Both hypothesis tests fit the child once with the separation set and once with the separation set plus the tested parent, on the given network and dataset. Independence is accepted exactly when, for every configuration of the larger parent set, its matrices agree with those of the separation-set configuration obtained by dropping the tested parent's state.",
     ["inputs"], "all networks, children, tested parents, separation sets and cardinalities",
     "The tests run a few (child, parent, separation set) triples whose outcome is clear-cut; a wrong pairing of configurations shows only when the tested parent sits between other parents or cardinalities differ.",
     ["src/structure_learning/hypothesis_test.rs"],
     [("index arithmetic pairing configurations", "src/structure_learning/hypothesis_test.rs: F::call, ChiSquare::call")],
     "value-flow: index recurrences solved and compared with the mixed-radix projection", "Exact for all inputs; the cache (C22) and the statistics (C36) are separate.",
     "Both test drivers are summarised with the parameter cache and the matrix comparison opaque; the quantified acceptance condition must be identical to the one over projected configurations.", 14)

prop("C19", "A learnt structure contains exactly the parent sets that were learnt",
     "A structure learner discards the arcs of the network it is given, learns one parent set for every node from the given dataset, and returns that same network with an arc from every member of a node's learnt parent set to that node, and no other arcs.",
     ["inputs"], "all networks, datasets, scores and tests, any number of nodes",
     "The tests learn a few fixed networks; a node skipped, an arc reversed or a set attributed to another node is invisible when the remaining structure happens to match.",
     ["src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_based_algorithm.rs"],
     [("arc insertion after learning", "src/structure_learning/*: fit_transform")],
     "value-flow: loop structure of the learners, provenance of each arc's endpoints",
     "Decides which arcs are added from the learnt sets; assumes the i-th node index of a network is i. Whether the sets themselves are right is C20, C23 and, statistically, out of reach.",
     "Every call that adds an arc is traced to the loops around it: the child must be the node of the traversal, the parent an element of the set learnt for that node, with no filter, and every score or test is computed for that node on the given dataset.", 26)

prop("C20", "Hill climbing only ever moves to a set that scores no worse",
     "The greedy search starts from the empty parent set and its score; each attempt adds or removes one candidate other than the node itself, respects the maximum number of parents, and is kept only if it scores no lower and always if it scores higher. The running score is always the score of the current set, every sweep tries every candidate, and the search stops exactly when a whole sweep brought no strict improvement.",
     ["inputs", "histories"], "all scores, datasets, nodes, limits and all sequences of accepted and rejected moves",
     "The tests check the final structure for a handful of networks; a revert that forgets the removed parent or a stale score changes only some search paths.",
     ["src/structure_learning/score_based_algorithm.rs"],
     [("toggle, score, revert", "src/structure_learning/score_based_algorithm.rs: HillClimbing::fit_transform")],
     "loop-invariant check on the case-split transition relation of one generic iteration",
     "Inductive for all runs: each obligation is checked on one iteration from an arbitrary state satisfying the invariant; termination is not claimed.",
     "The step of the inner loop is split into all its cases; each case is checked for membership, size, score consistency and acceptance by comparing the literals with the move made.", 14)

prop("C21", "A dataset over another number of variables is refused before learning",
     "A structure learner panics when the number of variables of the dataset differs from the number of nodes of the network, before anything is edited or learnt, and proceeds when they agree.",
     ["inputs"], "all networks and datasets",
     "One test per learner tries one mismatching pair.",
     ["src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_based_algorithm.rs"],
     [("guard at the start of learning", "src/structure_learning/*: fit_transform")],
     "value-flow: completion condition and path conditions of the editing calls", "Exact for all inputs.",
     "The condition under which the learner completes is evaluated under equal and under different counts, and the conditions of the editing calls under different counts.", 6)

prop("C22", "The parameter cache is transparent",
     "Asking the cache for the parameters of a parent set returns either a fresh fit for exactly the requested network, dataset, node and parent set, or the entry stored under that very parent set, and the only entry a request can add is that answer under that key. A new cache is empty.",
     ["histories", "inputs"], "all sequences of requests, including those that rotate the cache's generations",
     "No test compares cached and uncached answers; rotation happens only when separation sets grow beyond one element.",
     ["src/structure_learning/constraint_based_algorithm.rs"],
     [("two-generation map keyed by parent set", "src/structure_learning/constraint_based_algorithm.rs: Cache::fit")],
     "value-flow: provenance of every answer and of every stored entry on each path",
     "Inductive over request histories; one cache must serve one child and dataset, which C23 checks at the only user.",
     "Every path of a request is classified: the value returned and each entry of the maps afterwards must come from the fit of the requested set or from an entry under the requested key.", 7)

prop("C23", "The PC learner removes exactly the candidates separated at each level",
     "For each child all other nodes start as candidates; level by level, for separation sets of size 0, 1, 2, ..., every candidate is tested against every subset of that size of the other candidates. It is removed exactly when both tests accept independence for some such subset, removals take effect at the end of the level, and levels go on while a subset of that size exists.",
     ["inputs", "schedules"], "all test outcomes, candidate sets, levels and nodes",
     "The tests check final structures on small networks where few levels are reached; order dependence or a skipped level need larger parent sets.",
     ["src/structure_learning/constraint_based_algorithm.rs"],
     [("level-wise elimination with a frozen candidate set", "src/structure_learning/constraint_based_algorithm.rs: CTPC::fit_transform")],
     "loop-structure analysis on value-flow summaries with the tests opaque",
     "Inductive: decided on one generic level, candidate and separation set with opaque test outcomes.",
     "The four nested loops are identified from the two test calls; sources and ranges of candidate, separation set and size, the condition for leaving the search, the set update and the cache's initial value are compared with the algorithm.", 15)

prop("C14", "Random draws of a node follow its conditional intensities",
     "The residence time in a state is the negated logarithm of one uniform number divided by that state's exit rate under the given parent configuration, and the next state is the first one whose share of the exit rate, added to the shares of the states before it, covers one uniform number. A state whose intensity is null is never drawn, whatever the uniform number and the rounding of the sums; the initial state is uniform over the domain, and a node without parameters yields an error instead of a draw.",
     ["inputs"], "all intensity tables that pass validation, parent configurations, current states and values of the uniform number",
     "The tests average many draws of one fixed table; a draw at the edge of the unit interval, a null intensity met by rounding or a wrong configuration with the same rates goes unnoticed.",
     ["src/params.rs"],
     [("inverse transform sampling", "src/params.rs: get_random_residence_time, get_random_state"), ("uniform initial state", "src/params.rs: get_random_state_uniform")],
     "value-flow summaries with the random draw as a symbol; cumulative loops reduced to first-hit and last-positive forms",
     "Decides the map from the uniform number to the result for all inputs in real arithmetic; that the generator's numbers are uniform is trusted.",
     "Each drawing operation is reduced to a closed form over exactly one random draw, and that form, its range and its generator are compared with the inverse-transform definition.", 14)

prop("C15", "Generated trajectories are consecutive samples cut at the end time",
     "A generated dataset has as many trajectories as asked for, drawn one after the other from a single sampler built for the given network and seed and reset between them. Each trajectory lists, in order, the instant and the state of every sample drawn before the end time, and closes with the end time and the state held last.",
     ["inputs", "histories"], "all networks, seeds, numbers of trajectories and end times, all random draws",
     "The tests compare shapes and a tolerance on learnt parameters; a lost or duplicated last row, or a trajectory that continues its predecessor, stays within it.",
     ["src/tools.rs"], [("sampling loop", "src/tools.rs: trajectory_generator")],
     "value-flow summary of the sampling loop: per-iteration transfer functions and provenance of the sampler, samples left symbolic",
     "Exact for all sequences of samples; assumes the sampler's own contract (C12, C13).",
     "The sampler's provenance (built once, reset, next) is followed through both loops and the rows appended per iteration are solved into closed forms of the sequence of samples.", 10)

prop("C25", "Reward calls add node instantaneous rewards and one transition reward",
     "Calling a factored reward function returns, as instantaneous reward, the sum over the nodes of the node's reward for its current state and, as transition reward, the entry of the node that changed for its previous and current state. The transition reward is zero without a previous state or without a change, and a fresh reward function has zero tables of the nodes' cardinalities.",
     ["inputs"], "all networks, tables, current states and previous states that differ in at most one variable",
     "The tests call a few states of a three-node network; a table indexed by (current, previous), or a sum that skips a node, can be invisible for symmetric or zero tables.",
     ["src/reward/reward_function.rs"], [("sum and lookup", "src/reward/reward_function.rs: FactoredRewardFunction::call, initialize_from_network_process")],
     "value-flow: sums and first-match searches solved to normal forms and compared",
     "Exact for all inputs in real arithmetic.",
     "Both components of the reward are solved to a sum and a first-match normal form over a generic network and compared with the definition.", 12)

prop("C26", "The Monte Carlo value is the mean return of the simulated trajectories",
     "The value of a state is the mean, over trajectories started in that state and reset in between, of the return of a trajectory: the reward rate of the state held times the time spent in it, cut at the end time, plus the reward of every transition before the end time. With an infinite horizon both are discounted continuously; trajectories stop at the requested maximum or when the error bound of the mean is first met.",
     ["inputs", "histories"], "all networks, reward functions, criteria, horizons, stopping parameters and random draws",
     "The tests compare with reference values within a tolerance for rewards of few nodes; a reward taken from the state after the transition or a discount at the wrong instant cancels for symmetric processes.",
     ["src/reward/reward_evaluation.rs"], [("accumulation and aggregation", "src/reward/reward_evaluation.rs: MonteCarloReward::evaluate_state")],
     "value-flow: per-step contribution compared as normal forms; the aggregate decided by random interpretation of the closed form",
     "Exact for one step's contribution in real arithmetic; the aggregation formula is compared by random interpretation over small sizes; assumes the sampler's own contract (C12, C13).",
     "The contribution of one sample to the return is compared with the definition for each criterion and position of the sample relative to the end; sampler provenance, loop condition and the stopping rule are compared too.", 14)

prop("C27", "State-space evaluation evaluates every joint state exactly once",
     "Evaluating a reward over the state space returns one entry for every joint state of the network and no other, and the value of each entry is the evaluation of that very state.",
     ["inputs"], "all networks, numbers of nodes and cardinalities",
     "The tests look up a few states of binary networks, where a swapped radix or a missing state of a node of higher cardinality does not show.",
     ["src/reward/reward_evaluation.rs"], [("enumeration of joint states", "src/reward/reward_evaluation.rs: MonteCarloReward::evaluate_state_space")],
     "value-flow: enumeration solved to a comprehension and compared", "Exact for all networks modulo overflow of the number of states.",
     "The returned map is solved to a comprehension over the mixed-radix range of joint states and compared with the definition.", 1)

prop("C28", "Relative rewards compare each state with its one-variable neighbours",
     "Neighbourhood-relative evaluation returns one entry per state evaluated by the wrapped evaluation: the largest quotient of that state's value and the value of a state differing from it in at most one variable, and at least one.",
     ["inputs"], "all values, numbers of variables and cardinalities",
     "One test checks a few values of one network; a neighbourhood of the wrong radius or an inverted quotient agrees when the extreme is attained elsewhere.",
     ["src/reward/reward_evaluation.rs"], [("neighbourhood maximum", "src/reward/reward_evaluation.rs: NeighborhoodRelativeReward::evaluate_state_space")],
     "value-flow: nested folds solved to maximum-over-filter normal forms and compared", "Exact for all inputs in real arithmetic.",
     "Key, filter and aggregate of the returned map are compared with the definition at a generic state.", 6)

prop("C29", "Trajectories and datasets keep the shape they were validated for",
     "A trajectory is accepted exactly when it has one row of states per instant, and a dataset exactly when all its trajectories have the same number of variables; both keep the data unchanged. Nothing outside their constructors can change those shapes afterwards.",
     ["inputs", "programs"], "all instants, rows and trajectories; every program using the crate",
     "The tests try one valid and one invalid shape each; that no other code can break the shape later is not a matter of inputs at all.",
     ["src/tools.rs"], [("constructors", "src/tools.rs: Trajectory::new, Dataset::new"), ("private fields", "src/tools.rs: Trajectory, Dataset")],
     "value-flow summaries of the constructors; visibility and signature query over all functions of the crate",
     "Exact for all inputs; code inside the defining module is covered by querying every function that returns or mutates the types.",
     "The acceptance conditions are compared with the definition; fields must be private and no function may hand out a mutable reference into them or build the types with another shape.", 9)

prop("C32", "Random graphs have independent arcs of the requested density and no loops",
     "A graph generator is built exactly when the density lies between 0 and 1 inclusive. A generated graph replaces the previous structure, has no arc from a node to itself, and decides every other ordered pair by a draw of its own that succeeds with probability equal to the density.",
     ["inputs"], "all densities, seeds and networks of any size",
     "The tests generate a few seeded graphs and compare the number of arcs with a tolerance; pairs never considered or draws shared between pairs stay inside it.",
     ["src/tools.rs"], [("constructor assertion", "src/tools.rs: UniformGraphGenerator::new"), ("double loop over nodes", "src/tools.rs: UniformGraphGenerator::generate_graph")],
     "value-flow summaries: event conditions with the random draw as a symbol, iteration space of the enclosing loops",
     "Exact for all sizes given the generator's uniformity; the order in which arcs are added is free.",
     "The condition and iteration space under which an arc is added are extracted and compared with the definition; obligations cover the reset, the pairs, the loop exclusion, the probability and the independence of the draws.", 11)

prop("C33", "Random parameters are valid tables with exit rates in the requested interval",
     "A parameter generator is built exactly when no bound of its interval is negative. It gives every node one matrix per parent configuration in which the off-diagonal entries of a row share an exit rate drawn from the interval in proportion to weights drawn from the unit interval and the diagonal makes the row sum to zero; rates and weights are drawn anew for every entry, and nothing else of the node changes.",
     ["inputs"], "all intervals, seeds and networks: any number of parents, configurations and states",
     "The tests validate the tables of a few networks; shared weights, a wrong number of configurations for unusual cardinalities or rates from outside the interval can all pass validation.",
     ["src/tools.rs"], [("table construction", "src/tools.rs: UniformParametersGenerator::generate_parameters"), ("constructor assertion", "src/tools.rs: UniformParametersGenerator::new")],
     "value-flow summaries: array pipelines reduced to element formulas over indexed draws",
     "Exact in real arithmetic for all sizes; rounding of the row sums is not covered.",
     "The table stored in a generic node is reduced to a formula at a generic configuration, row and column over indexed random draws, and compared with the definition; the iteration space and the untouched fields are obligations of their own.", 21)

prop("C35", "Scores are the closed-form marginal log-likelihood and BIC",
     "The log-likelihood score of a parent set is the closed-form marginal log-likelihood of that set's sufficient statistics under the score's own two hyper-parameters, shared equally among the configurations. The BIC score is that value minus half the number of free parameters times the logarithm of the total number of recorded steps.",
     ["inputs"], "all datasets, nodes, parent sets, cardinalities and hyper-parameters",
     "The tests compare a few scores with one-decimal references; a term that vanishes for unit hyper-parameters or binary nodes goes unnoticed.",
     ["src/structure_learning/score_function.rs"],
     [("element-wise log-gamma sums", "src/structure_learning/score_function.rs: LogLikelihood::call, BIC::call")],
     "value-flow: array pipelines reduced to sums of log-gamma terms", "Exact in real arithmetic for all inputs; numerical accuracy is not claimed.",
     "The score's summary is reduced to a normal form over the sufficient statistics and compared term by term with the formula.", 6)

prop("C36", "Hypothesis tests compute the documented statistics and decision",
     "The exit-rate test accepts two configurations exactly when, for every state, the ratio of the exit rates lies between the lower and upper half-significance quantiles of an F distribution whose degrees of freedom are the numbers of departures. The destination test accepts them exactly when, for every state, the two-sample chi-square statistic over the other states has, with as many degrees of freedom as there are other states, an upper-tail probability above the significance level. States never left and transitions never made neither stop the program nor count as evidence of dependence.",
     ["inputs"], "all counts, rates, significance levels, states and cardinalities",
     "The tests look at clear acceptances and rejections on binary and ternary nodes.",
     ["src/structure_learning/hypothesis_test.rs"],
     [("statistics", "src/structure_learning/hypothesis_test.rs: F::compare_matrices, ChiSquare::compare_matrices")],
     "value-flow: array pipelines reduced to rational normal forms with the distribution functions opaque", "Exact in real arithmetic; distribution functions are trusted; the two failures on zero counts are known findings.",
     "Both decisions are reduced to quantified comparisons of a distribution function applied to a rational expression of the counts and compared with the definition.", 6)

prop("C24", "Amalgamation yields the joint process over all variables",
     "The amalgamated process has one state per joint state of the network, with joint states numbered by the mixed-radix encoding over the variables. The intensity between two joint states that differ in exactly one variable is that variable's conditional intensity under its parents' states; it is zero when they differ in more than one variable, and the diagonal entry is the sum of the variables' own diagonal intensities.",
     ["inputs"], "all networks: any number of variables, cardinalities, arcs and parameters, all pairs of joint states",
     "The tests compare one or two small networks with hand-computed matrices; a wrong index for unequal cardinalities, several parents or a variable that is not the last passes them.",
     ["src/process/ctbn.rs"], [("amalgamation", "src/process/ctbn.rs: CtbnNetwork::amalgamation")],
     "value-flow: nested accumulation loops reduced to an entry formula over mixed-radix digits",
     "Exact in real arithmetic for networks of any size; rounding against the validation tolerance is not covered.",
     "The stored table is reduced to a formula at a generic pair of joint states and compared with the definition.", 6)

prop("C30", "A single-variable process is one variable that has no relatives",
     "A process without conditioning holds at most one variable: the first insertion stores the given variable unchanged under number 0, and any further one is refused with an error that leaves the process as it was. Its variable has no parents and no children, adding an arc never succeeds, and no other variable number is ever answered.",
     ["inputs", "histories"], "all variables, all call sequences, all variable numbers",
     "The tests add one or two nodes; histories of other operations and generic indices are never combined.",
     ["src/process/ctmp.rs"], [("NetworkProcess implementation", "src/process/ctmp.rs: CtmpProcess")],
     "value-flow summaries of every operation, induction over operations", "Exact for all inputs; operations documented as unsupported are only required not to return.",
     "Every operation's result and state update is compared with the contract.", 22)

prop("C31", "Refusals are reported as errors of the documented kind",
     "Using a variable whose parameters are absent is reported as 'parameters not initialized' by validation and by both random draws, and never stops the program; a malformed table is reported as an invalid matrix by validation and by the setter. Refused insertions are reported as errors rather than by stopping the program.",
     ["inputs"], "all parameters, tables, states, random streams and insertions",
     "The tests provoke a few of the errors once; each refusal branch has its own error value that no test distinguishes.",
     ["src/params.rs", "src/process/ctbn.rs", "src/process/ctmp.rs"], [("error values", "src/params.rs: ParamsError"), ("insertion errors", "src/process.rs: NetworkError")],
     "value-flow: every leaf of the summarised result classified by error variant", "Exact for all inputs; the wording of messages is free.",
     "Every feasible result of the fallible operations is enumerated and its variant compared with the documented one.", 11)

prop("C08", "A requested seed fixes every result",
     "Operations given a seed take all their randomness from a stream seeded with it: no entropy, clock, environment, thread identity or hasher state reaches their results. No result depends on the iteration order of a hash table.",
     ["programs", "inputs", "schedules"], "every function of the crate on every path; all seeds",
     "Repeating a seeded run in a test compares two executions of one input; an unseeded draw on a rare path, or an iteration order that happens to repeat, is not seen.",
     ["src/sampling.rs", "src/tools.rs", "src/reward/reward_evaluation.rs", "src/params.rs"],
     [("seeding", "src/sampling.rs: ForwardSampler::new; src/tools.rs: generators; src/reward/reward_evaluation.rs: MonteCarloReward"), ("hash tables", "src/reward: reward tables; src/structure_learning: cache")],
     "effect analysis over the compiler's MIR call graph, value-flow with the entropy source as a symbol, query over hash-table iterations",
     "All functions of the crate; library code is classified by a reviewed list of ambient sources.",
     "One obligation per function (no ambient source), per operation reaching a source of entropy (not with a seed) and per iteration over a hash table (order-free).", 90)

prop("C09", "Results do not depend on the thread schedule",
     "Every parallel computation is a map over independent elements whose results are combined in an order-preserving or order-free way. Tasks share no mutable state, locks, atomics or channels.",
     ["schedules", "programs"], "every parallel call site, all interleavings and numbers of threads",
     "Tests run a handful of schedules on small data; a race on a shared accumulator or a scheduling-dependent choice rarely shows.",
     ["src/structure_learning/score_based_algorithm.rs", "src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/hypothesis_test.rs", "src/parameter_learning.rs"],
     [("parallel loops", "src/structure_learning: par_iter, into_par_iter")],
     "effect analysis over MIR: synchronisation primitives, captures of parallel closures, reviewed combinators",
     "All functions of the crate; rayon's indexed collect is trusted to preserve order.",
     "One obligation per function (no synchronisation, no shared mutable state) and per parallel call site (combinator and captured types).", 90)

prop("C10", "Results do not depend on the log level",
     "Enabling or disabling log output changes nothing but the log: values computed only for a log message never reach results, random streams or control flow, and log arguments have no side effects.",
     ["configurations", "inputs"], "every logging statement, every log level",
     "The tests run at one log level, where a draw or update inside a log argument is either always or never executed.",
     ["src/params.rs", "src/structure_learning", "src/sampling.rs"], [("log statements", "src/: log macros")],
     "taint analysis over MIR from the log-level test: implicit and explicit flows to anything live after the statement",
     "All functions of the crate; the log crate itself is trusted.",
     "One obligation per function: nothing defined under the log-level test is live outside it and no effectful call happens under it.", 90)

prop("C11", "The library has no effects beyond its results",
     "No operation touches files, network, processes, environment or standard streams, and no global or thread-local state survives a call: the only state is in the values the caller holds. The crate contains no unsafe code and no interior mutability, so a shared reference never changes what it refers to.",
     ["programs", "histories"], "every function and every data type of the crate, all call sequences",
     "No test observes the absence of effects; hidden state would only show through a history the tests do not contain.",
     ["src"], [("crate", "src/lib.rs")],
     "effect query over the type-checked crate: MIR call graph, field types, statics, unsafe blocks",
     "All functions and types; logging through the log facade is allowed.",
     "One obligation per function and per data type.", 100)

prop("C37", "Operations stop the program only for their documented misuse",
     "Given variables with parameters, initialised arcs and indices in range, every assertion or deliberate stop reached in an operation is a documented misuse: invalid shapes in constructors, negative hyper-parameters, a density or interval out of range, a dataset over another number of variables, or an operation a single-variable process or the relative reward declares unsupported. In every other case the operation completes.",
     ["inputs", "histories"], "every public operation, all receivers and arguments",
     "A test that provokes a panic fixes one input; that no other input reaches any assertion is a statement about all paths.",
     ["src"], [("assertions and panics", "src: assert!, panic!, unimplemented!")],
     "value-flow: completion condition of every public operation, compositional (operations it calls are opaque and have their own obligation)",
     "Covers explicit assertions and panics; index bounds, unwrapping of values computed by library code, arithmetic overflow and non-termination are not covered.",
     "One obligation per public operation: the condition under which it completes, under the preconditions, is exactly the negation of its documented misuse.", 80)

prop("C38", "Variables, networks and learners keep what they were given",
     "A new variable has the given label and states and nothing learnt; storing or resetting parameters and statistics changes exactly those, and the accessors return what is stored. A network numbers its variables in order of insertion, hands out each under its own number with its label and states untouched by later insertions, and learners work with the settings they were built with.",
     ["inputs", "histories"], "all variables, networks of any size, all sequences of insertions and updates",
     "The tests read back a few values; an accessor or setter that confuses two fields of the same type for rare values, or an insertion that disturbs another variable, is not exercised.",
     ["src/params.rs", "src/process/ctbn.rs", "src/structure_learning"],
     [("accessors and setters", "src/params.rs: DiscreteStatesContinousTimeParams"), ("dispatch", "src/params.rs: Params"), ("node table", "src/process/ctbn.rs: CtbnNetwork")],
     "value-flow summaries of every accessor, setter and constructor, frame conditions included", "Exact for all inputs.",
     "Result and final state of each operation are compared field by field with the contract, including the fields it must not change.", 82)

def na(pid, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


NOT_APPLICABLE = []

na("C39", "Simulated trajectories follow the law of the process",
   "Over seeds, the trajectories generated from a network are distributed as the process its parameters define.",
   ["inputs"], "all networks, all seeds, jointly as a distribution",
   "The tests compare a few frequencies under one seed.", ["src/sampling.rs", "src/tools.rs"], [("forward sampling", "src/sampling.rs")],
   "A statement about distributions over seeds: static analysis decides the formula of each draw and of each step (C12, C13, C14, C15); that independent uniform numbers through these formulas give the law is mathematics about the formulas plus the quality of the generator, not a fact of the source.")

na("C40", "Learnt parameters converge to the generating ones",
   "With growing data the estimates approach the parameters of the generating network.",
   ["inputs", "histories"], "all networks, datasets of growing size",
   "The tests compare a few estimates with a tolerance.", ["src/parameter_learning.rs"], [("estimators", "src/parameter_learning.rs")],
   "Asymptotic and probabilistic; the estimator's formula and its counts are decided (C16, C17).")

na("C41", "Structure learners recover the generating structure",
   "With enough data the learnt arcs are those of the generating network.",
   ["inputs"], "all identifiable networks and large datasets",
   "The tests try a handful of seeded networks.", ["src/structure_learning"], [("learners", "src/structure_learning")],
   "Depends on the power of the tests and the shape of the score at runtime data; what the algorithms do with given scores and test outcomes is decided (C05, C19, C20, C23, C35, C36).")

na("C42", "The Monte Carlo value is within the requested error of the true value",
   "When the evaluation stops before its maximum number of iterations, the reported value is within the requested absolute error of the expected return at the requested confidence.",
   ["inputs"], "all networks, rewards and stopping parameters",
   "The tests compare a few values with one decimal.", ["src/reward/reward_evaluation.rs"], [("stopping rule", "src/reward/reward_evaluation.rs: MonteCarloReward::evaluate_state")],
   "The guarantee is a confidence statement over seeds and the normal approximation fails for few samples; the estimator and the stopping formula themselves are decided (C26).")

na("C43", "Rounding never makes a valid model invalid",
   "Matrices assembled by the library from valid ones (amalgamation, random generation, estimates) pass validation after floating-point rounding, and cumulative sums cover every uniform number up to rounding.",
   ["inputs"], "all tables, magnitudes and sizes",
   "The tests use a few tables with round numbers.", ["src/process/ctbn.rs", "src/tools.rs", "src/params.rs"], [("validation tolerance", "src/params.rs: validate_params")],
   "The engine reads floating point as real arithmetic; a sound bound on accumulated rounding against an absolute tolerance does not exist for unbounded magnitudes (rows of size 1e9 exceed it).")

na("C44", "Every operation terminates",
   "Sampling up to an end time, learning and evaluation terminate on every valid input.",
   ["inputs"], "all networks, datasets, seeds and settings",
   "A test that hangs is noticed only for its one input.", ["src"], [("loops", "src: loop, while")],
   "Trajectories terminate only almost surely and with rates bounded away from zero; hill climbing terminates because a finite set of scores increases strictly, which holds for real numbers but not for scores that are not numbers. The other loops range over finite collections, which C20, C23, C26 and C27 use.")

na("C45", "Scores and test decisions are numerically accurate",
   "Log-gamma sums, quotients of rates and distribution functions are accurate enough that scores are ordered and hypotheses decided as in exact arithmetic.",
   ["inputs"], "all counts and residence times",
   "The tests compare a few numbers with a tolerance.", ["src/structure_learning"], [("score and statistics", "src/structure_learning/score_function.rs, hypothesis_test.rs")],
   "Runtime magnitudes are unbounded and the special functions live in a trusted library; no static error bound in reach.")

na("C46", "Estimates exist for every parent configuration",
   "Learnt intensities are finite numbers for configurations and states the data never visit.",
   ["inputs"], "all datasets and parent sets",
   "The tests use data that visit everything.", ["src/parameter_learning.rs"], [("division by the residence time", "src/parameter_learning.rs: MLE::fit")],
   "For maximum likelihood no estimate exists without observations and the code reports not-a-number, as the quotient prescribed in C17 does; which configurations a dataset visits is a runtime quantity.")
