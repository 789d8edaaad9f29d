#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording and anchors stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/opengm/"+f if not f.startswith("src/") else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A model is exactly what was added to it, however it was put together",
  "After any sequence of construction steps (adding variables, plain or shared functions of any built-in type and factors, adding factors in bulk and finalising, changing a stored function in place, copying, assigning over another model, assigning a model with another set of function types, re-assigning the label space) a graphical model has exactly the variables, label counts, functions, factors, factor orders and variable/factor adjacency that were added, and evaluating any labeling gives the combination by the model's operation of its factors' values on that labeling. Adding a shared function twice stores it once and functions whose values differ by 1e-6 or more are never merged; copies and their originals never influence each other.",
  ["histories", "inputs"], "every operation sequence up to a depth over a small alphabet of spaces, functions (equal, different, different type) and variable subsets, on up to three coexisting models, for sum and product models",
  "The unit tests run a handful of fixed construction scripts; copies, cross-type assignment and deferred finalisation are each tried in one order.",
  ["graphicalmodel/graphicalmodel.hxx", "graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_function_wrapper.hxx", "graphicalmodel/graphicalmodel_explicit_storage.hxx", "graphicalmodel/space/discretespace.hxx"],
  [("addFactor / addFactorNonFinalized / finalize keep adjacency in step", "graphicalmodel.hxx"), ("copy constructor and operator= re-target factor back pointers", "graphicalmodel.hxx"), ("addSharedFunction searches for an equal function", "graphicalmodel.hxx")],
  [("variableFactorAdjaceny_", "factors of each variable", "graphicalmodel.hxx"), ("factorsVis_", "flattened variable indices of all factors", "graphicalmodel.hxx")],
  ["evaluate", "numberOfFactors", "factorOfVariable", "variableOfFactor", "ExplicitStorage"])

p("C02", "Structure queries on a model agree with its factor graph",
  "For every model, the questions about its structure (which variables and factors are connected, adjacency lists and matrix in all forms, acyclicity, connectivity with one representative per component, chain order, grid layout, maximal factor order, how many factors of a given order touch a variable, the other variable of a second-order factor) are answered according to the mathematical definition on its bipartite factor graph.",
  ["inputs"], "every factor graph with up to a few variables and every small multiset of factors of order 0..4, including duplicate, nested, constant and disconnected factors",
  "Tests look at about five hand-drawn graphs; special cases such as duplicate factors, isolated variables, empty models and higher-order cycles are not enumerated.",
  ["graphicalmodel/graphviews/factorgraph.hxx", "graphicalmodel/graphicalmodel.hxx"],
  [("graph searches over the factor graph view", "factorgraph.hxx")], (), ["isAcyclic", "isConnected", "isChain", "isGrid", "variableAdjacencyList", "factorAdjacencyList"])

p("C03", "Every built-in function type returns its documented value for every labeling",
  "For every built-in function type (explicit table, sparse table, constant, Potts for two or N variables, generalised Potts, absolute and squared difference plain and truncated, single-variable functions, fields of experts, unary loss) and every parameterisation, the reported dimension, shape and size are those given at construction and the value at each labeling is the one the function's definition prescribes, regardless of the label iterator used. Setting values or parameters changes exactly the addressed value.",
  ["inputs"], "all shapes up to order 4 (generalised Potts to order 5+), all labelings, and all parameter assignments from small sets including ties, zero and negative values",
  "Tests evaluate single instances of each function with fixed shape and parameters.",
  ["functions/explicit_function.hxx", "functions/sparsemarray.hxx", "datastructures/sparsemarray/sparsemarray.hxx", "functions/constant.hxx", "functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/truncated_absolute_difference.hxx", "functions/truncated_squared_difference.hxx", "functions/singlesitefunction.hxx", "functions/fieldofexperts.hxx", "functions/unary_loss_function.hxx", "utilities/partitions.hxx"],
  [("operator() of each function class", "functions/*.hxx"), ("partition indexing", "utilities/partitions.hxx")], (), ["operator()", "shape", "size", "dimension"])

p("C04", "Summary queries and traversals of a function match its table of values",
  "For every built-in function type and for factors and independent factors built from them, minimum, maximum, min-max, sum, product and generic accumulation equal the brute-force result over all labelings; every traversal and copy of values visits each labeling's value in the promised order; equality holds exactly when shape and values agree; and the predicates are true exactly when the table has that form: Potts for functions of order two or more, generalised Potts for orders two to four, submodular for functions of order up to two over binary variables, (truncated) absolute and squared difference for functions of two variables with at least two labels each. (A specialised generalised-Potts function whose label count is below its order may answer the generalised-Potts and Potts predicates conservatively.)",
  ["inputs"], "all value tables over a small value set for small shapes, and all parameterisations of the specialised types",
  "Specialised overrides (closed-form sums and products, cached extrema) are tested on single instances; a wrong closed form for asymmetric shapes or ties passes.",
  ["functions/function_properties_base.hxx", "functions/function_properties.hxx", "functions/potts.hxx", "functions/pottsg.hxx", "functions/constant.hxx", "utilities/accumulation.hxx", "utilities/indexing.hxx", "graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_function_wrapper.hxx"],
  [("FunctionBase fall-backs and per-type overrides", "function_properties_base.hxx"), ("dispatch from factor to function type", "graphicalmodel_function_wrapper.hxx")], (), ["min", "max", "sum", "product", "minMax", "isPotts", "isSubmodular", "copyValues", "forAllValuesInOrder"])

p("C05", "View functions always show the function they were built from",
  "A view of a factor, a scaled view, a type-converting view, a view with some variables fixed, a scaled view of a factor with an added offset table, and an accumulated view have the shape and value their definition prescribes for every labeling, in terms of the underlying factor. Changing the underlying function is seen through the view.",
  ["inputs"], "all small factors, all subsets of fixed variables with all labels, all scale factors in a small set and all accumulators",
  "Tests build one or two views; index remapping errors show only for particular subsets of fixed variables or shapes.",
  ["functions/view.hxx", "functions/scaled_view.hxx", "functions/view_convert_function.hxx", "functions/view_fix_variables_function.hxx", "functions/modelviewfunction.hxx", "functions/accumulated_view.hxx"],
  [("coordinate remapping in operator()", "view_fix_variables_function.hxx, scaled_view.hxx, modelviewfunction.hxx")], (), ["operator()", "shape", "dimension", "size"])

p("C06", "Factor algebra equals pointwise arithmetic on tables",
  "Combining factors (add, multiply, subtract, divide, minimum, maximum, and/or, in place or into a new factor, with scalars or with each other), accumulating out any subset of variables with any accumulator (also returning the optimal labeling), fixing variables, sub-setting and re-assigning give a factor whose variables are the sorted union or the remaining set and whose value at every labeling is the pointwise or accumulated result. Inputs not written to stay unchanged.",
  ["inputs"], "all pairs of variable sets drawn from three or four variables with different label counts (disjoint, nested, overlapping, empty), all operations, all subsets of accumulated variables",
  "The unit test loops over a few variable sets of equal label counts, one operation at a time.",
  ["graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_factor_operator.hxx", "graphicalmodel/graphicalmodel_factor_accumulator.hxx", "functions/operations/operator.hxx", "functions/operations/accumulator.hxx", "utilities/shape_accessor.hxx", "utilities/indexing.hxx", "operations/adder.hxx", "operations/multiplier.hxx", "operations/minimizer.hxx", "operations/maximizer.hxx", "operations/integrator.hxx", "operations/and.hxx", "operations/or.hxx", "operations/logsumexp.hxx"],
  [("coordinate walkers merging two variable sequences", "utilities/indexing.hxx"), ("AccumulateSome / AccumulateAll implementations", "functions/operations/accumulator.hxx")], (), ["accumulate", "operator+=, *=, -=, /=", "fixVariables"])

p("C07", "A saved model loads back as the same model",
  "Saving any model to an HDF5 file under any dataset name and loading it (into a fresh or an already filled model of a type that knows the function types used) gives a model with the same variables, label counts, functions, factor order and value for every labeling; serialising and deserialising any single function is lossless. Saving reports every failure to write: when it returns without an error, the file holds the model. Loading a file whose writing stopped at any point, whose end was cut off or that cannot be read completely never returns a different model as if it were intact: it fails with an error and leaves nothing open, or yields the saved model.",
  ["inputs", "fault_sequences"], "all models from a bounded alphabet over all built-in function types, index and label types; every point (byte) at which the writing of a file can stop, every length to which it can be cut, every system call of saving and loading that can fail",
  "The test saves four models and reads them back; it never touches an incomplete file.",
  ["graphicalmodel/graphicalmodel_hdf5.hxx", "datastructures/marray/marray_hdf5.hxx", "functions/function_registration.hxx", "functions/potts.hxx", "functions/pottsg.hxx", "functions/explicit_function.hxx", "functions/sparsemarray.hxx"],
  [("hdf5::save / hdf5::load", "graphicalmodel_hdf5.hxx"), ("FunctionSerialization of each function type", "functions/*.hxx")], (), ["hdf5::save", "hdf5::load", "FunctionSerialization"])

p("C08", "Multi-dimensional array views address exactly the intended elements",
  "For arrays and views of any dimension, shape and coordinate order, element access by coordinates or linear index, iterators, sub-views, bound, permuted, transposed, squeezed, shifted and reshaped views, copies, resizes, element-wise arithmetic between arrays and views (also of different coordinate orders and overlapping ones) read and write exactly the elements of the mathematical array they denote and no others.",
  ["inputs", "histories"], "all shapes up to dimension 4 with small extents, both coordinate orders, all sequences of view operations up to a depth, all element-wise operations",
  "There is no test of the array library in the repository's suite; fast paths for contiguous or low-dimensional arrays differ from the general path.",
  ["datastructures/marray/marray.hxx"], [("View geometry (shape, strides, simplicity flag)", "marray.hxx")], (), ["View::operator()", "View::permute", "Marray::operator=", "Iterator"])

p("C09", "Arrays written to HDF5 files read back identically",
  "Saving an array or a view with at least one dimension, any coordinate order and supported element type and loading it gives the same shape and elements; loading or saving a hyper-slab reads or writes exactly that block of the stored array; a missing dataset, a block outside the array or another element type is an error that leaves the file usable and no handles open; loading into an array that held something else replaces it.",
  ["inputs"], "all shapes up to dimension 3, both coordinate orders, all hyper-slabs, several element types, plain and strided views",
  "Only whole vectors are exercised, as part of saving models.",
  ["datastructures/marray/marray_hdf5.hxx"], [("save/load/loadHyperslab/saveHyperslab", "marray_hdf5.hxx")], (), ["marray::hdf5::save", "marray::hdf5::load", "loadHyperslab"])

p("C10", "Containers behave like their standard mathematical counterparts",
  "Under every sequence of operations the ordered set, the small-buffer sequence, the reusable buffer vector, the disjoint-set partitions, the changeable priority queue, the fifo queue and the sparse array hold and report exactly what the corresponding reference container (sorted set, vector, partition, priority map, queue, map) would.",
  ["histories"], "all operation sequences up to a depth over a few elements, from empty, pre-filled and copied containers, across the inline-to-heap growth boundary",
  "Tests do fixed scripts; growth boundaries, copies while inline or on the heap, and erase/insert orders are not enumerated.",
  ["datastructures/randomaccessset.hxx", "datastructures/fast_sequence.hxx", "datastructures/buffer_vector.hxx", "datastructures/partition.hxx", "utilities/disjoint-set.hxx", "utilities/queues.hxx", "datastructures/sparsemarray/sparsemarray.hxx"],
  [("sorted-vector insertion", "randomaccessset.hxx"), ("inline buffer switch-over", "fast_sequence.hxx"), ("union by rank with path compression", "partition.hxx"), ("heap and index arrays kept in step", "queues.hxx")], (), [])

p("C11", "Exact solvers return a global optimum",
  "Brute force and A* on any model, and dynamic programming on any acyclic pairwise model, return a labeling whose value is the global optimum under the chosen accumulation (minimum or maximum) of the model's combination (sum or product), and the value they report is that optimum; A* lists its further labelings in best-first order and its bound is the value of the last labeling found.",
  ["inputs"], "all small models: every factor structure over up to four variables with different label counts including one label, order up to 3, all value tables from a small set with ties and negative values",
  "The black-box tests sample random models from a few fixed families.",
  ["inference/bruteforce.hxx", "inference/astar.hxx", "inference/dynamicprogramming.hxx"],
  [("A* node expansion with tree/fast heuristic", "astar.hxx"), ("leaf-to-root message order and back-tracking", "dynamicprogramming.hxx")], (), ["arg", "value", "bound"])

p("C12", "Message passing is exact on acyclic models",
  "On every acyclic model (also with factors of order above two) belief propagation and tree-reweighted belief propagation with enough steps, sequential or parallel, with or without damping, return an optimal labeling for every optimum-seeking semiring, and variable and factor marginals proportional to brute-force (max-)marginals for sum-product, max-product and min-sum; results do not depend on the schedule.",
  ["inputs", "schedules"], "all acyclic factor graphs on up to five variables with mixed label counts and orders, all value tables from a small set with unique optima (labelings) or any values (marginals), all schedules offered",
  "Tests sample random trees; marginals are checked for one tree.",
  ["inference/messagepassing/messagepassing.hxx", "inference/messagepassing/messagepassing_bp.hxx", "inference/messagepassing/messagepassing_trbp.hxx", "inference/messagepassing/messagepassing_operations.hxx", "inference/messagepassing/messagepassing_buffer.hxx", "utilities/modelTrees.hxx"],
  [("message updates and double buffering", "messagepassing_buffer.hxx"), ("acyclic schedule", "messagepassing.hxx")], (), ["arg", "marginal", "factorMarginal"])

p("C13", "Minimum cuts and graph-cut inference are optimal",
  "For every capacitated directed graph each minimum s-t-cut solver returns a partition that separates source and sink and has minimum cut weight; graph-cut inference returns a labeling of minimum energy for every binary model with submodular terms of order up to three (and of maximum value for every maximisation problem with supermodular terms of order up to two), whatever the order in which factors and edges are added.",
  ["inputs", "histories"], "all graphs on up to three or four inner nodes with capacities from a small set including zero and parallel edges; all binary models on up to four variables with submodular tables, any sign of unaries, duplicate factors, one to three submodular third-order factors",
  "Tests use a few random grids and one fixed flow network.",
  ["inference/auxiliary/minstcutboost.hxx", "inference/graphcut.hxx"],
  [("residual graph construction with reverse edges", "minstcutboost.hxx"), ("energy to capacity conversion", "graphcut.hxx")], (), ["calculateCut", "arg"])

p("C14", "Local search never loses ground and stops only at a local optimum",
  "Coordinate descent (single variables or whole factors), lazy flipping with any sub-graph size, infer-and-flip and greedy search, started from any labeling, return a labeling that is valid, has the value they report, is never worse than the start, and cannot be improved by any move of the kind the algorithm claims to have exhausted (one variable, one factor, any connected subset up to the chosen size).",
  ["inputs", "histories"], "all small binary and multi-label models with all value tables from a small set, all starting labelings, all sub-graph sizes, minimisation and maximisation",
  "Tests check values only from the default start on random models.",
  ["inference/icm.hxx", "inference/lazyflipper.hxx", "inference/infandflip.hxx", "inference/greedygremlin.hxx", "inference/movemaker.hxx"],
  [("move bookkeeping", "movemaker.hxx"), ("forest of connected subgraphs", "lazyflipper.hxx")], (), ["arg", "value", "setStartingPoint"])

p("C15", "Move-making tracks the exact energy of every move",
  "Under every sequence of trial moves, committed moves and optimal moves on arbitrary variable subsets the move maker's state is the labeling reached, the value it reports is the model's value of that labeling, a trial leaves no trace, and an optimal move picks a best joint labeling of the moved variables.",
  ["histories", "inputs"], "all move sequences up to a depth on all small models, all subsets of variables and all target labels",
  "Tests apply three moves to one model.",
  ["inference/movemaker.hxx"], [("incremental re-evaluation of touched factors", "movemaker.hxx")], [("energy_", "value of the current state", "movemaker.hxx")], ["value", "valueAfterMove", "move", "moveOptimally"])

p("C16", "Expansion, swap and fusion moves end in move-optimal labelings",
  "On models whose variables have the same number of labels, alpha-expansion and alpha-beta-swap return a valid labeling not worse than the start which no expansion move (swap move) can improve when all pairwise terms satisfy the move's conditions; label-order, starting point and repeated use do not affect this. Fusing two labelings gives, for every variable, a label of one of them. Fusion-based inference and self-fusion never return anything worse than the proposals they fused or their starting labeling.",
  ["inputs", "histories"], "all small multi-label models with metric (semi-metric) pairwise terms, unary values from a small set, all starting labelings and label orders",
  "Tests run random grids from the default start and compare values loosely.",
  ["inference/alphaexpansion.hxx", "inference/alphabetaswap.hxx", "inference/graphcut.hxx", "inference/fusion_based_inf.hxx", "inference/self_fusion.hxx", "inference/auxiliary/fusion_move/fusion_mover.hxx"],
  [("construction of the binary move problem", "alphaexpansion.hxx, alphabetaswap.hxx, fusion_mover.hxx")], (), ["arg", "value"])

p("C17", "Relaxation-based solvers bracket the optimum and report true values",
  "TRW-S, the smoothing-based dual solvers (adaptive diminishing smoothing, Nesterov) and sub-gradient dual decomposition over any decomposition report, at every stage and for every option, a bound that is never on the wrong side of the optimum and a labeling whose model value is what they report; on acyclic models TRW-S closes the gap.",
  ["inputs", "configurations"], "all small pairwise models (trees, cycles, frustrated loops, duplicate edges where allowed) with values from a small set, all decompositions and solver options in a bounded set",
  "Tests sample random models and check a final value; bounds are compared on few instances.",
  ["inference/trws/trws_trws.hxx", "inference/trws/trws_adsal.hxx", "inference/trws/smooth_nesterov.hxx", "inference/trws/trws_base.hxx", "inference/trws/trws_subproblemsolver.hxx", "inference/trws/trws_decomposition.hxx", "inference/trws/smoothing_strategy.hxx", "inference/dualdecomposition/dualdecomposition_base.hxx", "inference/dualdecomposition/dualdecomposition_subgradient.hxx", "inference/auxiliary/primal_lpbound.hxx"],
  [("dual bound as sum of sub-problem optima", "trws_base.hxx, dualdecomposition_subgradient.hxx")], (), ["bound", "value", "arg"])

p("C18", "Partial optimality and 2-SAT answers are sound",
  "Labels that quadratic pseudo-boolean optimisation reports as certain belong to some globally optimal labeling of the binary pairwise model (jointly), everything is certain when the model is submodular with a unique optimum, and the bound never exceeds the optimum. The 2-SAT solver's value says satisfiable exactly when a satisfying assignment exists.",
  ["inputs"], "all binary pairwise models on up to four variables with values from a small set; all 2-SAT formulas on up to three or four variables",
  "Tests sample random binary models; only fixed formulas.",
  ["inference/qpbo.hxx", "inference/sat.hxx", "inference/auxiliary/minstcutboost.hxx"],
  [("complementary node construction", "qpbo.hxx"), ("implication graph components", "sat.hxx")], (), ["partialOptimality", "arg", "value"])

p("C19", "The transportation solver returns an optimal feasible plan",
  "For every transportation problem (marginals normalised to sum to one, as the solver does) the solver returns a transport plan with exactly the requested row and column sums, non-negative entries and minimum cost (maximum gain for the maximiser), and the objective it returns is that cost; this also holds when the same solver object solves a sequence of problems of changing size. Transposing a cost matrix exchanges its axes.",
  ["inputs", "histories"], "all cost matrices up to 3x3 over a small value set and patterned ones up to 6x6, all balanced integer marginals in a range including zeros, all sequences of three problems on one solver, every short history of the sparse table it works on",
  "The test solves a few random and fixed instances.",
  ["inference/auxiliary/transportationsolver.hxx"], [("network simplex on the basis tree", "transportationsolver.hxx")], (), ["Solve", "GetSolution"])

p("C20", "Reparametrisations preserve the energy of every labeling",
  "Whatever messages are in the reparametrisation storage (set entry by entry, from a serialised vector, from a file, or computed by the tree-reweighted reparametriser with any mask or set of immovable labels), variable values plus values of the factors over more than one variable sum to the model's energy for every labeling; for models with one unary factor per variable the reparametrised model evaluates like the original, the sum of its local optima bounds the optimum, and labels that arc consistency marks everywhere form an optimal labeling. Messages survive serialisation; a vector of the wrong length is refused. The canonical view of a model evaluates like the model, with one unary factor per variable and one factor per set of variables, with every cloning option. The primal bound for relaxed labelings is the sum of the unary inner products and of the best pairwise marginals with the given variable marginals (the energy itself for integral ones), after any sequence of updates and queries.",
  ["inputs", "histories"], "all small models, all message vectors from a small set, all masks, all short histories of updates and queries",
  "Tests check one random reparametrisation.",
  ["inference/auxiliary/lp_reparametrization.hxx", "inference/trws/trws_reparametrization.hxx", "utilities/canonical_view.hxx", "functions/accumulated_view.hxx", "inference/auxiliary/primal_lpbound.hxx"],
  [("variable/factor slot storage", "lp_reparametrization.hxx"), ("buffered values and last solution", "primal_lpbound.hxx")], (), ["getFactorValue", "getVariableValue"])

p("C21", "Reduced models are equivalent to the original with variables fixed",
  "After fixing and freeing any variables, the reduced model and the family of independent sub-models evaluate, for every labeling of the remaining variables, to the original model's value of the completed labeling (in the mode that keeps fixed factors); their variables are the free ones in original order, sub-models are the connected components, and states translate back correctly. Eliminating tentacles keeps the optimum and reconstructs an optimal labeling.",
  ["inputs", "histories"], "all small models, all sequences of fix/free/lock/build operations, all labelings",
  "Tests fix two or three variables of one model.",
  ["graphicalmodel/graphicalmodel_manipulator.hxx", "functions/view_fix_variables_function.hxx"],
  [("variable renumbering and component expansion", "graphicalmodel_manipulator.hxx")], (), ["getModifiedModel", "modifiedState2OriginalState"])

p("C22", "A decomposition contains the whole model and nothing else",
  "Every decomposition offered (manual, spanning trees, one tree with duplicated variables, k-fans, open and closed blocks) consists of sub-models whose factors and variables map back to original ones, together contain every factor and variable, have the promised structure (forests, blocks), and with each factor weighted by one over its number of occurrences sum to the original energy for every consistent labeling.",
  ["inputs"], "all factor graphs over up to four or five variables with factors of order 1..3, all block and fan choices",
  "Tests decompose one grid model.",
  ["graphicalmodel/decomposition/graphicalmodeldecomposer.hxx", "graphicalmodel/decomposition/graphicalmodeldecomposition.hxx", "utilities/modelTrees.hxx"],
  [("sub-variable and sub-factor lists", "graphicalmodeldecomposition.hxx")], (), ["isValid", "subFactors", "subVariables"])

p("C23", "Constraints and constraint functions accept exactly the feasible labelings",
  "A linear-constraint, label-order or label-count-limit function returns its satisfied value exactly for labelings that fulfil the constraint, and its list of constraints violated by an integral or fractional point together with their weights is exact; indicator variables and linear constraints compare (in a total order), copy and modify as collections of their literals and terms; label-cost and sum-constraint functions return the documented cost, which is also the optimal cost of the linear program they hand to LP solvers.",
  ["inputs", "histories"], "all coefficient and bound choices from small sets, all operators, all labelings, all indicator logic types, all edit sequences up to a depth",
  "Tests check single constraints.",
  ["datastructures/linear_constraint.hxx", "datastructures/indicator_variable.hxx", "functions/constraint_functions/linear_constraint_function.hxx", "functions/constraint_functions/linear_constraint_function_base.hxx", "functions/constraint_functions/label_order_function.hxx", "functions/constraint_functions/num_labels_limitation_function.hxx", "functions/soft_constraint_functions/label_cost_function.hxx", "functions/soft_constraint_functions/sum_constraint_function.hxx", "inference/auxiliary/lp_functiontransfer.hxx"],
  [("evaluation of constraints on label vectors", "linear_constraint_function.hxx")], (), ["operator()", "challenge", "linearConstraintsBegin"])

p("C24", "Learnable functions are linear in their weights with matching gradients",
  "The value of every learnable function at every labeling is the sum over its weights of the weight times the reported gradient at that labeling, reflects the current weights of the weight vector it refers to after any update, and uses the weight indices and features it was given; weight constraints and regularisers report exactly the bounds, sizes and penalties that were specified.",
  ["inputs", "histories"], "all small shapes, weight assignments, feature values and weight-update sequences",
  "Tests evaluate one instance per type.",
  ["functions/learnable/lpotts.hxx", "functions/learnable/lunary.hxx", "functions/learnable/lweightedsum_of_functions.hxx", "graphicalmodel/weights.hxx"],
  [("weightGradient and operator()", "functions/learnable/*.hxx")], (), ["operator()", "weightGradient", "setWeights"])

p("C25", "Solvers honour the common inference contract over their whole life",
  "For every solver the labeling returned is complete and in range and the reported value is the model's value of that labeling, whatever the history of the solver object; the first run, a run after reset and a run from a newly set starting point give what a fresh solver with the same parameters and starting point gives (solvers that ask proposal generators go on with their proposals, so only their first run is fixed); further runs of solvers that improve a labeling are not worse than the last one, and further runs of exact solvers give the optimum again. A run shows a visitor one begin, then steps, then one end; no value shown beats the optimum and no bound is on its wrong side (a bound of A* with several labelings asked for is about the last of them); a visitor's request to stop ends the run without further steps (A* may show one more) and with a valid labeling or, for solvers that have none yet, a status that says so. What the timing visitor records is aligned (one entry for each recorded visit in every column, extra logs included), has increasing iterations and times, holds every n-th visit with its values, ends with the final value and bound, and asks to stop exactly when its gap or time limit is reached. Settings survive the conversion of parameters to those of the same solver for another model type.",
  ["histories", "configurations"], "all sequences of calls (run, run stopped at a chosen step, reset, one of two starting points) up to depth two followed by each of five kinds of last run, on all small models of a family, for each solver; all sequences of visits and logs up to a depth; all settings of small ranges",
  "Tests call infer once.",
  ["inference/inference.hxx", "inference/visitors/visitors.hxx", "inference/icm.hxx", "inference/lazyflipper.hxx", "inference/bruteforce.hxx", "inference/astar.hxx", "inference/messagepassing/messagepassing.hxx", "inference/alphaexpansion.hxx", "inference/alphabetaswap.hxx", "inference/graphcut.hxx", "inference/dynamicprogramming.hxx", "inference/qpbo.hxx", "inference/greedygremlin.hxx", "inference/infandflip.hxx", "inference/self_fusion.hxx", "inference/fusion_based_inf.hxx"],
  [("Inference base class", "inference.hxx"), ("visitors", "visitors.hxx")], (), ["infer", "arg", "value", "reset", "setStartingPoint"])

p("C26", "Sampling solvers are sound for every outcome of the random source",
  "For every sequence of random draws, Gibbs sampling returns the best labeling among the initial and all visited ones, and Swendsen-Wang sampling the best among the initial one and those accepted after burn-in; both report its value, never lose it, change at most one variable or one cluster per step, and record marginals that are exactly the visit frequencies of the sampled states; the transition probabilities of a sampling step are in balance with the model's distribution. Random numbers lie in their half-open range and are evenly distributed.",
  ["schedules", "inputs"], "every answer of the random source over a small set of branches, for a bounded number of sampling steps on small models",
  "The corresponding tests are disabled in the repository.",
  ["inference/gibbs.hxx", "inference/swendsenwang.hxx", "utilities/random.hxx"],
  [("proposal, acceptance and best-state update", "gibbs.hxx, swendsenwang.hxx")], (), ["arg", "value", "marginal"])

p("C27", "Iterators, walkers and index utilities enumerate exactly what they promise",
  "Accessor iterators obey random-access iterator laws, shape walkers (plain, switched, with fixed coordinates, and walking the variables of two factors and of their union together) enumerate every coordinate tuple once in the promised order, subsequence iterators enumerate exactly the elements selected by their index sequence, sorting helpers return sorted data with a consistent permutation, partition numbering is a bijection whatever was asked before, and the three-valued logic type follows its truth tables (a refinement by False always gives False, by True gives True unless it was False, by Maybe changes nothing).",
  ["inputs", "histories"], "all small shapes, all iterator offsets, all subsequence sizes, all permutations, all truth assignments",
  "Tests check a few instances of each.",
  ["utilities/accessor_iterator.hxx", "utilities/indexing.hxx", "utilities/subsequence_iterator.hxx", "utilities/sorting.hxx", "utilities/partitions.hxx", "utilities/tribool.hxx", "utilities/shape_accessor.hxx", "utilities/vector_view.hxx"],
  [("iterator arithmetic", "accessor_iterator.hxx"), ("carry propagation", "indexing.hxx")], (), [])

p("C28", "Label spaces report the variables they were given",
  "Every kind of label space (general, uniform, statically uniform, grid, views of other spaces) reports after any sequence of constructions, assignments and additions exactly the number of variables and labels specified, detects uniformity correctly and rejects additions it cannot represent without changing; models over different kinds of space with equal label counts are interchangeable.",
  ["histories"], "all operation sequences up to a depth over small counts",
  "Tests construct one instance of three of the kinds; one kind could not even be instantiated.",
  ["graphicalmodel/space/discretespace.hxx", "graphicalmodel/space/simplediscretespace.hxx", "graphicalmodel/space/static_simplediscretespace.hxx", "graphicalmodel/space/grid_space.hxx", "graphicalmodel/space/viewspace.hxx", "graphicalmodel/space/vector_view_space.hxx", "graphicalmodel/space/space_base.hxx"],
  [("numberOfLabels / addVariable / assignDense", "graphicalmodel/space/*.hxx")], (), ["numberOfVariables", "numberOfLabels", "isSimpleSpace"])

p("C29", "File converters and the command line preserve the model",
  "Converting a model to the UAI text format and back gives a model with the same variables and, for every labeling, the value the format's semantics prescribe (to the digits the writer prints); the converters for graphs with edge weights, partition (correlation clustering), segmentation volumes and matching problems write models whose value at every labeling is the value the text file prescribes. The command line optimiser run on a stored model evaluates a given labeling to the model's value, stores a labeling of the model and a protocol that ends with that labeling's value and has valid bounds, with the quality the chosen algorithm promises, and refuses command lines that ask for what does not exist.",
  ["inputs"], "all small models and text files in a bounded family, each converted with the real converter programs; all combinations of small models, algorithms and output options for the command line program",
  "The converters and the command line have no tests.",
  ["src/converter/opengm2uai.cxx", "src/converter/uai2opengm.cxx", "src/converter/matching2opengm.cxx", "src/converter/matching2opengm-N2N.cxx", "src/converter/opengm2wudag.cxx", "src/converter/partition2potts.cxx", "src/converter/brain.cxx", "src/interfaces/commandline/cmd_interface.hxx", "src/interfaces/common/caller"],
  [("UAI writer and reader", "src/converter"), ("algorithm callers", "src/interfaces/common/caller")], (), ["opengm2uai", "uai2opengm", "matching2opengm", "opengm_min_sum"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
