NOTES = {
"C01": ("model construction histories", "Every history of construction operations up to the stated depth, compared after every step with a plain reference model; GraphicalModel instantiations, factor orders and label counts are a fixed small set."),
"C02": ("factor graphs", "Every factor graph up to the stated number of variables and factors, every query compared with its definition on the bipartite graph; larger graphs and larger grids than stated are not explored."),
"C03": ("function parameterisations and labelings", "Every built-in function type with every parameter assignment from small sets, shapes up to order 4 (generalised Potts up to order 6 or 7) and every labeling, read through six kinds of label iterators for five value/index/label type combinations; other parameter values and larger shapes are not explored."),
"C04": ("value tables and function parameterisations", "Every summary, traversal, comparison and predicate on every small table or parameterisation, directly and through factors and independent factors; tables larger than the stated shapes or with other values are not explored."),
"C05": ("underlying functions and view parameters", "Every small underlying factor or function with every subset of fixed variables, scale, offset table and accumulator of a fixed set, every labeling; larger shapes are not explored."),
"C06": ("operand pairs and operation histories", "Every pair of small factors over subsets of up to three or four variables with every operation, every accumulated or fixed subset, and every short history of in-place operations, for three value/index/label type combinations; larger shapes and longer histories are not explored."),
"C10": ("operation histories", "Every operation sequence up to the stated depth from several initial containers, with counted elements and address sanitiser; nothing is claimed beyond the depth or for element types with throwing copies."),
"C11": ("models and solver parameters", "Every model of a bounded family (up to 4 variables with 1 to 3 labels, up to 3 or 4 factors of order 0 to 3, value patterns with and without ties and all tables over small value sets for fixed structures), all node orders, tree factor choices, heuristics and root choices; larger models are not explored, nor is the heap limit of A* that gives up optimality by design."),
"C12": ("models, semirings and message schedules", "Every acyclic model of a bounded family (up to 3 variables with up to 3 or 4 factors of order 0 to 3 in any position, fixed trees over 4 and 5 variables, all 0/1 tables on fixed trees), in five semirings (plus log-sum), with the default, parallel, sequential (every node order), acyclic and user-driven schedules, damped and undamped, with and without normalisation; larger trees and infinite values are not explored."),
"C13": ("capacitated graphs and submodular models", "Every graph with up to two inner nodes and capacities from a small set (every edge, including into the source and out of the sink), large families over three and four inner nodes, every edge sequence up to length 4 or 5; every submodular pairwise table over five values, every third-order table over three values, all structures up to 3 factors over 4 variables and families of cycles, duplicates and overlapping third-order factors, all three Boost solvers, both construction routes, minimisation and maximisation; larger graphs and rounding effects are not explored."),
"C15": ("operation sequences", "Every sequence of two (for smaller sets of operations three or four) move-maker operations - trial, move, optimal move, optimal move with all labels changing, reset, re-initialisation, proposal by a solver - over every subset of three variables in two orders, on six model structures with orders 0 to 3, shared scopes and single-label variables, for sums and products, minimisation and maximisation; longer histories, infinite values and negative products are not explored."),
"C14": ("models, starting points and solver parameters", "Every model of a bounded family (up to 3 variables with 1 to 3 labels and up to 3 or 4 factors of order 0 to 3, all tables on short chains, rings/stars/higher-order models over 5 variables, and every graph on up to 5 or 6 vertices with exactly one improving connected subset), every starting point and subgraph size, second runs, three semirings; larger models and infinite values are not explored. The greedy search is checked against all orders of fixing variables."),
"C16": ("models, starting labelings, label orders and proposal histories", "Every model of a bounded family (up to 3 variables with 1 to 3 labels and up to 3 or 4 factors, all tables over three values that satisfy the moves' conditions, cycles over 4 variables), every start and label order, minimisation and maximisation, repeated runs; for fusion every pair of labelings to fuse on models with factors of order 0 to 3, every history of up to three proposals, and every built-in proposal generator with every combination of the first random draws. Models with different label counts, the external QPBO, CPLEX and AD3 fusion solvers and larger models are not explored."),
"C18": ("binary models and 2-SAT formulas", "Every table over small value sets on a pair, a chain, a triangle and parallel terms, all structures with up to 4 variables and 4 factors of order 0 to 2, cycles with chords, for double, float and integer models and the three Boost minimum-cut solvers; every 2-SAT formula over up to 3 variables and all with up to 4 constrained pairs over 4 variables, every sequence of up to 4 to 6 clauses; larger models are not explored, and the external QPBO library is not available."),
"C19": ("every small transportation problem solved by the network simplex and by enumerating every integral plan; histories of one solver; histories of its sparse table", "all cost matrices over small value sets up to 3x3, patterned costs up to 6x6, all balanced marginals with up to 7 units, double and float, minimiser and maximiser"),
"C21": ("models, fixed variables and uses of one manipulator", "Every small structure (up to 3 variables, up to 3 or 4 factors of order 0 to 3), every tree over 4 or 5 variables with one further edge, cycles with attachments of order two and three; every choice of fixed variables and labels, both modes, detours before locking, building in either order, unlocking and using again; every labeling of the reduced model and of its parts compared with the original, for eliminated tentacles with the best completion; sums and products, minimisation and maximisation. Nothing is claimed for larger models."),
"C22": ("factor graphs and decompositions", "Every factor graph with up to 3 variables and 4 factors of order 0 to 3 (thorough: 4 variables), every set of pairs over 4 (5) variables with unary and constant factors, every choice of one or two inner sets for blocks and fans, every number of blocks and fan sizes, every assignment of factors to two or three manual sub-models in any order; the mapping is checked element by element and the sub-models are added up over every labeling. Nothing is claimed for larger graphs."),
"C23": ("constraints, labelings, fractional points and edit sequences", "Every sequence of two or three edits of indicator variables and linear constraints; order laws on all pairs and triples of indicator variables with up to 2 or 3 literals; constraint functions with one or two constraints from a pool of formulas, all comparison operators and bounds from a small set, copies, serialised copies and uses inside a model, at every labeling and every point of a grid, with all tolerances; label orders with all weights from a set for up to 3x3 labels, label limits, label costs and sum constraints for up to 4 variables and 4 labels. Floating-point borderline cases of the comparison with the bound are not explored."),
"C24": ("weights, features and histories of weight updates", "Learnable Potts functions with up to 3 weights and 3 labels, unaries with every assignment of up to 4 weights to up to 3 labels or shared features, sums of up to 2 feature tables of dimension 1 to 3, every history of up to two updates (single weights, whole vector, another vector), directly, as a copy, deserialised into a fresh or used function and inside a model; regularisers and constraint histories of length 3. Longer histories are not explored."),
"C28": ("operation sequences and models over each kind of space", "Every sequence of two to four constructions, assignments, dense assignments, additions, copies and restores for the general, simple, static and grid space, over lists of up to 3 label counts (1, 2, 3, 300) and four index/label type combinations; views over such spaces; every model with up to 3 or 4 variables and 2 factors built over each kind, grown, copied and cleared, including label counts beyond the range of the index type; longer histories are not explored."),
"C08": ("view chains, operand layouts and array histories", "Every short chain of view operations over every shape up to the stated volume (1 to 4 dimensions, further shapes up to 12), every pair of eight memory layouts for each element-wise operation and expression, overlapping or not, and every history of two (three) operations on arrays, vectors and matrices, in release and debug configuration with address sanitiser; larger shapes and element types with non-trivial copies are not explored."),
"C09": ("shapes, hyper-slabs and element types", "Every shape up to 3 (4 or 5) dimensions and a small volume in both coordinate orders, every hyper-slab read and write, arrays, views and vectors, into and out of groups, for thirteen combinations of element type and operation; larger arrays and other storage layouts of HDF5 are not explored."),
"C07": ("models, write histories and failing calls", "Every model with up to 3 variables and 1 or 2 factors over eight kinds of function, saved and loaded into fresh, filled, differently typed and too narrow models, also across value types; every short parameter list of each serialisable function; for four models every stopping point of the recorded write sequence (every byte in the thorough run, a grid of bytes in the quick one), every length to which the file can be cut, and every write, truncate and read call failing once, from then on, partially or interrupted; bit damage in the middle of a file is not detectable in the format (no checksums) and not claimed."),
"C26": ("answers of the random source", "Every sequence of answers of the C random generator over the two ends of its range (with all remainders modulo 2 and 3) for up to three sampling steps on models with 1 to 3 variables, all start points, proposal orders, burn-in lengths and stopping visitors; exact transition probabilities of one step for two-variable models whose probabilities are multiples of the grid; models without variables and longer chains are not explored."),
"C27": ("shapes, sequences, iterator histories and truth assignments", "Every history of up to three (four) iterator operations over vectors with up to 4 (5) elements, over shapes, variables and labels of every factor over up to 4 variables and over index-selected subsequences; every shape up to 3 or 4 (5) dimensions with up to 3 (4) labels with every choice and order of fixed coordinates; every key sequence up to length 5 (6); all partitions of sets with up to 5 (7) elements asked in every order of two sets; every history of up to two (three) three-valued operations. Nothing is claimed for arguments outside the documented ranges (past-the-end reads, unsorted input of the sorted search, unsorted variables in the combined walkers)."),
"C20": ("LPReparametrisationStorage / LPReparametrizer / TRWS_Reparametrizer / CanonicalView / PrimalLPBound", "The real classes on every small model of the bounds (up to 4-6 variables for the tree-reweighted reparametriser), every message vector over a 2-3 value set (all slots), every mask and every set of immovable labels; all labelings evaluated against plain tables; primal bound: every history of 2-4 updates and queries, pairwise optimum by enumerating all integral transport plans. Bounds: labels 1-3, dyadic values, decompositions GENERAL/EDGE/GRID."),
"C25": ("histories of solver objects", "All histories of up to two calls (run, stopped run, reset, starting points) followed by each of five kinds of last run, for 17 solver configurations on all models of families with one to three variables, compared with fresh solvers; all histories of up to five visits with logs for the timing visitor; all settings of small ranges. Longer histories, larger models and the sampling solvers (C26) are outside."),
"C17": ("runs of the relaxation-based solvers", "All models of families with unary factors everywhere and pairwise factors over one to four variables (all value tables for a pair; chains, trees, triangles with attractive and repulsive edges, grids, Potts models, models with a constant, a third-order, a duplicate or a missing factor), every decomposition, iteration count and computation option for TRW-S; option combinations with up to two deviations (smoothing strategy, start value, iteration counts, step rule, lazy evaluation, normalisation) for adaptive diminishing smoothing and Nesterov's method; every decomposition, step rule and iteration count for sub-gradient dual decomposition, in both storage forms. A visitor checks bound, value and labeling against enumeration at every visited stage, the monotonicity of the bound of TRW-S and dual decomposition, agreement of the trees, closing of the gap on acyclic models, normalised marginals; a fourth binary repeats runs with the library's assertions enabled."),
"C29": ("models, text files, and command lines", "Every small model of the families (up to 3 variables with 1 to 3 labels and mixed factor kinds, fixed 5-variable shapes) and every small text file of each supported format, through the real converter programs (their main functions are called in forked processes); the command line program (built with Boost and HDF5, so without the solvers of missing third-party libraries) with its algorithms, four combinations of output options and short and long option names, on every model of small families. matching2opengm is covered for assignments that match each left point to at most one right point listed in order; opengm1TOopengm2 does not compile in this tree and is not covered; models with larger files are not explored."),
}
NA = {}
