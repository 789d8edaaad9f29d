HEAD = """# Model checking OpenGM

OpenGM 2 is a header-only C++ library: discrete graphical models (variables, functions, factors), multi-dimensional
arrays, HDF5 storage, and some thirty inference algorithms. Almost everything a user relies on is a statement about *every*
model, labeling, history of calls or failing write, while the tests sample a handful. The library is sequential, so the
dimension to explore exhaustively is not thread interleavings but **operation histories, input structures, the answers of
the environment (random source, visitors, file system) and crash points**.

## Method

Every property is decided by **stateless model checking of the implementation itself**. A harness (`harness/cNN_*.cxx`)
is a program over a *choice context* `c`; each call `c.choose(n)` is a non-deterministic branch. The explorer (`mc/mc.hxx`,
`mc/mc_main.cxx`) runs the harness again and again, depth-first, until **every** branch of every choice point has been
taken (backtracking by re-execution; eight forked workers share the tree; the check holds only when every worker has exhausted
its part). There is no sampling, no
random seed and no solver. What is explored in one path:

1. the *choices*: structure of a model, tables, parameters, order of operations, answers of the random source, the step
   at which a visitor asks to stop, the byte at which a write sequence is cut, the call that fails;
2. the same operations on the **real code** (compiled from `/repo/include` at the time of the check) and on a **reference
   model** (plain vectors, brute force over all labelings, `std::set`, dense tables - `harness/gm.hxx`, `models.hxx`);
3. after every step the two are compared (`c.check/eq/near`); a difference is a violation with the choice sequence as a
   replay file (`python3 check.py CNN --replay FILE` prints the trace of that one path).

The reference model is bound to the code by construction: both are driven by the same choices in the same process
and compared after each transition, so there is no separate model whose traces would have to be validated. Evidence counts
*states* (distinct hashed inputs or histories, `c.state`), *transitions* (choice branches taken), *paths* (complete
executions of the implementation) and *comparisons*, plus the number of distinct outcomes, which shows that a
scenario is not vacuous. Symmetric or irrelevant branches are cut with `c.prune()` before
the implementation runs.

A crash, a failed assertion, an unexpected exception, an address sanitiser report, a hang (the parent watches the progress
of every worker) or an exhausted memory limit inside a path is a violation of that path as well: the current path is kept in
shared memory, so the parent knows the choices of a worker that died, and confirms it in a fresh process.
`check.py` compiles each harness with the flags on its first line (`-DNDEBUG -O1` unless stated, ASAN/GLIBCXX
assertions/OPENGM_DEBUG for the array, container and file harnesses) into a fresh directory below `/tmp`, removes it
afterwards, and writes `evidence/CNN.json`. If a harness no longer compiles against the tree the check exits with 2 and
says so: no verdict is invented.

Quick and thorough runs differ only in the bounds (`c.tier(quick, thorough)`), never in the kind of check.

Why not the other members of the family: there is no concurrency to schedule in the parts that compile here, SPIN/TLA+
models of table arithmetic would only restate the reference models and would need the conformance run that *is* the check
here; CBMC is a solver over symbolically executed source, which the task excludes.

### Faults and crash points

C07 interposes `write`, `pwrite`, `ftruncate`, `pread` in the harness process (link-time wrapping, only for files in a
scratch directory the harness creates), records the write sequence of a save, and rebuilds the file as it is after every
prefix (whole calls and, inside calls, every byte or a grid of bytes), after each possible truncation, and with every
single call failing once, for good, partially, or being interrupted. The loader runs on each of them in the forked worker.
C26 replaces `rand()`: the answer becomes a choice.

### Soundness of alarms

Only public interfaces are used and only documented behaviour is compared (values with a relative tolerance, sets where no
order is promised, the best value instead of one labeling when there are ties), so refactorings do not alarm. Inputs that
the documentation excludes are not generated. The bounds of each property say what is excluded.

### What cannot be compiled here

CPLEX, Gurobi, the external QPBO/MPLP/TRWS/libDAI/AD3/Vigra libraries are not installed; code that needs them
(`lpcplex`, `multicut`, `mqpbo`, `hqpbo`, `cgc`, `intersection_based_inf`, the external wrappers) is not claimed. The classes behind
them that do compile (constraint functions with their LP view C23, reparametrisation C20, fusion movers C16, QPBO on Boost
cuts C18) are.

"""
ORACLE = {
"C01": "plain lists of label counts, tables and scopes; value by direct combination of table entries", "C02": "definitions on an adjacency matrix (union-find, depth-first search, permutation search for chains)", "C03": "the closed formula of each function type", "C04": "brute force over the table in first-coordinate-major order; the definition of each predicate on the table", "C05": "the underlying table with index arithmetic written out", "C06": "pointwise arithmetic on dense tables", "C07": "the model that was saved, compared value by value; for damaged files: error or the same model", "C08": "a dense array with coordinate arithmetic written out; guard elements around it", "C09": "the dense array; the number of open HDF5 handles", "C10": "std::set, std::vector, std::map, std::deque, union-find by relabelling; live element counters", "C11": "brute force over all labelings", "C12": "brute force optimum and (max-)marginals in each semiring; results of the other schedules", "C13": "all 2^n cuts, all labelings", "C14": "all starting points and all moves of the claimed neighbourhood from the result", "C15": "the labeling kept by the harness and its brute-force value", "C16": "all expansion (swap) moves from the result; all fusions of two labelings", "C17": "brute-force optimum; value of the labeling; bounds at every visited stage", "C18": "all optimal labelings; all truth assignments", "C19": "all integral transport plans (networks have integral optima)", "C20": "sum of plain tables plus the telescoping messages over all labelings", "C21": "the original model evaluated at the completed labeling", "C22": "occurrence counts and summed energies over all labelings; forest test by union-find", "C23": "evaluation of the formula; for LP costs enumeration of the vertices", "C24": "the sum of weight times gradient and the documented gradient", "C25": "a fresh solver with the same parameters and start; brute-force optimum; a list of what should have been recorded", "C26": "the trajectory recomputed with the same draws; exact transition matrix of one step", "C27": "plain loops in the promised order; permutations; truth tables", "C28": "a vector of label counts", "C29": "the model evaluated at every labeling, the UAI file read by an independent reader",
}
CORRECTIONS = """
## Corrections made to properties or harnesses (false alarms)

These were raised by a check on the unchanged tree and turned out to be the check's or the property's fault.

* C04: `isGeneralizedPotts` and the like are conservative for tables above order four; the property claims exactness up to there.
* C07: bit damage in the middle of a file is not detectable (the format has no checksums) and is no longer claimed.
* C09: arrays without dimensions cannot be stored; at least one dimension is required.
* C12: damping with infinite values is undefined; values are finite. Products use positive values.
* C16: expansion moves need equal label counts and the move's (sub- or supermodularity) condition for optimality.
* C19: the solver normalises marginals; the property says so.
* C20: the sum of local optima of the reparametrised model is at least as tight as the bound of the decomposition, not equal to
  it, when sub-models share variables; grid decompositions need the documented order of factors.
* C21: equivalence is for the mode that keeps fixed factors; the other drops them by design.
* C25: with several labelings asked for, A*'s bound is about the last of them; after a stop request A* shows one further
  step; infer-and-flip with sub-graph size zero does not use a starting point; proposal generators go on where they were.
* C26: Swendsen-Wang keeps the best among the initial and the accepted labelings after burn-in; models without variables are excluded.
* C27: subsequence iterators are about the selected elements; `Tribool &=` is a refinement, not a conjunction; sorted-search helpers
  need sorted input.

## Genuine defects

`known_findings.txt` lists every defect found by these checks; all recorded ones were repaired by one small `fix:` commit each, and the
check that found it passes on the repaired tree and reports it again when the commit is reverted. Nothing is currently
recorded as unrepaired.

Seen while reading, outside the claimed properties and left alone: `SAT` has no value before a run; `UpDownGen` copies inside
its loop; `DynamicGen` never initialises its generators; `high_level_fusion_mover.hxx` and several typedefs of external wrappers do
not compile; `RandomAccessSet::rbegin` and hinted insertion do not compile; `ViewConvertFunction` only compiles for equal
value types; `test_discretespaces` runs none of its tests; saving an empty vector to HDF5 fails.
"""
