"""Writes properties.jsonl (kept as a script so that the file stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

QC = ["qmat/qcoeff/__init__.py", "qmat/qcoeff/collocation.py", "qmat/qcoeff/butcher.py"]
QD = ["qmat/qdelta/__init__.py", "qmat/qdelta/algebraic.py", "qmat/qdelta/diag.py", "qmat/qdelta/timestepping.py"]
LG = ["qmat/lagrange.py"]

prop("C01", "Q-coefficients never depend on call history or on what callers did",
  "For a given method and parameters (any registered Q-generator, name or alias, padding, node distribution, interval, form, optional h and embedded weights), every call at every point of a process' life returns the coefficients that the method defines, equal to what the first call in a fresh process returns. Nothing callers did before - other calls, other objects, failed calls, overwriting arrays that calls returned - changes any later result on the same object or on another; overwriting arrays read as attributes of an object affects at most that object.",
  ["histories", "inputs"],
  "all finite sequences of public Q-coefficient calls on any mix of generator objects, interleaved with callers scribbling on returned arrays and with calls that fail",
  "Each test builds a fresh object, calls it once and never writes to what it got back; nothing calls two generators in a row and compares, so state shared through class attributes, caches or aliased arrays is unobservable to them.",
  QC + LG + ["qmat/nodes.py"],
  [("genCoeffs/genQCoeffs assemble the result list", "qmat/qcoeff/__init__.py"), ("Collocation computes from nodes at construction", "qmat/qcoeff/collocation.py"), ("RK tables live on classes, padding on instances", "qmat/qcoeff/butcher.py")],
  [("A, b, c, b2", "Butcher tables, class-level arrays", "qmat/qcoeff/butcher.py"), ("_nodes, _Q, _weights, approx", "per-object coefficients", "qmat/qcoeff/collocation.py")],
  ["genQCoeffs", "QGenerator.genCoeffs / nodes / weights / Q / S / hCoeffs / weightsEmbedded / solveDahlquist"])

prop("C02", "QDelta memoisation is invisible for every sequence of calls",
  "For every registered QDelta type, the matrix (Z2N or N2N), the stack over any list of iterations, and the dTau vector returned for given parameters and iteration k are those the approximation defines for that k, whatever was asked before: any order and repetition of k, single or list queries, any form, with or without copies, on one object or through genQDeltaCoeffs (single, repeated or mixed types), and whatever the caller wrote into results handed out as its own. A rejected call (bad k, bad form, bad type, bad size) raises and leaves later answers unchanged.",
  ["histories", "inputs"],
  "all finite call sequences on all QDelta generator objects and genQDeltaCoeffs, with rejected calls and caller writes into returned arrays in between",
  "Tests ask each fresh generator for a matrix once or twice; the cache is per object and per k, so its errors need particular sequences (k past the size and back, N2N then Z2N, a failure in between, a caller writing to a result).",
  QD, [("getQDelta caches per object, per k when k-dependent", "qmat/qdelta/__init__.py"), ("MIN-SR-FLEX keeps a second cache", "qmat/qdelta/diag.py"), ("genCoeffs stacks cached matrices", "qmat/qdelta/__init__.py")],
  [("_QDelta", "memo, dict for k-dependent types", "qmat/qdelta/__init__.py"), ("_QDelta_MIN_SR_S", "memo of the k>M branch", "qmat/qdelta/diag.py")],
  ["QDeltaGenerator.getQDelta / getSDelta / genCoeffs / dTau", "genQDeltaCoeffs"])

prop("C03", "Concurrent callers get exactly the serial results",
  "When several threads use qmat at once - distinct objects, or sharing generator, approximation and registry objects - under any interleaving, every call returns what it would return alone, raises only what it would raise alone, and no call blocks forever. Objects shared between the threads still give right answers after all threads are done.",
  ["schedules", "inputs"],
  "all interleavings (at source-line and bytecode granularity inside qmat) of up to four threads issuing public calls on shared and private objects",
  "The test suite is single threaded; the schedules that matter (a switch inside a lazy cache fill or between a check and a write) are not reachable by it at all.",
  QC + QD + LG + ["qmat/utils/sdc.py", "qmat/utils/__init__.py"],
  [("lazy caches filled without locks must be benign races", "qmat/qdelta/__init__.py"), ("no mutable module-level scratch", "qmat/lagrange.py")],
  [("_QDelta", "shared lazy cache", "qmat/qdelta/__init__.py"), ("RK class tables", "shared by all instances", "qmat/qcoeff/butcher.py")],
  ["all public calls"])

prop("C04", "A call that is interrupted or fails leaves everything usable",
  "If a call is cut short at any point by an interrupt, an allocation failure or a failing linear-algebra kernel, it either raises or still returns the right answer. Every later call, on the same objects (shared or not, other threads included) and on new ones, returns exactly what it would have returned had the failed call never been made.",
  ["crash_points", "fault_sequences", "histories"],
  "all points inside qmat code at which KeyboardInterrupt, MemoryError, or an error from a numpy/scipy routine can surface, for all public calls and later call sequences, single- and multi-threaded",
  "No test interrupts a call; half-filled caches and half-updated objects only exist between two lines of a call that never finished.",
  QC + QD + LG + ["qmat/utils/sdc.py", "qmat/utils/num.py"],
  [("results are stored in caches only when complete", "qmat/qdelta/__init__.py"), ("objects are published only after construction", "qmat/qcoeff/collocation.py")],
  [("_QDelta / _QDelta_MIN_SR_S", "caches that must never hold partial matrices", "qmat/qdelta")],
  ["all public calls following a failed one"])

prop("C05", "Registries stay consistent through failed and concurrent registration",
  "Every name or alias in the Q, QDelta and RK registries refers to exactly one class, and a registration either makes the class reachable under its name and all aliases in every registry concerned, or is refused with an exception and changes no registry at all (name or alias clash, invalid class, failing constructor). This holds when classes are registered from several threads while others look up, list (each class exactly once) or instantiate, and an interrupted registration never redirects a name that was already taken.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences and interleavings of valid and invalid registrations, lookups and listings, with faults inside registration",
  "Tests register a handful of bad classes one after another and only look at the exception, never at the registry afterwards; clash with an alias after the name was stored, or a listing during a registration, are not exercised.",
  ["qmat/utils/__init__.py", "qmat/qcoeff/__init__.py", "qmat/qdelta/__init__.py", "qmat/qcoeff/butcher.py", "qmat/qdelta/diag.py"],
  [("storeClass/storeAlias check and store names", "qmat/utils/__init__.py"), ("register, registerRK, registerTable", "qmat/qcoeff, qmat/qdelta")],
  [("Q_GENERATORS, QDELTA_GENERATORS, RK_SCHEMES", "the registries", "qmat/qcoeff, qmat/qdelta")],
  ["registry contents", "genQCoeffs / genQDeltaCoeffs by name", "getClasses"])

prop("C06", "Caller-owned data is never modified and never retained",
  "No public function or method modifies an array, list or dict passed to it, whether it returns or raises at any point. Once a call or constructor has returned, the caller may overwrite the data it passed without changing anything qmat computes afterwards, and may overwrite results without changing the data it passed.",
  ["histories", "fault_sequences", "inputs"],
  "all public calls taking arrays, lists or dicts (views, non-contiguous, integer and read-only ones included), all later caller writes, and faults at any point of the call",
  "Tests pass temporaries and never look at them again; aliasing shows only when the caller writes at a particular moment between two calls, and an input modified and restored shows only when the call is cut short in between.",
  LG + QD + ["qmat/utils/num.py", "qmat/utils/sdc.py"],
  [("np.asarray of inputs", "qmat/lagrange.py, qmat/qdelta/__init__.py"), ("sweep-list completion", "qmat/qdelta/__init__.py")],
  [("points/fValues/Q/nodes attributes", "data taken from callers", "qmat/lagrange.py, qmat/qdelta")],
  ["arguments after the call", "results after a caller write"])

prop("C07", "No ambient process state is leaked, and results do not depend on it",
  "After any set of calls, concurrent or interrupted at any point, the process-wide and thread-wide settings a host application owns (floating-point error state, warning filters, random generator states, print options, environment, working directory, standard streams, recursion and trace settings, locale, registered exit hooks) are what they were before. Results do not depend on those settings either: under any floating-point error mode, warning filter or random state the same values are returned, or the call raises the error that the mode asks for.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings and fault points of public calls, under all sampled ambient configurations",
  "Tests run under one ambient configuration and never compare it before and after; a leak through overlapping save/restore pairs needs two threads to interleave inside the same block.",
  LG + ["qmat/qdelta/diag.py", "qmat/utils/__init__.py"],
  [("np.errstate blocks", "qmat/lagrange.py"), ("warning suppression around the nonlinear solve", "qmat/qdelta/diag.py")],
  [("warnings.filters", "process-wide filter list", "qmat/qdelta/diag.py")],
  ["ambient state snapshot", "results"])

prop("C08", "Timer reports real elapsed time under any clock behaviour",
  "The wall time a Timer reports (attribute and printed line) is the real time elapsed between its last start and its last stop divided by its scale, never negative and never affected by adjustments of the system's civil clock, for any nesting, reuse or threading of timers and whether used as a context manager or by explicit calls. Exceptions raised in the timed block or by the output stream propagate unchanged, the time is still recorded when the block fails, and the timer remains usable.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of timer operations, elapsed times and civil-clock jumps, forwards and backwards, slow or failing standard output, block exceptions",
  "The only timer test sleeps for a moment on a well-behaved clock; a clock set back during the block, a failing stream or a reused timer cannot be produced there.",
  ["qmat/utils/__init__.py"], [("Timer.start/stop", "qmat/utils/__init__.py")],
  [("tStart, tWall", "timer readings", "qmat/utils/__init__.py")], ["Timer.tWall", "printed lines"])

prop("C09", "Importing qmat gives the complete API, in any order and after failed imports",
  "Whatever qmat module is imported first and in whatever order, from one or several entry points, by one or several threads importing qmat, under any hash seed and any order of directory listings, the same complete registries, names and aliases and the same results are available afterwards. An import that is interrupted or hits an I/O error at any point raises, and a later retry in the same process gives the same complete API as a clean import.",
  ["crash_points", "fault_sequences", "schedules", "configurations"],
  "all import orders of the package's modules, all points at which an import can be interrupted or a source read can fail, any number of failed attempts before the retry",
  "pytest imports each module once, in one order, without failures.",
  ["qmat/__init__.py", "qmat/utils/__init__.py", "qmat/qcoeff/__init__.py", "qmat/qdelta/__init__.py"],
  [("importAll imports all submodules when the sub-package loads", "qmat/utils/__init__.py"), ("registration decorators run at import", "qmat/qcoeff, qmat/qdelta")],
  [("sys.modules / registries", "what survives a failed import", "qmat/qcoeff/__init__.py, qmat/qdelta/__init__.py")],
  ["registry contents after import", "results of reference calls"])

prop("C10", "Time integration can be cut anywhere and resumed without a trace",
  "For Runge-Kutta/collocation and SDC integration of the test equation, integrating to the end in one call, or in any number of segments each resumed in a fresh process from the last value of the previous one, gives the same sequence of values, equal to repeated application of the method's one-step map; the error functions report the maximum deviation of exactly these values from the exact solution. This holds after crashes at any point of a segment, since a segment redone from its checkpoint gives the same values.",
  ["crash_points", "histories", "inputs"],
  "all partitions of an integration into segments, crash points within segments, methods, QDelta types, sweeps, step counts and problem parameters",
  "Tests compare errors of single uninterrupted runs at three step counts with a convergence order; an error that appears at a particular step, or state carried from an earlier integration, stays far below what an order fit can see.",
  ["qmat/qcoeff/__init__.py", "qmat/utils/sdc.py"],
  [("solveDahlquist step loop", "qmat/qcoeff/__init__.py"), ("solveDahlquistSDC step and sweep loops", "qmat/utils/sdc.py")],
  [("uNum", "trajectory, the durable state is its last value", "qmat/utils/sdc.py")],
  ["solveDahlquist", "solveDahlquistSDC", "errorDahlquist", "errorDahlquistSDC"])

prop("C11", "SDC sweeps confine transient solver faults; monitors tell the truth",
  "When the linear solver returns a transiently corrupted result during one sweep, only that iterate is hit: every other sweep and step satisfies the sweep equation exactly from the iterate before it, so the perturbation contracts as the scheme predicts, and a solver that raises makes the call raise. The residuals and errors monitors describe the iterates actually computed, with or without faults, monitoring never changes the solution, and the caller's monitors and matrices are left alone.",
  ["fault_sequences", "inputs"],
  "all sets of solver calls hit by corruption (scaling, additive, zero, sign, stale result) or exceptions, all QDelta stacks, step counts, sweeps and monitor selections",
  "Tests never make the solver fail and never use both monitors together with a corrupted iterate; without a fault a wrong iterate history and a right one can end in the same value.",
  ["qmat/utils/sdc.py"], [("sweep loop: b from the last iterate, solve, monitor", "qmat/utils/sdc.py")],
  [("uNodes", "current iterate", "qmat/utils/sdc.py"), ("monitors", "recorded history", "qmat/utils/sdc.py")],
  ["solveDahlquistSDC return values"])

prop("C12", "Numerical trouble in the weights is survived, not passed on",
  "If the fast evaluation of the barycentric weights hits a floating-point trap, an overflow or an underflow - from the size or the scale of the grid, or signalled at any moment - the approximation built is the one the fault-free (stable) evaluation gives. All weight algorithms, weight scalings and quadrature rules yield the same interpolation, integration and derivative matrices, and matrices are finite on every grid where they are representable and well conditioned.",
  ["fault_sequences", "inputs"],
  "all floating-point faults signalled during weight computation, all grid sizes up to hundreds of points and grid scales from 1e-200 to 1e200, all algorithm options",
  "Tests use the default algorithm on small grids near [0,1], where the fallback is never entered, or look at the algorithms separately for a few sizes; they never trigger the trap itself.",
  LG, [("AUTO switches from FAST to STABLE upon a floating-point error", "qmat/lagrange.py")],
  [("weights", "barycentric weights", "qmat/lagrange.py")],
  ["getInterpolationMatrix / getIntegrationMatrix / getDerivativeMatrix"])

prop("C13", "Queries are independent of batching, order and repetition",
  "A row of an interpolation, integration or sparse interpolation matrix, and a slice of a QDelta stack, depends only on its own time, interval, output point or iteration: splitting a request in batches, reordering it, duplicating entries, delivering batches from several threads or repeating a batch after a failure gives the same rows. Evaluating an approximation as a function equals applying its interpolation matrix, point by point and for any shape of the input.",
  ["schedules", "histories", "inputs"],
  "all partitions, permutations and duplications of query sets on shared objects, all interleavings of their delivery",
  "Tests ask whole regular grids in one call and compare with polynomials; a row reused from its neighbour, or dependent on the rest of the batch, only shows for particular orders or nearly equal neighbours.",
  LG + ["qmat/qdelta/__init__.py"],
  [("row reuse in getSparseInterpolationMatrix", "qmat/lagrange.py"), ("vectorised matrix assembly", "qmat/lagrange.py")],
  [("lastInterpolationLine", "row carried over between output points", "qmat/lagrange.py")],
  ["matrix rows, call results"])

prop("C14", "Objects survive being saved and restored at any point of their life",
  "A generator or approximation object pickled, copied or deep-copied at any moment - before first use, between uses, after a failed or interrupted call - and restored, in the same process or in a fresh one where only the bytes survived, answers every later query exactly as the original and as a newly built object do. Original and copies are independent: using or overwriting results of one does not influence the other.",
  ["crash_points", "histories"],
  "all prefixes of call histories after which an object is saved, all restore places, all later queries",
  "No test pickles or copies anything; objects hold caches, bound methods and class-level tables, each of which can be lost or shared in a restore.",
  QC + QD + LG, [("plain attributes only, caches lazily rebuilt", "qmat/qdelta/__init__.py"), ("_handleDuplicates bound on instances", "qmat/lagrange.py")],
  [("instance attributes", "what is saved", "qmat/qcoeff, qmat/qdelta, qmat/lagrange.py")],
  ["queries on restored objects"])

prop("C15", "Interrupts and exits leave every call as they are",
  "When KeyboardInterrupt (Ctrl-C) or SystemExit is raised inside a public call - construction, coefficients, matrices, solves, registration, lookups, refused calls included - the call ends with that very exception: it is neither swallowed, with the call going on or returning something, nor turned into another error. Only third-party solvers that handle such an exception themselves are exempt while they run.",
  ["crash_points", "inputs", "schedules"],
  "all points inside qmat code where an interrupt or exit can surface, in all public calls on valid and invalid arguments, single- and multi-threaded",
  "No test interrupts a call; a broad exception handler is invisible unless the exception arrives between two particular lines.",
  QC + QD + LG + ["qmat/utils/__init__.py", "qmat/utils/sdc.py", "qmat/nodes.py"],
  [("exception handlers name what they handle", "qmat/qdelta/diag.py"), ("registration checks classes by instantiating them", "qmat/qcoeff/__init__.py")],
  [("current exception", "what the caller sees", "all public calls")],
  ["outcome of the interrupted call"])

prop("C16", "A process forked at any moment can use qmat like any other",
  "A process may be forked at any moment - while other threads are anywhere inside calls or registrations, after failed or interrupted calls, several times. In the child every public call, registration and listing, on inherited and on new objects, returns the right result and never waits for something that only exists in the parent; the parent is not affected.",
  ["schedules", "histories", "fault_sequences"],
  "all moments at which one of up to four threads forks, all later calls in the child and in the parent",
  "No test forks; a lock, a half-filled cache or a buffer in use is inherited only if another thread is inside a particular few lines at the moment of the fork.",
  QC + QD + LG + ["qmat/utils/__init__.py"],
  [("registry lock is held around forks", "qmat/utils/__init__.py"), ("caches are filled without locks", "qmat/qdelta/__init__.py")],
  [("registryLock", "inherited by the child", "qmat/utils/__init__.py"), ("registries and caches", "inherited as they are", "qmat/qcoeff, qmat/qdelta")],
  ["all public calls in child and parent"])

prop("C17", "Calls made in the middle of other calls of the same thread are right",
  "Signal handlers, finalisers and callbacks can run between any two steps of a public call and call qmat themselves, on the same objects or on others, also when they register classes. The inner calls return what they would return alone, the outer call then returns what it would have returned undisturbed, and neither waits for the other.",
  ["schedules", "histories"],
  "all positions inside public calls at which other public calls of the same thread are made, nested to any depth, all later queries",
  "No test re-enters the package; scratch buffers, iteration state and non-reentrant locks only fail if a second call starts in the middle of the first.",
  QC + QD + LG + ["qmat/utils/__init__.py", "qmat/utils/sdc.py"],
  [("no module-level scratch memory", "qmat/lagrange.py"), ("reentrant registry lock", "qmat/utils/__init__.py"), ("lazy caches recomputed harmlessly", "qmat/qdelta/__init__.py")],
  [("_QDelta", "lazy cache filled by the inner call", "qmat/qdelta/__init__.py")],
  ["results of inner and outer calls"])

prop("C18", "Memory kept does not grow with the number of calls",
  "However many public calls a process makes - with the same or ever new parameters, succeeding, refused, failing or interrupted, from ever new threads - the memory still held after its own objects are dropped stays bounded. Growing are only what callers ask for: registered classes, and one matrix per iteration number on a living object whose approximation depends on the iteration.",
  ["histories", "fault_sequences"],
  "all cyclic programs of public calls and faults, repeated any number of times",
  "Tests look at results of single calls; an entry left behind per call, per parameter, per failure or per thread takes thousands of calls to matter.",
  QC + QD + LG + ["qmat/utils/sdc.py", "qmat/utils/num.py", "qmat/nodes.py"],
  [("caches live on instances", "qmat/qdelta/__init__.py"), ("results of calls are owned by callers", "qmat/qcoeff/__init__.py")],
  [("process memory", "objects and bytes alive between repetitions", "all modules")],
  ["memory after repetitions of a program of calls"])

def na(id, title, statement, files, where, why):
    prop(id, title, statement, ["inputs"], "all admissible inputs", why, files, [("computation", where)])
na("N01", "Collocation methods are exact and have their stated order",
   "For every node distribution, quadrature type and interval, the Q matrix and weights integrate polynomials up to degree M-1 exactly, and the method has the order its order property states.",
   ["qmat/qcoeff/collocation.py", "qmat/lagrange.py"], "qmat/qcoeff/collocation.py", "Tests sample sizes and random polynomials; the claim is over all sizes and distributions.")
na("N02", "Butcher tables satisfy the order conditions they state",
   "Every registered Runge-Kutta method, padded or not, satisfies all order conditions up to its stated order, and its embedded weights up to the embedded order.",
   ["qmat/qcoeff/butcher.py"], "qmat/qcoeff/butcher.py", "Tests fit convergence slopes on one linear problem; nonlinear order conditions are not visible there.")
na("N03", "Nodes are the requested quadrature points",
   "For every type and quadrature type, the nodes are sorted, distinct, in [-1,1], contain exactly the required boundaries, and are the zeros of the (modified) orthogonal polynomial.",
   ["qmat/nodes.py"], "qmat/nodes.py", "Tests sample a few sizes.")
na("N04", "Lagrange matrices are exact on polynomials for arbitrary point sets",
   "For any distinct points, interpolation, integration and derivative matrices are exact for polynomials of degree below the number of points.",
   ["qmat/lagrange.py"], "qmat/lagrange.py", "Tests sample random points.")
na("N05", "MIN-SR coefficients make the iteration matrices nilpotent",
   "MIN-SR-NS, MIN-SR-S and MIN-SR-FLEX coefficients make the non-stiff limit, the stiff limit, or the product of stiff-limit iteration matrices nilpotent.",
   ["qmat/qdelta/diag.py"], "qmat/qdelta/diag.py", "Tests cover few node counts.")
na("N06", "The expected SDC order is what a convergence test measures",
   "getOrderSDC gives the convergence order SDC actually has for every node set, QDelta type, sweep count and step update.",
   ["qmat/utils/sdc.py"], "qmat/utils/sdc.py", "The table of special cases was fitted to a finite grid of configurations.")
na("N07", "Numerical utilities compute what they state",
   "LDU factors multiply back to the matrix, extrapolation matrices are exact on polynomials, numericalOrder returns the regression slope, sparse interpolation is exact to its order, also on periodic grids.",
   ["qmat/utils/num.py", "qmat/lagrange.py"], "qmat/utils/num.py", "Tests sample a few inputs.")
na("N08", "Invalid arguments are rejected",
   "Unknown names, forms, types, quadrature rules, inconsistent shapes and out-of-range sizes are refused with an exception and never give a result.",
   ["qmat/qcoeff/__init__.py", "qmat/qdelta/__init__.py", "qmat/nodes.py", "qmat/lagrange.py"], "argument checks", "Tests sample a few bad values per function.")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
