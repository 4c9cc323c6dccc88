"""Writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": ("seeded call histories with caller writes, refused and interrupted calls; oracle: independent model of every method",
         "Seeded search over histories; expected coefficients come from textbook formulas and from the Butcher tables as imported, so a wrong table entry is not seen here."),
 "C02": ("seeded query histories on QDelta objects with refused and interrupted calls; oracle: closed forms, or first answers of fresh processes",
         "Seeded search over query sequences; types without a closed form (MIN, MIN3, VDHS, MIN-SR-S, late MIN-SR-FLEX) are compared with what a fresh process computes."),
 "C03": ("seeded scheduler over real threads with line or bytecode preemption, simulated locks; oracle: serial results of independent models",
         "Samples interleavings at line (65 %) or bytecode (35 %) granularity inside qmat; numpy and scipy kernels are atomic."),
 "C04": ("seeded faults (interrupt, allocation failure, failing kernels) at any line of any call, then re-queries; oracle: fault-free models",
         "Samples fault points; asynchronous faults are not placed inside with/finally headers, where no Python code can protect itself."),
 "C05": ("seeded scheduler and faults over registrations, lookups and listings; oracle: reference registry and per-name linear history",
         "Samples schedules and fault points over registrations of generated classes."),
 "C06": ("seeded histories with snapshots of every argument, caller writes to arguments and results, faults inside calls",
         "Samples calls of all public entry points with several memory layouts of arguments."),
 "C07": ("seeded histories, schedules and faults under random host settings; oracle: snapshot of the process state before and after, models for values",
         "The snapshot covers the settings listed in the property; others are not watched."),
 "C08": ("simulated clocks (civil, monotonic, processor), stalling and failing output, seeded schedules; oracle: true simulated time",
         "Time passes only where the simulation lets it; a timer that reads a clock outside the time and timeit modules is not controlled."),
 "C09": ("simulated imports in processes without qmat: order, module locks, thread schedule, directory order, I/O errors, interrupts, retries; oracle: API of an undisturbed import and committed names",
         "Threads only import the package itself, since the module locks of CPython do not make first imports of a package and its submodules by several threads safe."),
 "C10": ("simulated workers, crashes, lost results and redone segments around a durable store; oracle: powers of the one-step map in exact-step arithmetic with rounding bounds",
         "Coefficients are taken from a fresh process; rounding tolerances grow with the condition of one step."),
 "C11": ("seam at numpy.linalg.solve returning seeded wrong answers or raising; oracle: model with the same perturbations, and the sweep equation between monitored iterates",
         "Perturbs solves of single sweeps; an implementation without such solves would only be judged fault-free."),
 "C12": ("floating-point traps signalled by the simulator at any kernel or line, and real overflow and underflow on generated grids; oracle: stable evaluation model and cross-agreement",
         "Grids up to a few thousand points; expectation limited to grids where the matrices are representable."),
 "C13": ("simulated delivery of batches: split, reordered, duplicated, lost and redone, from several threads; oracle: row-by-row model",
         "Samples batchings of the generated requests."),
 "C14": ("crash and restart: objects saved by pickle or copied at any point of a history with faults, restored here or in a fresh process; oracle: models and originals",
         "Pickle protocols 0 to 5, copy and deepcopy; only bytes survive into the fresh process."),
 "C15": ("interrupts and exits raised at any line or kernel of any public call, also from several threads; oracle: the call must end with the injected exception",
         "Samples fault points, half of them uniformly over distinct source lines; handlers of scipy are exempt."),
 "C16": ("threads fork the process at seeded moments of a simulated schedule, with faults; oracle: models and registry model in child and parent, deadlock detection on simulated locks",
         "Children are real forked processes in which only the forking thread exists, as POSIX defines it; locks of third-party libraries are not simulated."),
 "C17": ("public calls run by the simulator in the middle of other calls of the same thread, at seeded lines, nested; oracle: models for inner, outer and later calls, deadlock detection",
         "Inner calls start at lines inside qmat, not inside numpy or scipy kernels."),
 "C18": ("seeded programs of calls, failures, interrupts and threads repeated hundreds of times under simulation; oracle: growth of live objects and bytes per repetition between two late windows",
         "Growth below 0.3 objects and 40 bytes per repetition is not seen; memory held by C libraries outside the Python allocator is not counted."),
}
R = "it depends on the arguments of one call only: there is no schedule, time, I/O, failure or history for a simulation to decide; "
NA = {
 "N01": R + "it is a statement on numbers, for tests over parameters or a proof.",
 "N02": R + "the tables are constants, and the order conditions are algebra.",
 "N03": R + "it is a pure function of three arguments.",
 "N04": R + "exactness on polynomials is a numerical property of a pure function (C12 and C13 decide what depends on faults and batching).",
 "N05": R + "nilpotency is linear algebra on one matrix.",
 "N06": R + "the order table is a pure function of four arguments, compared with measured convergence.",
 "N07": R + "these are pure numerical functions (C06 and C13 decide what depends on histories).",
 "N08": R + "argument checking is a pure function of the arguments (C02, C04 and C05 decide that refused calls leave no trace).",
}
M = {"version": 1, "setup_cmd": "./setup", "checks": [
        {"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
         "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration", "level_note": n}
        for p, (t, n) in CHECKS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: all seams are reached from outside (sys.settrace, patched numpy/scipy/time/threading/importlib entry points). "
              "Replay a violation with ./check replay evidence/replays/FILE.json."}
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
