"""C07: the settings a host application owns, before and after any calls, and
results under unusual settings."""
import builtins
import os
import random
import sys
import warnings
import zlib
import numpy as np

from . import engine, gen as G, world as W
from .props import Prop, concurrent, families, rel_faults, requery, retry, sched_for, History, light

ERR = ["ignore", "warn", "raise", "call"]


def _hash(x):
    return zlib.crc32(repr(x).encode())


def thread_state():
    import decimal
    c = decimal.getcontext()
    return {"numpy error state": np.geterr(), "numpy error handler": np.geterrcall(),
            "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
            "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, tuple(sorted(t.__name__ for t, v in c.traps.items() if v)))}


def process_state():
    import atexit
    import faulthandler
    import gc
    import locale
    import logging
    import signal
    import threading
    import scipy.special as sps
    s = {"warning filters": [tuple(map(str, f)) for f in warnings.filters],
         "warning hooks": (warnings.showwarning, warnings.formatwarning),
         "random state": _hash(random.getstate()),
         "numpy random state": _hash([x.tobytes() if hasattr(x, "tobytes") else x for x in np.random.get_state()]),
         "numpy buffer size": np.getbufsize(),
         "scipy.special error state": sps.geterr(),
         "environment": dict(os.environ), "working directory": os.getcwd(),
         "standard streams": (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__),
         "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
         "hooks": (sys.excepthook, sys.unraisablehook, sys.displayhook, threading.excepthook, sys.breakpointhook),
         "import path": (list(sys.path), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks], sys.dont_write_bytecode),
         "signal handlers": tuple(str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1,
                                                                   signal.SIGHUP, signal.SIGPIPE, signal.SIGFPE)),
         "timers": signal.getitimer(signal.ITIMER_REAL),
         "locale": tuple(locale.setlocale(x) for x in (locale.LC_NUMERIC, locale.LC_CTYPE, locale.LC_TIME, locale.LC_COLLATE)),
         "exit hooks": atexit._ncallbacks(),
         "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
         "trace": (threading._trace_hook, threading._profile_hook),
         "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable,
                     logging.raiseExceptions),
         "faulthandler": faulthandler.is_enabled(), "stack size": threading.stack_size(),
         "scheduling": (tuple(sorted(os.sched_getaffinity(0))), os.getpriority(os.PRIO_PROCESS, 0)),
         "integer digits": sys.get_int_max_str_digits(),
         "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"}}
    um = os.umask(0o22)
    os.umask(um)
    s["umask"] = um
    return s


def differs(a, b):
    return [k for k in a if a[k] != b[k]]


def apply_thread(env):
    if env.get("err"):
        np.seterrcall(_handler)
        np.seterr(**env["err"])
    if env.get("prec"):
        import decimal
        decimal.getcontext().prec = env["prec"]
    if env.get("print"):
        np.set_printoptions(**env["print"])


def _handler(kind, flag):
    pass


def apply_process(env):
    for f in env.get("warn") or ():
        cat = {"W": Warning, "R": RuntimeWarning, "D": DeprecationWarning, "U": UserWarning}[f[1]]
        warnings.filterwarnings(f[0], category=cat)
    if env.get("seed") is not None:
        random.seed(env["seed"])
        np.random.seed(env["seed"])
    if env.get("buf"):
        np.setbufsize(env["buf"])
    if env.get("rec"):
        sys.setrecursionlimit(env["rec"])
    if env.get("env"):
        os.environ.update(env["env"])
    if env.get("cwd"):
        os.chdir("/")
    if env.get("gc"):
        import gc
        gc.disable()


class AmbientWorld(W.World):
    def prepare(self, op):
        thunk, guards = super().prepare(op)
        if thunk is None:
            return thunk, guards

        def run():
            tr, pr = sys.gettrace(), sys.getprofile()
            try:
                return thunk()
            finally:
                if sys.gettrace() not in (tr, None) or sys.getprofile() is not pr:     # None: a tracer that raised
                    self.engine.violation("ambient", op, "trace or profile function changed")
        return run, guards


class AmbientEngine(engine.Engine):
    World = AmbientWorld

    def before(self):
        env = self.plan.get("env") or {}
        sys.stdout.flush()
        warnings.showwarning = _quiet
        apply_process(env)
        self.tolerate = self.asked
        self.live = {}
        self.depth = 0
        self.proc0 = process_state()
        self.thread_start(self.kern.main)

    def asked(self, op, exc, st):
        """the configured mode asks for errors, and this is one of them"""
        env = self.plan.get("env") or {}
        wants = ()
        if "raise" in (env.get("err") or {}).values():
            wants += (FloatingPointError,)
        if any(f[0] == "error" for f in env.get("warn") or ()):
            wants += (Warning,)
        for _ in range(20):
            if exc is None:
                return False
            if isinstance(exc, wants):
                self.kern.probe("raised as the mode asks")
                return True
            exc = exc.__cause__ or exc.__context__
        return False

    def thread_start(self, st):
        apply_thread(self.plan.get("env") or {})
        self.live[st.tid] = thread_state()

    def compare(self, op, old, new):
        for k in differs(old, new):
            a, b = old[k], new[k]
            if isinstance(a, dict) and isinstance(b, dict):
                ks = [x for x in {**a, **b} if a.get(x) != b.get(x)][:5]
                a, b = {x: a.get(x) for x in ks}, {x: b.get(x) for x in ks}
            elif isinstance(a, list) and isinstance(b, list):
                a, b = f"{len(a)} entries", f"{len(b)} entries, first {b[:1]}"
            self.violation("ambient", op, f"{k} changed: {a} -> {b}")
        return new

    def step(self, st, op):
        super().step(st, op)
        self.res.checked += 1
        self.live[st.tid] = self.compare(op, self.live[st.tid], thread_state())
        if not self.kern.threads_live:
            self.proc0 = self.compare(op, self.proc0, process_state())

    def after(self):
        self.compare({"op": "all calls"}, self.proc0, process_state())


def _quiet(*a, **k):
    pass




class C07(Prop):
    id = "C07"
    runs = {"quick": 1300, "thorough": 25000}
    judge = {"ambient", "value", "exception", "stuck"}
    Engine = AmbientEngine
    rule = ("One case sets up a host configuration (floating-point error mode per thread, warning filters, random states, print options, "
            "decimal precision, recursion limit, buffer size, working directory, collector) and runs a history of public calls, "
            "refused ones included, sequentially or from 2 to 3 threads under a seeded schedule, in half of the cases with injected "
            "faults. 30 process and thread settings are compared before and after, and every returned value with the model. "
            "Non-trivial: at least 3 comparisons; distinct: by history hash.")

    def zygote(self):
        super().zygote()
        import scipy.optimize, scipy.special, scipy.linalg, decimal, logging, locale, faulthandler     # noqa: F401,E401
        warnings.resetwarnings()
        warnings.simplefilter("ignore")

    def environment(self, r):
        env = {}
        if r.random() < .7:
            m = r.choice(ERR)
            if r.random() < .5:
                env["err"] = {k: m for k in ("divide", "over", "under", "invalid")}
            else:
                env["err"] = {k: r.choice(ERR) for k in ("divide", "over", "under", "invalid")}
        if r.random() < .5:
            env["warn"] = [[r.choice(["error", "ignore", "always", "once", "default", "module"]), r.choice("WRDU")]
                           for _ in range(r.randint(1, 3))]
        if r.random() < .5:
            env["seed"] = r.randrange(1 << 31)
        if r.random() < .2:
            env["print"] = {"precision": r.choice([2, 4]), "threshold": r.choice([2, 10]), "suppress": True}
        if r.random() < .2:
            env["prec"] = r.choice([3, 9, 50])
        if r.random() < .15:
            env["buf"] = r.choice([16*100, 4096])
        if r.random() < .15:
            env["rec"] = r.choice([400, 5000])
        if r.random() < .15:
            env["env"] = {"TZ": "UTC+5", "LC_ALL": "de_DE.UTF-8"}
        if r.random() < .1:
            env["cwd"] = True
        if r.random() < .1:
            env["gc"] = True
        return env

    def make(self, rng, i, tier):
        r = rng
        g = G.Gen(r, heavy=r.choice([0, .3, .6]), scr=r.choice([0, .3]), maxn=r.choice([2, 3, 4, 6, 9]))
        mode = r.random()
        if mode < .12:
            return self.optimisers(r, g)
        if mode < .45:
            if r.random() < .5:
                g.kinds = ["MIN_SR_S", "MIN_SR_FLEX", "MIN"] + r.sample(g.kinds, 2)
            specs = families(g, g.qd, r.randint(1, 3))
        else:
            specs = g.specs(r.randint(1, 4))
        calls = [lambda: g.call(["q", "d", "d", "sparse", "sdc", "util", "nodes"])]
        if r.random() < .4:
            ws = {"c": "lag", "grid": {"kind": r.choice(["cheb", "equi"]), "n": r.choice([3, 12, 12]), "scale": r.choice([1., 1e-150, 1e150]),
                                       "shift": 0, "seed": 1}}
            j = len(specs)
            specs.append(ws)
        else:
            j = None
        env = self.environment(r)
        if r.random() < .55:
            h = History(g, specs if j is None else specs[:j], calls, bad=.12, redo=.2)
            plan = {"specs": specs, "setup": h.fill(r.randint(5, 16)), "trace": False}
            live = h.live
        else:
            nt = r.choice([2, 2, 3])
            sp = specs if j is None else specs[:j]
            sp = list(sp)
            setup, threads, live = concurrent(g, sp, nt, r.randint(2, 4), calls, bad=.08)
            if j is not None:
                j = len(sp)
                sp.append(ws)
            specs = sp
            plan = {"specs": specs, "setup": setup, "threads": threads, "sched": sched_for(r),
                    "gran": "opcode" if r.random() < .15 else "line", "fin": [r.randrange(12) for _ in range(nt + 1)]}
        if j is not None:
            plan["setup"] = [{"op": "new", "i": j}, {"op": "l.int", "i": j, "gts": [.1, .7, "p0"]},
                             {"op": "l.quad", "i": j, "givs": [[0., .5]]}] + plan["setup"]
        plan["final"] = requery(g, specs, [x for x in live if x != j], 1)
        plan["env"] = env
        if r.random() < .5:
            plan["trace"] = True
            ok = light(specs)
            rel_faults(r, plan, r.randint(1, 3), where=None if r.random() < .5 else ok)
            for f in plan["faults"]:
                op = next(o for o in engine.all_ops(plan) if o["no"] == f["o"])
                if not ok(op) and f["kind"] in ("fpe", "linalg"):
                    f["kind"] = "memory"
            retry(r, plan, .5)
        return plan

    def optimisers(self, r, g):
        """threads that run the scipy optimisers at the same time"""
        g.cfg["heavy"] = 1.
        g.kinds = ["MIN_SR_S", "MIN"] if r.random() < .3 else ["MIN_SR_S"]
        nt = r.choice([2, 2, 3])
        specs, threads = [], []
        for t in range(nt):
            src = g.coll(qt=r.choice(["GAUSS", "RADAU-RIGHT", "LOBATTO"]))
            src["n"] = r.randint(2, 3)
            k = g.kind_for(src)
            specs.append({"c": "qd", "t": g.alias(k), "src": src, "via": "qGen"})
            ops = [{"op": "new", "i": t}] + [g.d_op(t, specs[t], src) for _ in range(r.randint(1, 2))]
            if r.random() < .5:
                ops.append({"op": "d.compute", "i": t, "k": None})
            threads.append(ops)
        plan = {"specs": specs, "setup": [], "threads": threads, "gran": "line", "fin": [r.randrange(12) for _ in range(nt + 1)],
                "sched": {"few": r.randint(2, 12)} if r.random() < .5 else {"gap": r.choice([10, 40, 100])},
                "env": self.environment(r), "final": []}
        if r.random() < .3:
            rel_faults(r, plan, 1, seam_kinds=())
        return plan

    def shrink(self, plan):
        yield from super().shrink(plan)
        for k in list(plan.get("env") or {}):
            yield dict(plan, env={x: v for x, v in plan["env"].items() if x != k})
