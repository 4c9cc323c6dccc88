"""C08: Timer under simulated clocks, a slow or failing output stream,
exceptions, nesting, reuse, threads."""
import errno
import re
import sys
import time

from . import engine, gen as G, sim, world as W
from .props import Prop, sched_for

REAL = {}


class Clock:
    """The simulated time of one run"""
    cur = None

    def __init__(self, perf0=12345.6789, civil0=1.7e9):
        self.now = 0.           # true elapsed seconds
        self.cpu = 0.
        self.perf0, self.civil0 = perf0, civil0
        self.reads = {}

    def sleep(self, dt, busy=.1):
        self.now += dt
        self.cpu += dt*busy

    def read(self, name):
        self.reads[name] = self.reads.get(name, 0) + 1
        if name in ("time", "realtime"):
            return self.civil0 + self.now
        if name == "cpu":
            return self.cpu
        return self.perf0 + self.now


def install_clocks():
    if REAL:
        return
    import timeit
    for name, kind in (("time", "time"), ("perf_counter", "perf"), ("monotonic", "mono"), ("process_time", "cpu"),
                       ("thread_time", "cpu")):
        REAL[name] = getattr(time, name)
        REAL[name + "_ns"] = getattr(time, name + "_ns")

        def f(name=name, kind=kind):
            c = Clock.cur
            return REAL[name]() if c is None else c.read(kind)

        def f_ns(name=name, kind=kind):
            c = Clock.cur
            return REAL[name + "_ns"]() if c is None else round(c.read(kind)*1e9)
        setattr(time, name, f)
        setattr(time, name + "_ns", f_ns)
    ids = {getattr(time, n, None): k for n, k in (
        ("CLOCK_REALTIME", "time"), ("CLOCK_MONOTONIC", "mono"), ("CLOCK_MONOTONIC_RAW", "mono"), ("CLOCK_BOOTTIME", "mono"),
        ("CLOCK_TAI", "time"), ("CLOCK_PROCESS_CPUTIME_ID", "cpu"), ("CLOCK_THREAD_CPUTIME_ID", "cpu"))}
    REAL["clock_gettime"], REAL["clock_gettime_ns"], REAL["sleep"] = time.clock_gettime, time.clock_gettime_ns, time.sleep
    time.clock_gettime = lambda i: REAL["clock_gettime"](i) if Clock.cur is None else Clock.cur.read(ids[i])
    time.clock_gettime_ns = lambda i: REAL["clock_gettime_ns"](i) if Clock.cur is None else round(Clock.cur.read(ids[i])*1e9)
    time.sleep = lambda dt: REAL["sleep"](dt) if Clock.cur is None else Clock.cur.sleep(dt, 0.)
    timeit.default_timer = time.perf_counter


FAIL = {"enospc": lambda: OSError(errno.ENOSPC, "No space left on device"), "pipe": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
        "closed": lambda: ValueError("I/O operation on closed file"), "eio": lambda: OSError(errno.EIO, "Input/output error"),
        "int": KeyboardInterrupt}
BODY = {"value": ValueError, "int": KeyboardInterrupt, "exit": SystemExit, "stop": StopIteration, "gen": GeneratorExit,
        "os": OSError, "zero": ZeroDivisionError}


class Stream:
    """sys.stdout of the simulated process"""
    encoding = "utf-8"

    def __init__(self, clock, kern):
        self.clock, self.kern = clock, kern
        self.script = {}        # thread -> pending [delay, failure, jump] per write
        self.text = {}
        self.raised = {}
        self.failures = 0

    def write(self, s):
        t = self.kern.cur.tid
        self.kern.log("write", t, s)
        sc = self.script.get(t)
        if sc:
            delay, fail, jump = sc.pop(0)
            self.clock.sleep(delay, 0.)
            self.clock.civil0 += jump
            if fail:
                self.failures += 1
                e = FAIL[fail]()
                self.raised.setdefault(t, []).append(e)
                self.kern.fired.append((t, self.kern.cur.op, "stream:" + fail, "stdout"))
                raise e
        self.text[t] = self.text.get(t, "") + s
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no file descriptor")


class ClockWorld(W.World):
    def do_timer(self, op, arg):
        e = self.engine

        def run():
            return e.block(e.kern.cur, op)
        return run

    def expected(self, op):
        if op["op"] == "timer":
            raise W.Undefined
        return super().expected(op)


class ClockEngine(engine.Engine):
    World = ClockWorld

    def before(self):
        c = self.plan.get("clock", {})
        self.clock = Clock.cur = Clock(c.get("perf0", 12345.6789), c.get("civil0", 1.7e9))
        self.out = Stream(self.clock, self.kern)
        self.saved = sys.stdout
        sys.stdout = None if self.plan.get("noout") else self.out
        self.timers = {}
        self.last = {}

    def after(self):
        for i, v in self.last.items():
            if v is not None and getattr(self.timers[i], "tWall", None) != v:
                self.violation("time", {"op": "end", "timer": i}, f"tWall of a timer changed after its stop: {v} -> "
                               f"{getattr(self.timers[i], 'tWall', None)}")
        sys.stdout = self.saved
        self.res.info.update(simtime=self.clock.now, clocks_read=dict(self.clock.reads))
        Clock.cur = None

    def run(self):
        try:
            return super().run()
        finally:
            Clock.cur = None

    def after_exc(self, st, op, exc, tainted, exp):
        if op["op"] != "timer":
            super().after_exc(st, op, exc, tainted, exp)

    # -------------------------------------------------------------- one block
    def block(self, st, op):
        """Run one timed block; every exception leaves as the real code lets it"""
        clock, out, tid = self.clock, self.out, st.tid
        i = op["timer"]
        spec = self.plan["timers"][i]
        if i not in self.timers or op.get("new"):
            self.timers[i] = W.Q.utils.Timer(spec["name"], **{k: spec[k] for k in ("scale", "descr") if k in spec})
            self.last.pop(i, None)
        t = self.timers[i]
        self.last[i] = None
        scale = spec.get("scale", 1)
        nf0 = len(self.kern.fired)
        s = {"entered": False}

        def phase(key):
            out.script[tid] = [list(x) for x in op.get(key, ())]
            out.raised[tid] = []
            out.text[tid] = ""
            s[key] = len(self.kern.fired)

        def body():
            s["entered"] = True
            s["s1"] = clock.now
            s["start_errors"], s["fs"] = list(out.raised[tid]), len(self.kern.fired)
            out.script[tid] = []
            try:
                for x in op.get("body", ()):
                    if x["op"] == "lap":
                        a = clock.now
                        t.stop()
                        self.judge_lap(op, t, (a - s["s1"])/scale, (clock.now - s["s0"])/scale)
                    elif x["op"] == "restart":
                        a = clock.now
                        try:
                            t.start()
                            s["s0"] = a
                        finally:
                            s["s1"] = clock.now
                    else:
                        self.item(st, x)
                if op.get("raise"):
                    s["X"] = BODY[op["raise"]]("raised by the timed block")
                    raise s["X"]
            except BaseException as e:
                s["X"] = e
                raise
            finally:
                s["e0"] = clock.now
                phase("we")

        exc = None
        s["s0"] = clock.now
        phase("ws")
        try:
            if op["mode"] == "with":
                with t:
                    body()
            else:
                t.start()
                try:
                    body()
                finally:
                    t.stop()
        except BaseException as e:
            exc = e
        s["e1"] = clock.now
        out.script[tid] = []
        self.judge_block(st, op, t, scale, s, exc, nf0)
        out.text[tid] = ""
        if exc is not None and not op.get("catch"):
            raise exc

    def judge_lap(self, op, t, lo, hi):
        """a stop before the last one"""
        self.res.checked += 1
        w, tol = getattr(t, "tWall", None), 1e-6*max(1., abs(hi)*1e-3)/min(1, self.plan["timers"][op["timer"]].get("scale", 1))
        if w is None or not lo - tol <= w <= hi + tol:
            self.violation("time", {"op": "timer", "timer": op["timer"]}, f"tWall is {w!r} after a stop, but {lo!r} to {hi!r} elapsed since the start")

    def judge_block(self, st, op, t, scale, s, exc, nf0):
        out, tid, fired = self.out, st.tid, self.kern.fired
        self.res.checked += 1
        show = {k: op[k] for k in ("timer", "mode", "raise", "ws", "we") if op.get(k)}
        show["op"] = "timer"

        def injected(a):        # asynchronous faults in this thread since mark a
            return any(f[0] == tid and not f[2].startswith("stream:") for f in fired[a:])
        if not s["entered"]:
            if injected(nf0):
                return
            errs = out.raised[tid]
            if exc is None:
                self.violation("time", show, "the timed block was not executed")
            elif not any(exc is e for e in errs):
                self.violation("exception", show, f"starting raised {type(exc).__name__}: {exc}" +
                               (f" instead of the {type(errs[0]).__name__} of the stream" if errs else ""))
            return
        if injected(s["we"]):
            return              # cut short while stopping
        if s["start_errors"]:
            self.violation("exception", show, "an error of the output stream was suppressed")
        errs = out.raised[tid]
        allowed = [e for e in [s.get("X")] + errs if e is not None]
        if allowed and exc is None:
            self.violation("exception", show, f"{type(allowed[0]).__name__} was suppressed")
        elif exc is not None and not any(exc is e for e in allowed):
            self.violation("exception", show, f"{type(exc).__name__}: {exc}" +
                           (f" instead of {type(allowed[0]).__name__}" if allowed else ""))
        try:
            w = t.tWall
        except AttributeError:
            self.violation("time", show, "the time was not recorded")
            return
        lo, hi = (s["e0"] - s["s1"])/scale, (s["e1"] - s["s0"])/scale
        tol = 1e-6*max(1., abs(hi)*1e-3) / (scale if scale < 1 else 1)
        if not lo - tol <= w <= hi + tol:
            self.violation("time", show, f"tWall is {w!r} but {lo!r} to {hi!r} elapsed")
        elif w < 0:
            self.violation("time", show, f"tWall is negative: {w!r}")
        else:
            self.last[op["timer"]] = w
            if sys.stdout is not None and not errs:
                num = re.findall(r"([-+]?[0-9][0-9.]*(?:[eE][-+]?[0-9]+)?)\s*s\b", out.text[tid])
                if not num:
                    self.violation("time", show, f"no time was printed: {out.text[tid]!r}")
                elif abs(float(num[-1]) - w) > .02*abs(w) + 1e-12:
                    self.violation("time", show, f"printed {num[-1]}s, but tWall is {w!r}")

    def item(self, st, x):
        c = x["op"]
        if c == "sleep":
            self.clock.sleep(x["dt"], x.get("busy", .1))
            if x.get("sw") is not None:
                self.kern.switch(st, x["sw"])
        elif c == "adj":
            self.clock.civil0 += x["by"]
        elif c == "print":
            if sys.stdout is not None:
                print("output of the block")
        else:
            keep = (self.out.script.get(st.tid), self.out.raised.get(st.tid), self.out.text.get(st.tid))
            try:
                self.block(st, x)
            finally:
                self.out.script[st.tid], self.out.raised[st.tid], self.out.text[st.tid] = keep


class C08(Prop):
    id = "C08"
    runs = {"quick": 4000, "thorough": 80000}
    judge = {"time", "exception", "stuck"}
    Engine = ClockEngine
    rule = ("One case runs 1 to 10 timed blocks (with statement or start/stop calls, nested up to 4 deep, timers reused, stopped several times or restarted, several scales) "
            "in 1 to 3 threads under a seeded schedule on simulated clocks: durations from 1e-7 s to 1e5 s, jumps of the civil clock by up to "
            "years in both directions, a processor clock that stands still, output that stalls or fails, blocks that raise, "
            "interrupts inside start and stop. Non-trivial: at least one checked block; distinct: by history hash.")
    components = {"real": ["qmat.utils.Timer and all of qmat", "CPython"],
                  "simulated": ["every clock of the time module (civil, monotonic, performance, processor), sleeping",
                                "sys.stdout", "choice of the running thread", "interrupts"]}
    assumptions = ["time passes only in sleeps, output and explicit clock events of the plan"]

    def zygote(self):
        install_clocks()
        super().zygote()

    def nontrivial(self, plan, out):
        return out["checked"] >= 1 and out["info"].get("simtime", 0) > 0

    def make(self, rng, i, tier):
        r = rng
        plan = {"timers": [], "clock": {"perf0": r.choice([0., 3.25, 12345.6789, 99999.5]), "civil0": r.choice([1.7e9, 0., 1e6])}}
        names = iter(range(10**6))
        pfail, pjump, pexc = r.choice([0, .15, .4]), r.choice([0, .3, .7]), r.choice([0, .2, .5])
        nt = r.choice([1, 1, 2, 3])
        plan["noout"] = r.random() < .05

        def timer():
            t = {"name": f"timer {next(names)}"}
            if r.random() < .5:
                t["scale"] = r.choice([1, 2, 10, 1000, .5, 1e-3, 3, 7.5])
            if r.random() < .3:
                t["descr"] = r.choice(["tComp", "wall time per step", ""])
            plan["timers"].append(t)
            return len(plan["timers"]) - 1

        def jump():
            return r.choice([1, -1])*r.choice([.5, 1., 60., 3600., 86400*365*10.]) if r.random() < pjump else 0.

        def writes():
            if r.random() < .5:
                return []
            out = []
            for _ in range(2):
                fail = r.choice(sorted(FAIL)) if r.random() < pfail else None
                out.append([r.choice([0., 1e-4, .01, 2.]), fail, jump()])
                if fail:
                    break
            return out

        def block(own, depth, busy):
            free = [t for t in own if t not in busy]
            t = r.choice(free) if free and r.random() < .6 else None
            if t is None:
                t = timer()
                own.append(t)
            op = {"op": "timer", "timer": t, "mode": r.choice(["with", "with", "calls"]), "body": []}
            if r.random() < .1:
                op["new"] = True
            for key in ("ws", "we"):
                w = writes()
                if w:
                    op[key] = w
            for _ in range(r.randint(0, 4)):
                c = r.random()
                if c < .45:
                    x = {"op": "sleep", "dt": r.choice([1e-7, 1e-3, .25, 1., 59.5, 3601., 1e5])*r.choice([1, 1.5, .3])}
                    if nt > 1 and r.random() < .7:
                        x["sw"] = r.randrange(6)
                    if r.random() < .2:
                        x["busy"] = r.choice([0, 1, 4])
                    op["body"].append(x)
                elif c < .65:
                    op["body"].append({"op": "adj", "by": jump() or 1.})
                elif c < .7:
                    op["body"].append({"op": "print"})
                elif c < .78:
                    op["body"].append({"op": "lap"})
                elif c < .81:
                    op["body"].append({"op": "restart"})
                elif depth < 4:
                    op["body"].append(block(own, depth + 1, busy | {t}))
            if r.random() < pexc:
                op["raise"] = r.choice(sorted(BODY))
            if r.random() < .5:
                op["catch"] = True
            return op
        if nt == 1:
            own = []
            plan["setup"] = [block(own, 1, set()) for _ in range(r.randint(1, 6))]
        else:
            plan["setup"] = []
            plan["threads"] = []
            for t in range(nt):
                own = []
                plan["threads"].append([block(own, 1, set()) for _ in range(r.randint(1, 4))])
            plan["sched"] = sched_for(r)
            plan["gran"] = "opcode" if r.random() < .3 else "line"
            plan["fin"] = [r.randrange(12) for _ in range(nt + 1)]
        if r.random() < .3:
            from .props import rel_faults
            rel_faults(r, plan, r.randint(1, 2), seam_kinds=())
        return plan

    def shrink(self, plan):
        for key in ("setup",):
            for j, op in enumerate(plan.get(key, [])):
                for f in self.simpler(op):
                    yield dict(plan, **{key: plan[key][:j] + [f] + plan[key][j + 1:]})
        th = plan.get("threads", [])
        for t, ops in enumerate(th):
            for j, op in enumerate(ops):
                for f in self.simpler(op):
                    yield dict(plan, threads=th[:t] + [ops[:j] + [f] + ops[j + 1:]] + th[t + 1:])

    def simpler(self, op):
        for key in ("ws", "we", "raise", "new"):
            if op.get(key):
                yield {k: v for k, v in op.items() if k != key}
        b = op.get("body", [])
        for j, x in enumerate(b):
            yield dict(op, body=b[:j] + b[j + 1:])
            if x["op"] == "timer":
                for f in self.simpler(x):
                    yield dict(op, body=b[:j] + [f] + b[j + 1:])
