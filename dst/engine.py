"""Executes one explicit plan against the real code and judges it.

A plan is JSON: specs (objects), setup / threads / final operation lists,
preempt [[thread, local event, choice]], faults [{t, o, at, kind}], gran, fin.
Relative entries (fractions) are resolved to absolute ones with a dry run.
"""
import os
import pickle
import re
import signal
import struct
import sys
import time
import traceback
import numpy as np

from . import sim, world as W

UNDEF = object()


# ------------------------------------------------------------ process helpers
def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd, deadline=None):
    import select

    def read(n):
        buf = b""
        while len(buf) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            part = os.read(fd, min(1 << 20, n - len(buf)))
            if not part:
                raise EOFError
            buf += part
        return buf
    n, = struct.unpack("<Q", read(8))
    return read(n)


def in_fork(func, timeout=120):
    """Run func() in a forked process; returns its value (pickled through a pipe)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", func())
            except BaseException as e:
                out = ("err", "".join(traceback.format_exception(e)))
            _send(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        out = pickle.loads(_recv(r, time.monotonic() + timeout))
    except (EOFError, TimeoutError) as e:
        os.kill(pid, signal.SIGKILL)
        out = ("dead", repr(e))
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return out


class ForkError(Exception):
    pass


class Pristine:
    """A process that stays as it was after importing the code, and forks a
    fresh process for every request: 'a new process in which only what is
    passed survived'"""

    def __init__(self):
        self.pid = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1), os.close(r2)
            try:
                while True:
                    try:
                        req = _recv(r1)
                    except EOFError:
                        break
                    fn, args = pickle.loads(req)
                    out = in_fork(lambda: fn(*args))
                    _send(w2, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def call(self, fn, *args):
        if self.pid is None:
            self.start()
        _send(self.w, pickle.dumps((fn, args)))
        kind, val = pickle.loads(_recv(self.r, time.monotonic() + 150))
        if kind != "ok":
            raise ForkError(val)
        return val

    def kill(self):
        if self.pid is not None:
            os.close(self.w), os.close(self.r)
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
            self.pid = None


class Ctx:
    """What an execution may use besides the code: pristine processes, baselines"""

    def __init__(self, cache=None):
        self.pristine = Pristine()
        self.cache = {} if cache is None else cache
        self.new = {}

    def baseline(self, key):
        k = repr(key)
        if k not in self.cache:
            try:
                v = self.pristine.call(W.compute_baseline, key)
            except ForkError as e:
                raise W.Undefined(str(e))
            self.cache[k] = self.new[k] = v
        return self.cache[k]


# ------------------------------------------------------------------ the engine
class Result:
    def __init__(self):
        self.viol = []
        self.calls = self.checked = self.raised = 0
        self.info = {}

    def add(self, cls, op, detail):
        self.viol.append({"cls": cls, "op": op, "detail": str(detail)[:600]})


def fmt(op):
    return {k: v for k, v in op.items() if v is not None}


class Engine:
    World = W.World

    def __init__(self, plan, ctx, judge=None, trace=True):
        self.plan, self.ctx = plan, ctx
        self.judge = judge              # set of violation classes that count, None for all
        self.res = Result()
        self.E = W.Expect(ctx.baseline)
        self.world = self.World(plan.get("specs", []), self.E)
        self.world.engine = self
        if plan.get("buf"):
            self.world.pool = {}
        self.kern = sim.Kernel(preempt=plan.get("preempt", ()), faults=plan.get("faults", ()),
                               gran=plan.get("gran", "line"), fin=plan.get("fin", ()),
                               cap=plan.get("cap", 4_000_000), trace=trace, nested=plan.get("nested", ()),
                               sites=plan.get("sites", False))
        self.kern.on_nested = self.run_nested
        self.exp = {}
        self.kern.world = self.world
        self.tolerate = lambda op, exc, st: False

    def violation(self, cls, op, detail):
        if self.judge is None or cls in self.judge:
            self.res.add(cls, fmt(op) if isinstance(op, dict) else op, detail)

    def precompute(self):
        for op in all_ops(self.plan):
            try:
                with np.errstate(all="ignore"):
                    self.exp[op["no"]] = self.world.expected(op)
            except W.Undefined:
                self.exp[op["no"]] = UNDEF

    def run(self):
        p = self.plan
        self.precompute()
        self.before()
        for op in p.get("setup", []):
            self.step(self.kern.main, op)
        th = p.get("threads", [])
        if th:
            self.kern.run_threads([self.body(t, ops) for t, ops in enumerate(th)])
            if self.kern.deadlock and not any(v["cls"] == "stuck" for v in self.res.viol):
                self.violation("stuck", {"op": "threads"}, "threads wait for each other forever")
        try:
            for op in p.get("final", []):
                self.step(self.kern.main, op)
            self.after()
        except (sim.SimDeadlock, sim.SimLivelock) as e:
            self.violation("stuck", {"op": "end"}, f"{type(e).__name__}: {e}")
        return self.finish()

    def before(self):
        pass

    def after(self):
        pass

    def run_nested(self, st, ops):
        for op in ops:
            self.step(st, op)

    def thread_start(self, st):
        pass

    def thread_end(self, st):
        pass

    def finish(self):
        k = self.kern
        r = self.res
        return {"viol": r.viol, "hash": k.h, "events": k.total, "switches": k.switches,
                "fired": [list(f) for f in k.fired], "probes": k.probes,
                "counts": [[t, o, c[0], c[1], c[2]] for (t, o), c in k.counts.items()],
                "sites": [[t, o, s] for (t, o), s in (k.sites or {}).items()],
                "calls": r.calls, "checked": r.checked, "raised": r.raised,
                "visited": len(k.visited), "info": r.info}

    def body(self, t, ops):
        def run(st):
            self.thread_start(st)
            for op in ops:
                self.step(st, op)
                if self.kern.deadlock or self.kern.livelock:
                    break
            self.thread_end(st)
        return run

    # ------------------------------------------------------------- one step
    def step(self, st, op):
        w, mine = self.world, []
        try:
            self.step1(st, op, mine)
        finally:
            for g in mine:
                g.recycle()

    def step1(self, st, op, mine):
        w, r = self.world, self.res
        try:
            thunk, guards = w.prepare(op)
            if w.pool is not None:
                mine.append(w.guards)
        except W.Undefined:
            return
        except (sim.SimDeadlock, sim.SimLivelock) as e:     # a lock that nobody will ever release
            self.violation("stuck", op, f"{type(e).__name__}: {e}")
            return
        except Exception as e:      # the code itself failed while building what the call needs
            if not in_code("".join(traceback.format_exception(e))):
                raise
            thunk, guards = raiser(e), []
        if thunk is None:
            self.kern.log("caller", op["op"])
            return
        tainted = op.get("i") in w.taint or op.get("ref") in w.taint
        r.calls += 1
        kind, val = self.kern.call(st, op["no"], thunk)
        tainted = tainted or op.get("i") in w.taint or op.get("ref") in w.taint
        if op["op"] == "new" and w.specs[op["i"]].get("ref") in w.taint:
            w.taint.add(op["i"])
        for name in W.Guards.modified(guards):
            self.violation("input-modified", op, f"argument {name} changed by the call" +
                           (f" that raised {type(val).__name__}" if kind == "exc" else ""))
        if kind == "stuck":
            self.violation("stuck", op, f"{type(val).__name__}: {val}")
            return
        if st.fired in ("interrupt", "exit") and not st.exempt and type(val) is not type(st.injected):
            self.violation("swallowed", op, f"{type(st.injected).__name__} raised inside the call: it " +
                           (f"raised {type(val).__name__}: {val}" if kind == "exc" else "went on as if nothing had happened"))
        if kind == "exc":
            r.raised += 1
            self.after_exc(st, op, val, tainted, self.exp.get(op["no"], UNDEF))
            return
        if st.fired:
            self.kern.probe("completed-despite-fault")
        self.after_ok(st, op, val, tainted, guards)

    def after_exc(self, st, op, exc, tainted, exp):
        if st.fired or tainted or exp is UNDEF or self.tolerate(op, exc, st):
            return
        self.violation("exception", op, f"{type(exc).__name__}: {exc}")

    def after_ok(self, st, op, val, tainted, guards):
        exp = self.exp.get(op["no"], UNDEF)
        if hasattr(val, "toarray"):
            shown = val.toarray()
        else:
            shown = val
        if exp is not UNDEF and not tainted:
            self.res.checked += 1
            d = W.close(shown, exp[0], exp[1])
            if d:
                self.violation("value", op, d)
        if op["op"] == "bad" and not tainted and self.world.refused(op):
            self.violation("refused", op, "a call that must be refused returned a result")
        self.check_alias(op, val, guards)
        if op.get("scr"):
            if op["op"] == "q.attr":    # what is read as an attribute may belong to the object
                self.world.taint |= self.world.group.get(op["i"], {op["i"]})
            W.scribble(val, op["scr"])
            self.kern.probe("scribbled")
            for name in W.Guards.modified(guards):
                self.violation("alias", op, f"writing to the result changes the argument {name}")

    def check_alias(self, op, val, guards):
        arrs = [x for x in flat(val) if isinstance(x, np.ndarray)]
        for name, base, _ in guards:
            if isinstance(base, np.ndarray):
                for a in arrs:
                    if np.may_share_memory(a, base) and np.shares_memory(a, base):
                        self.violation("alias", op, f"the result shares memory with the argument {name}")


def raiser(exc):
    def thunk():
        raise exc
    return thunk


def in_code(trace):
    """does this traceback end in the code under test (or what it calls)?"""
    repo, here = os.environ.get("DST_REPO", "/repo") + "/qmat/", os.path.dirname(os.path.abspath(__file__)) + "/"
    last = trace.rsplit("Traceback (most recent call last)", 1)[-1]
    files = re.findall(r'File "([^"]+)", line', last)
    a = max((i for i, f in enumerate(files) if f.startswith(repo)), default=-1)
    return a > max((i for i, f in enumerate(files) if f.startswith(here)), default=-1)


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat(y)
    elif hasattr(x, "toarray") and hasattr(x, "data"):
        yield x.data
    else:
        yield x


def all_ops(plan):
    for key in ("setup", "final"):
        yield from plan.get(key, [])
    for ops in plan.get("threads", []):
        yield from ops
    for n in plan.get("nested", ()):
        yield from n["ops"]
    for lst in [plan.get("setup", [])] + plan.get("threads", []):
        for op in lst:
            yield from op.get("ops", ())


def number(plan):
    """Give every operation its permanent number; numbers given before (faults
    refer to them) stay"""
    seen = set()
    for op in all_ops(plan):
        if op.get("no") in seen:
            op.pop("no")
        elif "no" in op:
            seen.add(op["no"])
    n = max(seen, default=-1)
    for op in all_ops(plan):
        if "no" not in op:
            n += 1
            op["no"] = n
    return plan


# ------------------------------------------------------------------ resolving
def relative(plan):
    return bool(plan.get("sched")) or any("frac" in f for f in [*plan.get("faults", ()), *plan.get("nested", ())])


def resolve(plan, dry):
    """Turn relative faults and schedules into absolute event numbers, given
    what a serial fault-free dry run counted"""
    from .gen import rng_for
    counts = {o: (t, inj, seam, ev) for t, o, inj, seam, ev in dry["counts"]}
    sites = {o: s for _, o, s in dry.get("sites", ())}

    def place(lst):
        out = []
        for f in lst:
            if "at" not in f:
                o = f.get("like", f["o"])       # operations of the dry run that resemble those it does not make
                t, inj, seam, _ = counts.get(o, (0, 0, 0, 0))
                n = seam if f.get("seam") else inj
                if not n:
                    continue
                at = 1 + min(n - 1, int(f["frac"]*n))
                firsts = sites.get(o)
                if f.get("site") and firsts and not f.get("seam"):     # the first time some source line is reached
                    at = firsts[min(len(firsts) - 1, int(f["frac"]*len(firsts)))]
                f = {k: v for k, v in f.items() if k not in ("frac", "site", "like")} | {"at": at}
            out.append(f)
        return out
    faults, nested = place(plan.get("faults", [])), place(plan.get("nested", []))
    pre = {}
    sched = plan.get("sched")
    if sched:
        rng = rng_for("sched", plan["seed"])
        for t, ops in enumerate(plan.get("threads", [])):
            evs = [(op["no"], counts.get(op["no"], (0, 0, 0, 0))[3]) for op in ops]
            tot = sum(e for _, e in evs)
            pos = set()
            if tot and sched.get("few"):
                pos |= {rng.randrange(tot) for _ in range(sched["few"])}
            if tot and sched.get("gap"):
                p, cnt = 0, 0
                while cnt < 300:
                    p += 1 + int(rng.expovariate(1./sched["gap"]))
                    if p >= tot:
                        break
                    pos.add(p)
                    cnt += 1
            for p in sorted(pos):
                for n, e in evs:
                    if p < e:
                        pre[t, n, p + 1] = rng.randrange(12)
                        break
                    p -= e
    for t, o, e, r in plan.get("preempt", []):
        pre[t, o, e] = r
    if "nested" in plan:
        plan = dict(plan, nested=nested)
    plan = {k: v for k, v in plan.items() if k != "sites"}
    out = dict(plan, faults=faults, preempt=[[*k, r] for k, r in sorted(pre.items())])
    out.pop("sched", None)
    return out

