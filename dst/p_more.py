"""C15 (interrupts are delivered), C16 (forked processes), C17 (re-entrant use)."""
import copy
import math
import os
import pickle
import signal
import time
import traceback

from . import engine, gen as G, sim, world as W
from .props import Prop, History, concurrent, families, rel_faults, requery, sched_for, sibling
from .p_registry import RegEngine, RegGen

ALL_CALLS = ["q", "d", "sparse", "sdc", "util", "nodes"]


def reg_history(g, plan, n, plook=.4, **kw):
    """registrations, lookups and general calls in one plan"""
    plan.update(classes=[], X=[], Y=[])
    R = RegGen(g.r, plan, **kw)
    for _ in range(n):
        plan["classes"].append(R.cdef())
    return R


def merge(r, a, b):
    """interleave two lists of operations"""
    out = []
    a, b = list(a), list(b)
    while a or b:
        src = a if a and (not b or r.random() < len(a)/(len(a) + len(b))) else b
        out.append(src.pop(0))
    return out


class RegProp(Prop):
    Engine = RegEngine

    def shrink(self, plan):
        yield from super().shrink(plan)
        if plan.get("classes") and not any(o["op"] in ("reg", "use", "look", "list") for o in engine.all_ops(plan)):
            yield dict(plan, classes=[])
        for key in ("setup", "threads"):
            lists = plan.get(key, [])
            for t, ops in enumerate(lists if key == "threads" else [lists]):
                for j, op in enumerate(ops):
                    for m in range(len(op.get("ops", ()))):
                        new = ops[:j] + [dict(op, ops=op["ops"][:m] + op["ops"][m + 1:])] + ops[j + 1:]
                        yield dict(plan, **{key: new if key == "setup" else lists[:t] + [new] + lists[t + 1:]})
        for j, n in enumerate(plan.get("nested", ())):
            for m in range(len(n["ops"])):
                yield dict(plan, nested=plan["nested"][:j] + [dict(n, ops=n["ops"][:m] + n["ops"][m + 1:])] + plan["nested"][j + 1:])


# ----------------------------------------------------------------------- C15
class C15(RegProp):
    id = "C15"
    runs = {"quick": 1500, "thorough": 30000}
    judge = {"swallowed", "stuck"}
    rule = ("One case is a history of public calls on generators, approximations and registries (one thread, or 2 to 3 under a seeded "
            "schedule) in which about half of the calls are hit by a KeyboardInterrupt or SystemExit, at a line of qmat drawn uniformly "
            "from the events or from the distinct lines the call executes, or inside a numpy/scipy kernel; every hit call has to end with that very "
            "kind of exception. Non-trivial: at least one interrupt was delivered; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=rng.choice([0, 0, .1]), scr=0, maxn=rng.choice([2, 3, 5]), big=.01)
        plan = {}
        R = reg_history(g, plan, rng.randint(1, 4), pclash=.1)
        specs = g.specs(rng.randint(1, 4)) if rng.random() < .6 else families(g, rng.choice([g.lag, g.qd, g.qgen]), rng.randint(1, 4))
        calls = [lambda: g.call(ALL_CALLS), lambda: g.call(ALL_CALLS), R.look]
        threads = rng.random() < .2
        if threads:
            nt = rng.choice([2, 2, 3])
            setup, th, live = concurrent(g, specs, nt, rng.randint(2, 4), calls)
            for t in th:
                t += R.stream(rng.randint(1, 2), .3)
            plan.update(specs=specs, setup=setup, threads=th, sched=sched_for(rng), gran="line", fin=[rng.randrange(12) for _ in range(nt + 1)])
        else:
            h = History(g, specs, calls, bad=.1, redo=.3)
            ops = merge(rng, h.fill(rng.randint(6, 16)), R.stream(rng.randint(2, 8), .3))
            plan.update(specs=specs, setup=ops, trace=True)
        n = sum(1 for _ in engine.all_ops(plan))
        rel_faults(rng, plan, max(1, n//2), kinds=("interrupt", "interrupt", "exit"), seam_kinds=("interrupt",), seam=.15)
        return plan

    def nontrivial(self, plan, out):
        return bool(out["fired"])


# ----------------------------------------------------------------------- C16
class ForkEngine(RegEngine):
    CHILD_TIMEOUT = 45

    def before(self):
        super().before()
        self.inflight = {}

    def step(self, st, op):
        if op["op"] == "fork":
            self.fork_step(st, op)
            return
        self.inflight[st.tid] = op
        super().step(st, op)
        self.inflight.pop(st.tid, None)

    def fork_step(self, st, op):
        k = self.kern
        k.log("fork", st.tid, op["no"])
        k.probe("forks")
        if any(t != st.tid for t in self.inflight):
            k.probe("forks while other threads are inside calls")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = ("ok", self.child(st, op))
                except BaseException as e:
                    out = ("err", "".join(traceback.format_exception(e)))
                engine._send(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        try:
            kind, out = pickle.loads(engine._recv(r, time.monotonic() + self.CHILD_TIMEOUT))
        except TimeoutError:
            os.kill(pid, signal.SIGKILL)
            kind, out = "hang", None
        except EOFError:
            kind, out = "died", None
        finally:
            os.close(r)
            os.waitpid(pid, 0)
        if kind == "err":
            raise RuntimeError("forked child: " + out)
        if kind in ("hang", "died"):
            self.violation("stuck", op, "the forked process " + ("does not come back" if kind == "hang" else "died"))
            return
        viol, calls, checked, raised, h = out
        self.res.calls += calls
        self.res.checked += checked
        self.res.raised += raised
        k.log("child", h)
        for v in viol:
            self.res.viol.append(dict(v, op={"op": "fork", "no": op["no"], "in the child": v["op"]}))

    def child(self, st, op):
        """what the forked process does: only this thread exists in it"""
        k = self.kern
        k.threads_live = [st]
        k.deadlock = k.livelock = False
        k.trace = False
        k.preempt, k.faults, k.nested = {}, {}, {}
        st.blocked = None
        self.res = engine.Result()
        for tid, o in self.inflight.items():
            if o["op"] == "reg":        # may or may not have been completed
                self.hist.append({"op": o, "s": self.starts[o["no"]], "e": 1 << 60, "ok": False,
                                  "val": None, "fired": True})
        self.inflight = {}
        try:
            for o in op["ops"]:
                self.step(st, o)
                if k.deadlock:
                    break
            if not k.deadlock:
                self.after()
        except (sim.SimDeadlock, sim.SimLivelock) as e:
            self.violation("stuck", op, f"{type(e).__name__}: {e}")
        r = self.res
        return r.viol, r.calls, r.checked, r.raised, k.h


class C16(RegProp):
    id = "C16"
    runs = {"quick": 900, "thorough": 20000}
    judge = {"registry", "value", "exception", "stuck", "refused"}
    Engine = ForkEngine
    timeout = 150
    rule = ("One case is 1 to 4 threads of public calls and registrations under a seeded schedule, some of them interrupted, in which "
            "threads fork the process at random moments (the others being anywhere inside their calls); every child, a real forked "
            "process in which only the forking thread exists, goes on with calls on inherited and new objects, registrations and "
            "lookups; all answers in children and in the parent are compared with the models and the registry model. Non-trivial: at least one "
            "fork and 3 answers compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=0, scr=rng.choice([0, .3]), maxn=rng.choice([2, 3, 4]), big=0)
        plan = {}
        R = reg_history(g, plan, rng.randint(1, 5))
        specs = g.specs(rng.randint(1, 3)) if rng.random() < .5 else families(g, rng.choice([g.lag, g.qd, g.qgen]), rng.randint(1, 3))
        calls = [lambda: g.call(ALL_CALLS), R.look]
        nt = rng.choice([1, 2, 2, 2, 3, 4])
        setup, th, live = concurrent(g, specs, nt, rng.randint(1, 4), calls)
        for t in th:
            reg = R.stream(rng.randint(1, 3), .3)
            t[:] = merge(rng, t, reg)
        known = [o for t in th for o in t if o["op"] not in ("new", "reg")]

        def sub():
            ops = []
            for _ in range(rng.randint(2, 7)):
                c = rng.random()
                if c < .3 and live:
                    ops.append(g.on(specs, rng.choice(live)))
                elif c < .45 and known:      # what the others are busy with
                    ops.append(copy.deepcopy(rng.choice([o for o in known if o.get("i") is None or o["i"] in live] or [R.look()])))
                elif c < .7:
                    ops += R.stream(1, .2)
                elif c < .8:
                    j = len(specs)
                    specs.append(rng.choice([g.qgen, g.qd, g.lag])())
                    ops += [{"op": "new", "i": j}, g.on(specs, j)]
                else:
                    ops.append(g.call(ALL_CALLS))
            return ops
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.choice(th)
            t.insert(rng.randint(0, len(t)), {"op": "fork", "ops": sub()})
        plan.update(specs=specs, setup=setup, threads=th, final=requery(g, specs, live, 1) + R.stream(2, 1.),
                    sched=sched_for(rng), gran="opcode" if rng.random() < .25 else "line", fin=[rng.randrange(12) for _ in range(nt + 1)])
        if rng.random() < .25:
            rel_faults(rng, plan, rng.randint(1, 2), where=lambda o: o["op"] not in ("fork",))
        return plan

    def nontrivial(self, plan, out):
        return out["probes"].get("forks", 0) >= 1 and out["checked"] >= 3


# ----------------------------------------------------------------------- C17
class NestEngine(RegEngine):
    def before(self):
        super().before()
        import numpy as np
        self.err = np.geterr()
        self.strict = False
        if any(n.get("sig") for n in self.plan.get("nested", ())):
            signal.signal(signal.SIGINT, self.kern.on_signal)

    def run_nested(self, st, ops):
        import numpy as np
        self.kern.probe("nested")
        old, self.strict = self.strict, np.geterr() != self.err
        try:
            super().run_nested(st, ops)
        finally:
            self.strict = old

    def after_exc(self, st, op, exc, tainted, exp):
        if self.strict and isinstance(exc, FloatingPointError):     # asked for by the interrupted code, as for any code
            return
        super().after_exc(st, op, exc, tainted, exp)


class C17(RegProp):
    id = "C17"
    runs = {"quick": 1500, "thorough": 30000}
    judge = {"registry", "value", "exception", "stuck", "refused"}
    Engine = NestEngine
    rule = ("One case is a sequential history of public calls in which up to half of the calls are interrupted in the middle, at a line of "
            "qmat drawn from the events or from the distinct lines they execute, by one to three complete other calls in the same thread (as a "
            "signal handler or a finaliser makes them; in half of the cases they are made by the handler of a signal the process sends "
            "itself at that line, and can be interrupted in the same way, up to 5 deep), on the same object, on nearly equal ones or on others; the answers of the inner calls, of "
            "the interrupted calls and of all later ones are compared with the models. Non-trivial: at least one nested call and 3 "
            "answers compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=rng.choice([0, 0, .1]), scr=rng.choice([0, .4]), maxn=rng.choice([2, 3, 4, 6]), big=.01)
        plan = {}
        R = reg_history(g, plan, rng.randint(2, 5), pclash=.05, pflaw=.1)
        if rng.random() < .3:
            g.kinds = list(W.KDEP) + rng.sample(g.kinds, 2)
        specs = g.specs(rng.randint(1, 4)) if rng.random() < .5 else families(g, rng.choice([g.lag, g.qd, g.qgen]), rng.randint(1, 4))
        calls = [lambda: g.call(ALL_CALLS), lambda: g.call(ALL_CALLS), R.look]
        h = History(g, specs, calls, bad=.05, redo=.3)
        ops = h.fill(rng.randint(5, 14))
        regs = list(range(len(plan["classes"])))
        rng.shuffle(regs)
        half = len(regs)//2         # classes registered by the history, and those registered in the middle of it
        outer = [{"op": "reg", "c": c, "api": R.api(c)} for c in regs[:half]]
        inner = [{"op": "reg", "c": c, "api": R.api(c)} for c in regs[half:]]
        names = [set([d["name"]] + list(d.get("aliases") or [])) for d in plan["classes"]]
        for a in regs[half:]:
            if any(names[a] & names[b] for b in regs if b != a):
                inner = [o for o in inner if o["c"] != a]
        ops = merge(rng, ops, outer)
        plan.update(specs=specs, setup=ops, trace=True, sites=True)
        if rng.random() < .35:
            g.cfg["heavy"] = rng.choice([0, .2, .5])
            self.chain(g, plan)
            plan["final"] = requery(g, plan["specs"], list(range(len(plan["specs"]))), 1)
            return engine.number(plan)
        engine.number(plan)
        made, nested = set(), []
        for op in ops:
            if op["op"] == "new":
                made.add(op["i"])
            if rng.random() < .5:
                sub = []
                for _ in range(rng.randint(1, 3)):
                    c = rng.random()
                    ok = sorted(x for x in made if x != op.get("i") or op["op"] != "new")
                    if c < .4 and op.get("i") in ok:
                        sub.append(g.on(specs, op["i"]))
                    elif c < .5 and op["op"] not in ("new", "reg", "bad", "copy"):
                        sub.append({k: v for k, v in copy.deepcopy(op).items() if k != "no"})
                    elif c < .65 and ok:
                        sub.append(g.on(specs, rng.choice(ok)))
                    elif c < .75:
                        j = len(specs)
                        s = copy.deepcopy(specs[op["i"]]) if op.get("i") is not None else None
                        specs.append(s if s is not None and "ref" not in s else rng.choice([g.qgen, g.qd, g.lag])())
                        sub += [{"op": "new", "i": j}, g.on(specs, j)]
                    elif c < .85 and inner:
                        sub.append(inner.pop())
                    else:
                        sub.append(rng.choice(calls)())
                f = {"t": -1, "o": op["no"], "frac": rng.random(), "ops": sub}
                if rng.random() < .5:
                    f["site"] = True
                nested.append(f)
        plan["nested"] = nested
        if rng.random() < .4:
            self.deepen(g, plan, made)
        plan["final"] = requery(g, specs, [x for x in h.live], 1)
        for s in ("Q", "D", "RK"):
            plan["final"].append({"op": "list", "d": s})
        return engine.number(plan)

    def deepen(self, g, plan, made):
        """interrupt the interrupting calls too"""
        rng, specs = g.r, plan["specs"]
        level = plan["nested"]
        for f in level:
            f["sig"] = True
        for depth in range(rng.choice([1, 2, 3])):
            engine.number(plan)
            deeper = []
            for f in level:
                for op in f["ops"]:
                    if rng.random() > .6:
                        continue
                    ok = sorted(x for x in made if x != op.get("i") or op["op"] != "new")
                    if not ok or rng.random() < .4 and op["op"] not in ("new", "reg", "bad", "copy"):
                        sub = [{k: v for k, v in copy.deepcopy(op).items() if k != "no"}]
                    elif ok:
                        sub = [g.on(specs, op["i"] if op.get("i") in ok and rng.random() < .5 else rng.choice(ok))]
                    if any(o["op"] in ("new", "reg") for o in sub):
                        continue
                    deeper.append({"t": -1, "o": op["no"], "at": int(math.exp(rng.uniform(0, 5))), "ops": sub, "sig": True})
            plan["nested"] = plan["nested"] + deeper
            level = deeper

    def chain(self, g, plan):
        """Each object is first used in the middle of the first use of the previous one"""
        rng = g.r
        n = rng.randint(3, 5)
        if rng.random() < .6:
            kind = rng.choice(list(W.QD_ALIASES) + ["MIN_SR_S"]*6 + ["MIN_SR_FLEX", "LDU", "MIN3"])
            g.kinds = list(W.QD_ALIASES)
            src = g.table_src() if kind in W.TABLE else g.coll(n=rng.choice([2, 2, 3])) if kind == "MIN_SR_S" else g.src()
            base = g.qd(src, kind if g.ok_kind(kind, src, 1.) else None)
        else:
            base = rng.choice([g.lag, g.qgen])()
        specs = [base]
        for _ in range(n - 1):
            s = rng.choice(specs)
            specs.append(copy.deepcopy(s) if rng.random() < .5 or "ref" in s else sibling(g, s))
        plan["specs"] = specs
        rng.shuffle(specs)
        first = rng.random() < .5
        plan["setup"] = [{"op": "new", "i": j} for j in range(n if first else 1)]
        call = g.on(specs, 0)
        plan["setup"].append(call)
        engine.number(plan)
        outer, plan["nested"], like = call, [], call["no"]
        for j in range(1, n):
            j = rng.choice([j, j, j, 0])
            op = {k: v for k, v in copy.deepcopy(call).items() if k != "no"} | {"i": j} if rng.random() < .7 and g.applies(call, specs[j]) else g.on(specs, j)
            ops = ([] if first or not j else [{"op": "new", "i": j}]) + [op]
            f = {"t": -1, "o": outer["no"], "like": like, "frac": rng.random(), "ops": ops, "sig": True}
            if rng.random() < .7:
                f["site"] = True
            plan["nested"].append(f)
            engine.number(plan)
            outer = op

    def nontrivial(self, plan, out):
        return out["probes"].get("nested", 0) >= 1 and out["checked"] >= 3
