"""C18: long loops of calls - new parameters every time, failures, interrupts,
threads that come and go - must not keep more and more memory."""
import array
import copy
import gc
import os
import sys
import tracemalloc
import numpy as np

from . import engine, gen as G, sim, world as W
from .props import Prop

PART = 80               # cycles between two measurements
LONG = 400              # ... once there is a suspicion
OPEN = ("sdc", "sparse", "util", "nodes", "q", "d")


def source_lines():
    for d, dirs, files in os.walk(sim.QMAT_DIR):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                path = os.path.join(d, f)
                with open(path, encoding="utf-8") as fd:
                    n = sum(1 for _ in fd)
                for ln in range(1, n + 1):
                    yield f"{path[len(sim.QMAT_DIR):]}:{ln}"


class MemEngine:
    def __init__(self, plan, ctx, judge=None, trace=True):
        self.plan, self.ctx = plan, ctx
        self.res = engine.Result()
        self.kern = sim.Kernel(trace=plan["trace"])
        self.live = W.World(plan["specs"], W.Expect(None))
        self.no = 0
        self.counts = {}
        self.ok = 0
        # where faults fired, in memory that does not grow
        self.lines = {k: i for i, k in enumerate(source_lines())}
        self.hits = {k: array.array("l", [0]*(len(self.lines) + 1)) for k in ("interrupt", "memory", "linalg")}

    # ----------------------------------------------------------- one cycle
    def items(self, c):
        """the operations of cycle c: same kinds as ever, other values"""
        r = G.rng_for(self.plan["seed"], "cycle", c)
        g = G.Gen(r, heavy=0, scr=0, maxn=5, big=0)
        specs = self.plan["specs"]
        for it in self.plan["mix"]:
            k = it["k"]
            if k == "on":
                op = g.on(specs, it["i"])
                s = specs[it["i"]]
                if s["c"] == "qd" and "k" in op:
                    kdep = W.QD_KIND[s["t"]] in W.KDEP
                    ks = lambda: r.randint(1, 5) if kdep else c*8 + r.randint(1, 8)
                    op["k"] = [ks() for _ in op["k"]] if isinstance(op["k"], list) else (op["k"] and ks())
                yield self.live, op, it
            elif k == "bad":
                yield self.live, g.bad(specs, sorted(self.live.objs) if it.get("own", True) else [], it.get("b")), it
            elif k == "renew":
                yield self.live, {"op": "new", "i": it["i"]}, it
            elif k == "copy":
                w = W.World(specs + [specs[it["i"]]], W.Expect(None))
                w.objs[it["i"]] = self.live.objs.get(it["i"])
                if w.objs[it["i"]] is not None:
                    yield w, {"op": "copy", "i": it["i"], "j": len(specs), "how": r.choice(["copy", "deepcopy", "pickle"])}, it
                    if len(specs) in w.objs:
                        yield w, g.on(w.specs, len(specs)), it
            elif k == "new":        # an object that is used a little and dropped
                s = {"q": g.qgen, "d": g.qd, "l": g.lag, "n": g.ng}[it["m"]]()
                self.vary(r, s)
                w = W.World([s], W.Expect(None))
                yield w, {"op": "new", "i": 0}, it
                for _ in range(r.randint(1, 2)):
                    if 0 in w.objs:
                        yield w, g.on([s], 0), it
            else:
                op = g.call([it["m"]])
                self.vary(r, op.get("spec") or {})
                yield W.World([], W.Expect(None)), op, it

    @staticmethod
    def vary(r, s):
        if s.get("c") == "coll":
            s["tL"] = r.uniform(-1, .4)
            s["tR"] = s["tL"] + r.uniform(.1, 2)
        elif s.get("c") == "lag":
            d = r.uniform(.8, 1.2)
            s["pts"] = [x*d for x in s["pts"]]

    def cycle(self, st, c):
        k = self.kern
        r = G.rng_for(self.plan["seed"], "fault", c)
        for w, op, it in self.items(c):
            op["no"] = no = (it["id"], op["op"])
            k.faults = {}
            if r.random() < self.plan["pfault"]:
                n = self.counts.get(no, 30)
                f = {"at": r.randint(1, max(1, n)), "kind": r.choice(["interrupt", "memory"])}
                if r.random() < .2:
                    f = {"at": r.randint(1, 2), "kind": r.choice(["memory", "linalg"]), "seam": True}
                k.faults = {(st.tid, no): [f]}
            try:
                thunk, guards = w.prepare(op)
            except W.Undefined:
                continue
            except Exception:
                continue
            if thunk is None:
                continue
            self.res.calls += 1
            kind, val = k.call(st, no, thunk)
            if kind == "ok":
                self.ok += 1
            elif kind == "stuck":
                raise val
            else:
                self.res.raised += 1
            if self.plan["trace"]:
                n = k.counts.get((st.tid, no))
                if n:
                    self.counts[no] = min(400, max(n[0], self.counts.get(no, 1)))
            for f in k.fired:
                self.hits[f[2]][self.lines.get(f[3], len(self.lines))] += 1
            k.fired.clear()
            k.counts.clear()
            st.injected = None
            del val, thunk, guards, w, op
        self.live.E = W.Expect(None)
        self.live.group.clear()
        k.visited.clear()
        k.probes.clear()

    def part(self, a, b):
        p = self.plan
        with np.errstate(all="ignore"):
            for c in range(a, b):
                if p["spawn"] and c % p["spawn"] == 0:
                    self.kern.run_threads([lambda st: self.cycle(st, c)])
                else:
                    self.cycle(self.kern.main, c)
        getattr(sys, "_clear_type_cache", int)()     # holds names of attributes that were looked up
        gc.collect()
        gc.collect()
        return sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]

    def run(self):
        p, k = self.plan, self.kern
        for i in range(len(p["specs"])):
            try:
                thunk, _ = self.live.prepare({"op": "new", "i": i})
                thunk()
            except Exception:
                pass
        self.live.args.clear()
        tracemalloc.start(1)
        marks = [self.part(0, PART)]
        for j in range(1, 4):
            marks.append(self.part(j*PART, (j + 1)*PART))
            self.res.checked += 1
        cycles = 4*PART
        if self.grows(marks[1:], PART):
            long = [marks[-1]]
            for j in range(4):
                long.append(self.part(cycles, cycles + LONG))
                cycles += LONG
                if j and not self.grows(long[-2:], LONG):
                    break
            else:
                db, dm = long[-1][0] - long[1][0], long[-1][1] - long[1][1]
                self.res.add("leak", {"op": "loop", "mix": p["mix"], "specs": p["specs"]},
                             f"memory keeps growing: {db/(3*LONG):.1f} objects and {dm/(3*LONG):.0f} bytes more per cycle of {len(p['mix'])} calls, "
                             f"after {cycles} cycles")
        tracemalloc.stop()
        k.log("cycles", cycles)
        return {"viol": self.res.viol, "hash": k.h, "events": k.total, "switches": 0,
                "fired": self.fired_list(),
                "probes": {"cycles": cycles, "suspicions": int(cycles > 4*PART)},
                "counts": [], "sites": [], "calls": self.res.calls, "checked": self.res.checked, "raised": self.res.raised,
                "visited": 0, "info": {"growth": [[b[0] - a[0], b[1] - a[1]] for a, b in zip(marks, marks[1:])]}}

    def fired_list(self):
        names = [*self.lines, "seam"]
        return [[-1, 0, kind, names[i]] for kind, h in self.hits.items() for i, n in enumerate(h) for _ in range(n)]

    @staticmethod
    def grows(marks, n):
        """in each part, by at least three objects in ten cycles or 40 bytes per cycle"""
        return all(b[0] - a[0] >= .3*n or b[1] - a[1] >= 40*n for a, b in zip(marks, marks[1:]))


class C18(Prop):
    id = "C18"
    runs = {"quick": 320, "thorough": 6000}
    judge = {"leak"}
    Engine = MemEngine
    timeout = 200
    rule = ("One case repeats a cycle of 1 to 4 public calls (on living objects, on new ones that are dropped, plain functions, copies, "
            "refused calls) 320 times with new arguments each time, a part of the calls failing at random lines or kernels, some cycles "
            "in threads that end; memory (live blocks and traced bytes, after a garbage collection) is compared every 80 cycles, and over "
            "1600 further cycles where it grew. Non-trivial: at least 100 calls returned; distinct: by history hash.")
    assumptions = ["growth of less than three objects in ten cycles and 40 bytes per cycle is not retained data",
                   "caches of less than some 700 entries fill up and stop growing within the cycles executed"]

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=0, scr=0, maxn=4, big=0)
        specs = g.specs(rng.randint(1, 3)) if rng.random() < .7 else []
        opts = []
        for j, s in enumerate(specs):
            opts += [{"k": "on", "i": j}]*3 + [{"k": "copy", "i": j}] + [{"k": "renew", "i": j}]*("ref" not in s)
        opts += [{"k": "call", "m": m} for m in OPEN] + [{"k": "new", "m": m} for m in "qdln"] + [{"k": "bad", "b": w} for w in rng.sample(G.BAD, 2)] + [{"k": "bad"}]
        mix = [copy.deepcopy(rng.choice(opts)) for _ in range(rng.randint(1, 4))]
        for n, it in enumerate(mix):
            it["id"] = n
        trace = rng.random() < .4
        return {"specs": specs, "mix": mix, "trace": trace, "pfault": rng.choice([.1, .5, 1.]) if trace else 0.,
                "spawn": rng.choice([0, 0, 1, 2])}

    def nontrivial(self, plan, out):
        return out["calls"] - out["raised"] >= 100

    def shrink(self, plan):
        for j in range(len(plan["mix"])):
            if len(plan["mix"]) > 1:
                yield dict(plan, mix=plan["mix"][:j] + plan["mix"][j + 1:])
        if plan["spawn"]:
            yield dict(plan, spawn=0)
        if plan["trace"]:
            yield dict(plan, trace=False, pfault=0.)
