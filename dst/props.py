"""The properties decided by running histories, schedules and faults on the
public API (C01-C04, C06, C07, C12-C14); the others have modules of their own."""
import copy
import json
import sys

from . import engine, gen as G, sim, world as W
from .world import QD_KIND, RK


def small(pts):
    """the unit of changes to points: 1, except on tiny grids"""
    w = max(pts) - min(pts) or max(map(abs, pts)) or 1.
    return 1. if w > .01 else w


class Prop:
    id = None
    runs = {"quick": 400, "thorough": 20000}
    judge = {"value", "exception", "stuck"}
    Engine = engine.Engine
    rule = ""
    assumptions = ["the reference models in dst/ref.py", "numpy and scipy kernels are deterministic for equal inputs"]
    components = {"real": ["all of qmat from /repo", "numpy", "scipy", "CPython"],
                  "simulated": ["choice of the running thread", "locks created by qmat",
                                "failures of numpy/scipy kernels, of memory allocation, interrupts"]}

    def rng(self, seed, i):
        return G.rng_for(self.id, seed, i)

    def zygote(self):
        sim.install_locks()
        sim.install_seams()
        import scipy.sparse     # noqa: F401  (imported lazily by qmat)
        W.load()
        import warnings
        warnings.simplefilter("ignore")
        sys.stdout = sim.Sink()         # results of executions go through pipes

    def execute(self, plan, ctx):
        return self.Engine(plan, ctx, self.judge, trace=plan.get("trace", True)).run()

    def nontrivial(self, plan, out):
        return out["checked"] >= 3

    def shrink(self, plan):
        """further simplifications tried by the minimiser"""
        for key in ("setup", "final"):
            for j, op in enumerate(plan.get(key, [])):
                for f in simpler(op):
                    yield dict(plan, **{key: plan[key][:j] + [f] + plan[key][j + 1:]})
        if plan.get("gran") == "opcode" and not plan.get("preempt"):
            yield dict(plan, gran="line")

    def make(self, rng, i, tier):
        raise NotImplementedError


def simpler(op):
    if op.get("scr") and op["op"] != "new":
        yield dict(op, scr=None)
    if op.get("ts") and isinstance(op["ts"], list) and len(op["ts"]) > 2 and op["op"] in ("l.int", "extra"):
        yield dict(op, ts=op["ts"][:len(op["ts"])//2])
    if op.get("ivs") and len(op["ivs"]) > 1:
        yield dict(op, ivs=op["ivs"][:len(op["ivs"])//2])
    if isinstance(op.get("k"), list) and len(op["k"]) > 1:
        yield dict(op, k=op["k"][1:])
        yield dict(op, k=op["k"][:-1])


# ------------------------------------------------------------ building blocks
def sibling(g, s):
    """a spec that differs in one field (what an incomplete cache key forgets)"""
    r = g.r
    s = copy.deepcopy(s)
    if s["c"] == "coll":
        f = r.choice(["n", "nt", "qt", "iv", "iv", "iv1", "iv1", "near", "swap", "swap"])
        if f == "n":
            s["n"] = max(2 if s["qt"] in ("LOBATTO", "RADAU-LEFT") else 1, s["n"] + r.choice([-1, 1]))
        elif f == "nt":
            s["nt"] = r.choice(["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"])
        elif f == "qt":
            s["qt"] = r.choice(["GAUSS", "LOBATTO", "RADAU-RIGHT", "RADAU-LEFT"])
            if s["qt"] in ("LOBATTO", "RADAU-LEFT"):
                s["n"] = max(2, s["n"])
        elif f == "iv":
            if "tL" in s and g.chance(.4):
                s.pop("tL"), s.pop("tR", None)
            else:
                s["tL"], s["tR"] = r.choice(G.INTERVALS)
        elif f == "swap":       # the same value for the other bound
            v = s.get("tL", s.get("tR", .5))
            if ("tL" in s) == ("tR" in s) or not 0 < v < 1:
                s.pop("tL", None), s.pop("tR", None)
                s[r.choice(["tL", "tR"])] = r.choice([.5, .25])
            else:
                x, y = ("tL", "tR") if "tL" in s else ("tR", "tL")
                s[y] = s.pop(x)
        elif f == "near":       # almost the same interval
            tL, tR = s.get("tL", 0.), s.get("tR", 1.)
            d = (tR - tL)*r.choice([1, -1])*10.**r.uniform(-6, -2)
            s["tL"], s["tR"] = (tL + d, tR) if g.chance(.5) else (tL, tR + d)
        else:       # one bound only
            tL, tR = s.get("tL", 0.), s.get("tR", 1.)
            if g.chance(.5):
                s["tL"], s["tR"] = tL, tR + r.choice([1., 0.5, 2.])
            else:
                s["tL"], s["tR"] = tL - r.choice([1., 0.5, 0.25]), tR
    elif s["c"] == "rk":
        if g.chance(.7):
            s["pad"] = r.choice([None, "LEFT", "RIGHT", "BOTH"])
            if s["pad"] is None:
                s.pop("pad")
        else:
            s["name"] = r.choice(sorted(RK))
    elif s["c"] == "raw":
        i = r.randrange(s["n"])
        s["Q"][i][i] += r.choice([1, .5])
        s["pts"][-1] += r.choice([1, .5])*small(s["pts"])
    elif s["c"] == "qd" and "src" in s:
        if g.chance(.5):
            t = sibling(g, s["src"])
            for x in ("tL", "tR"):
                t.pop(x, None)
            if g.ok_kind(QD_KIND[s["t"]], t, .05):
                s["src"] = t
                if s.pop("tL", None) is not None and QD_KIND[s["t"]] in W.TIMESTEP and t["c"] == "coll":
                    iv = r.choice(G.INTERVALS)
                    s["src"] = dict(t, tL=iv[0], tR=iv[1])
                    s["tL"] = iv[0]
        else:
            k = g.kind_for(s["src"], .05)
            if "tL" not in s and k != "MIN":
                s["t"] = g.alias(k)
    elif s["c"] == "lag":
        f = r.choice(["pts", "wc", "dup", "fv", "scale"])
        if f == "pts":
            old = s["pts"]
            p, d = r.choice(old), r.choice([1e-3, .01, -.007])*small(old)
            new = [x + d if x == p else x for x in old]
            if gap(new) > .5*gap(old):
                s["pts"] = new
        elif f == "wc":
            s["wc"] = r.choice(["AUTO", "FAST", "STABLE", "CHEBFUN"])
        elif f == "dup":
            s["dup"] = "USE_RIGHT" if s.get("dup", "USE_LEFT") == "USE_LEFT" else "USE_LEFT"
        elif f == "fv":
            s["fv"] = [g.num(-2, 2) for _ in s["pts"]]
        else:
            s["pts"] = [2*x + .5*small(s["pts"]) for x in s["pts"]]
    return s


def gap(pts):
    u = sorted(set(pts))
    return min((y - x for x, y in zip(u, u[1:])), default=float("inf"))


def families(g, base, n):
    """n specs around a few base specs: equal ones and siblings"""
    r = g.r
    out = []
    for _ in range(n):
        if out and g.chance(.75):
            s = r.choice(out)
            out.append(copy.deepcopy(s) if g.chance(.3) else sibling(g, s))
        else:
            out.append(base())
    return out


class History:
    """Builds one sequential history over a set of object specs"""

    def __init__(self, g, specs, calls=(), bad=.08, scr_attr=.0, scr_arg=.0, redo=.1, burst=.3):
        self.g, self.r, self.specs = g, g.r, specs
        self.calls, self.bad, self.scr_attr, self.scr_arg, self.redo, self.burst = \
            calls, bad, scr_attr, scr_arg, redo, burst
        self.live = []
        self.ops = []

    def new(self, i):
        s = self.specs[i]
        if "ref" in s and s["ref"] not in self.live:
            self.new(s["ref"])
        self.ops.append({"op": "new", "i": i})
        if i not in self.live:
            self.live.append(i)

    def one(self, ids=None):
        r, g = self.r, self.g
        c = r.random()
        ids = ids or range(len(self.specs))
        if c < self.bad:
            self.ops.append(g.bad(self.specs, self.live))
            return
        c -= self.bad
        if self.calls and c < .25:
            self.ops.append(r.choice(self.calls)())
            return
        i = r.choice(list(ids))
        if i not in self.live or g.chance(self.redo):
            self.new(i)
        if self.scr_attr and g.chance(self.scr_attr):
            s = self.specs[i]
            attrs = {"coll": ["nodes", "weights", "Q"], "rk": ["nodes", "weights", "Q", "b2", "A", "b", "c"],
                     "qd": ["_QDelta", "Q", "nodes", "deltas"], "lag": ["points", "weights", "fValues"], "ng": ["nodes"]}[s["c"]]
            self.ops.append({"op": "scr.attr", "i": i, "a": r.sample(attrs, r.randint(1, len(attrs))),
                             "mode": r.choice(G.SCR)})
            return
        if self.scr_arg and g.chance(self.scr_arg):
            self.ops.append({"op": "scr.arg", "i": i, "mode": r.choice(G.SCR)})
        if self.specs[i]["c"] == "qd" and g.chance(.1):
            self.ops += g.sweeps(i, self.specs[i], g.src_of(self.specs, i))
            if g.chance(.15):
                self.ops.append(g.bad(self.specs, [i]))
            return
        for _ in range(1 if not g.chance(self.burst) else r.randint(2, 5)):
            self.ops.append(g.on(self.specs, i))
        if self.specs[i]["c"] == "qd" and g.chance(self.bad/2):
            self.ops.append(g.bad(self.specs, [i]))

    def fill(self, n):
        while len(self.ops) < n:
            self.one()
        return self.ops

    def final(self, specs_fn=True):
        """ask everything that is alive again"""
        g, r = self.g, self.r
        out = []
        for i in self.live:
            for _ in range(2):
                op = g.on(self.specs, i)
                op["scr"] = None
                out.append(op)
        return out


def requery(g, specs, ids, m=2):
    out = []
    for i in ids:
        for _ in range(m):
            op = g.on(specs, i)
            op["scr"] = None
            out.append(op)
    return out


def rel_faults(rng, plan, n, kinds=("interrupt", "memory"), seam_kinds=("linalg", "memory", "fpe"), seam=.35,
               where=None, avoid_fpe=True):
    """n faults at random relative positions of random operations"""
    engine.number(plan)
    cand = []
    for t, ops in [(-1, plan.get("setup", []))] + list(enumerate(plan.get("threads", []))):
        for op in ops:
            if op["op"] in ("scr.attr", "scr.arg") or (where and not where(op)):
                continue
            cand.append((t, op))
    faults = []
    used = set()
    for _ in range(n):
        if not cand:
            break
        t, op = rng.choice(cand)
        if op["no"] in used:
            continue
        used.add(op["no"])
        f = {"t": t, "o": op["no"], "frac": rng.random(), "kind": rng.choice(list(kinds))}
        if seam_kinds and rng.random() < seam:
            f["seam"] = True
            f["kind"] = rng.choice(list(seam_kinds))
        elif rng.random() < .5:     # any line the call executes is as likely as any other
            f["site"] = plan["sites"] = True
        faults.append(f)
    plan["faults"] = faults
    return plan


def retry(rng, plan, p=.7):
    """After an operation hit by a fault the caller often asks again"""
    hit = {f["o"] for f in plan.get("faults", ())}
    for lst in [plan.get("setup", [])] + plan.get("threads", []):
        j = 0
        while j < len(lst):
            if lst[j].get("no") in hit and rng.random() < p and lst[j]["op"] != "bad":
                again = dict(lst[j])
                again.pop("no")
                lst.insert(j + 1, again)
                j += 1
            j += 1
    # permanent numbers: existing ones stay
    top = 1 + max((op.get("no", -1) for op in engine.all_ops(plan)), default=-1)
    for op in engine.all_ops(plan):
        if "no" not in op:
            op["no"] = top
            top += 1
    return plan


# ----------------------------------------------------------------------- C01
class C01(Prop):
    id = "C01"
    runs = {"quick": 2500, "thorough": 40000}
    rule = ("One case is a history of public Q-coefficient calls (12 to 300 operations) on several objects from one or two families of "
            "nearly equal specs, with re-creation, refused calls, callers overwriting results and attributes, and in a quarter of the "
            "cases interrupted calls; every answer is compared with an independent model of the method. Non-trivial: at "
            "least 3 answers compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=.02, scr=rng.choice([.0, .4, .8]))
        specs = families(g, g.qgen, rng.randint(2, 7))
        nq = len(specs)
        if rng.random() < .4:
            specs += g.specs(rng.randint(1, 2), ("d", "l"))
            for s in specs[nq:]:
                if "ref" in s:
                    s["ref"] += nq
        if rng.random() < .15:
            specs += [g.ng() for _ in range(rng.randint(1, 2))]
        calls = [lambda: g.q_fn(copy.deepcopy(rng.choice(specs[:nq])))]*4 + [g.nodes, g.q_inst, lambda: g.d_fn(self.plain(rng.choice(specs[:nq])))]
        h = History(g, specs, calls, scr_attr=.1 if rng.random() < .6 else 0, redo=rng.choice([.05, .4]))
        length = rng.randint(12, 40) if rng.random() < .95 else rng.randint(120, 300)
        ops = h.fill(length)
        fin = requery(g, specs, h.live) + [dict(g.q_fn(copy.deepcopy(s)), scr=None) for s in specs[:nq]]
        # and once more on fresh objects
        for j in range(nq):
            fin += [{"op": "new", "i": j}] + requery(g, specs, [j], 2)
        plan = {"specs": specs, "setup": ops, "final": fin, "trace": False}
        if rng.random() < .25 and length < 100:
            plan["trace"] = True
            rel_faults(rng, plan, rng.randint(1, 3))
            retry(rng, plan)
        return plan

    @staticmethod
    def plain(s):
        s = {k: v for k, v in s.items() if k not in ("tL", "tR")}
        return s


# ----------------------------------------------------------------------- C02
class C02(Prop):
    id = "C02"
    judge = {"value", "exception", "stuck", "refused"}
    runs = {"quick": 2800, "thorough": 40000}
    rule = ("One case is a history of getQDelta / getSDelta / genCoeffs / dTau / genQDeltaCoeffs calls with varying k on QDelta "
            "objects of related specs (same type on other nodes, other type on the same nodes), with refused calls, caller writes "
            "into results and, in a quarter of the cases, interrupted calls; every answer is compared with a closed form or with the first "
            "answer of a fresh process. Non-trivial: at least 3 answers compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=rng.choice([.02, .02, .3]), scr=rng.choice([.0, .4, .8]), maxn=rng.choice([2, 3, 4, 5, 7]))
        if rng.random() < .4:        # iteration dependent types
            g.kinds = list(W.KDEP) + rng.sample(g.kinds, 2)
        specs = families(g, g.qd, rng.randint(1, 5))
        if rng.random() < .4:        # objects on a shared generator
            src = g.coll() if rng.random() < .7 else g.rk()
            j = len(specs)
            specs.append(src)
            for _ in range(rng.randint(1, 3)):
                k = g.kind_for(src)
                specs.append({"c": "qd", "t": g.alias(k), "ref": j})
        srcs = [s["src"] for s in specs if "src" in s and ("tL" not in s or s["src"]["c"] == "raw")] + [s for s in specs if s["c"] in ("coll", "rk")]
        calls = [lambda: g.d_fn(copy.deepcopy(rng.choice(srcs)) if srcs and rng.random() < .7 else None)]
        h = History(g, specs, calls, bad=.12, redo=rng.choice([.02, .2]), burst=.6,
                    scr_arg=rng.choice([0, 0, .2]), scr_attr=rng.choice([0, 0, .05]))
        length = rng.randint(12, 45) if rng.random() < .95 else rng.randint(120, 300)
        ops = h.fill(length)
        if rng.random() < .15:       # generators that live for one call, of the same nodes or size
            names = rng.choice(W.RK_TWINS if rng.random() < .7 else W.RK_SIZES)
            ts = []
            for _ in range(rng.randint(10, 40)):
                op = g.d_fn({"c": "rk", "name": rng.choice(names)})
                if rng.random() < .8:
                    op.update(via="qGen", scr=None)
                    if isinstance(op["types"], str) and ts and g.ok_kind(QD_KIND[ts[0]], op["src"], .05):
                        op["types"] = ts[0]
                    ts = [op["types"]] if isinstance(op["types"], str) else ts
                ops.append(op)
        fin = requery(g, specs, h.live, 3)
        plan = {"specs": specs, "setup": ops, "final": fin, "trace": False}
        if rng.random() < .25 and length < 100:
            plan["trace"] = True
            rel_faults(rng, plan, rng.randint(1, 3), where=light(specs))
            retry(rng, plan)
        return plan


def kind_of(op, specs):
    """the QDelta kinds an operation may evaluate"""
    if op["op"] == "d.fn":
        ts = [op["types"]] if isinstance(op["types"], str) else op["types"]
        return [QD_KIND[t] for t in ts]
    i = op.get("i")
    if i is not None and specs[i]["c"] == "qd":
        return [QD_KIND[specs[i]["t"]]]
    return []


def light(specs):
    """operations in which a floating point error cannot be swallowed by a
    scipy optimiser"""
    return lambda op: not any(k in ("MIN", "MIN_SR_S") for k in kind_of(op, specs))


# ----------------------------------------------------------------------- C03
def sched_for(rng):
    c = rng.random()
    if c < .45:
        return {"few": rng.randint(1, 4)}
    if c < .6:
        return {"few": rng.randint(5, 12)}
    return {"gap": rng.choice([2, 4, 8, 16, 40])}


def concurrent(g, specs, nthreads, nops, calls=(), herd=.5, share=.9, bad=.03):
    """Threads working mostly on shared objects, often on the same one at once"""
    r = g.r
    setup, live = [], []
    h = History(g, specs, (), bad=0)
    for i in range(len(specs)):
        if r.random() < share:
            h.new(i)
    setup = h.ops
    live = list(h.live)
    # some objects have already been used
    for i in live:
        if r.random() < .2:
            setup.append(dict(g.on(specs, i), scr=None))
    threads = [[] for _ in range(nthreads)]
    priv = [i for i in range(len(specs)) if i not in live]
    nxt = len(specs)
    for t in range(nthreads):
        mine = []
        while len(threads[t]) < nops:
            c = r.random()
            if c < bad and live:
                threads[t].append(g.bad(specs, live))
            elif calls and c < .3:
                threads[t].append(r.choice(calls)())
            elif c < .4 or not live:
                # an object of its own, often a twin of a shared one
                s = copy.deepcopy(specs[r.choice(range(len(h.specs)))]) if r.random() < .7 else None
                if s is None or "ref" in s:
                    s = r.choice([g.qgen, g.qd, g.lag]*3 + [g.ng])()
                specs.append(s)
                mine.append(nxt)
                threads[t].append({"op": "new", "i": nxt})
                threads[t].append(g.on(specs, nxt))
                nxt += 1
            elif mine and c < .5:
                threads[t].append(g.on(specs, r.choice(mine)))
            else:
                i = r.choice(live)
                op = g.on(specs, i)
                threads[t].append(op)
                if r.random() < herd:       # the others ask for the same, or nearly so
                    for u in range(nthreads):
                        if u != t and r.random() < .8:
                            threads[u].append(copy.deepcopy(op) if r.random() < .5 else g.on(specs, i))
    return setup, threads, live


class C03(Prop):
    id = "C03"
    runs = {"quick": 1000, "thorough": 30000}
    rule = ("One case is 2 to 4 threads issuing 3 to 8 public calls each on shared and private objects under one seeded schedule "
            "(1 to 300 preemptions at source lines or bytecodes of qmat), executed after a serial dry run of the same calls; "
            "every answer, during and after the concurrent phase, is compared with the model value. "
            "Non-trivial: at least one context switch inside a call and 3 answers compared; distinct: by history hash.")
    assumptions = Prop.assumptions + ["a thread switch happens only at bytecode boundaries of qmat code, and "
                                      "calls into numpy/scipy are atomic (they are under the GIL of CPython as far as qmat's data is concerned)"]

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=rng.choice([.0, .0, .1]), scr=rng.choice([0, .2]), maxn=rng.choice([2, 3, 4, 6]), big=.01)
        mode = rng.random()
        if mode < .35:
            if rng.random() < .5:
                g.kinds = list(W.KDEP) + rng.sample(g.kinds, 2)
            specs = families(g, g.qd, rng.randint(1, 3))
        elif mode < .55:
            specs = families(g, g.qgen, rng.randint(1, 3))
        elif mode < .7:
            specs = families(g, g.lag, rng.randint(1, 3))
        else:
            specs = g.specs(rng.randint(1, 4))
        nt = rng.choice([2, 2, 2, 3, 4])
        calls = [lambda: g.call(["q", "d", "d", "sparse", "sdc", "util", "nodes"])]
        if rng.random() < .4:       # all threads make calls of one kind
            m = rng.choice(["q", "d", "sparse", "sdc", "util", "nodes"])
            calls = [lambda: g.call([m])]
        elif rng.random() < .3:     # or even the same call, or nearly the same
            tmpl = [g.call(["q", "d", "sdc", "nodes", "sparse"]) for _ in range(2)]
            calls = [lambda: copy.deepcopy(rng.choice(tmpl))]
        setup, threads, live = concurrent(g, specs, nt, rng.randint(2, 6), calls)
        plan = {"specs": specs, "setup": setup, "threads": threads, "final": requery(g, specs, live, 2),
                "sched": sched_for(rng), "gran": "opcode" if rng.random() < .35 else "line",
                "fin": [rng.randrange(12) for _ in range(nt + 1)]}
        return plan

    def nontrivial(self, plan, out):
        return out["switches"] >= 1 and out["checked"] >= 3


# ----------------------------------------------------------------------- C04
class C04(Prop):
    id = "C04"
    runs = {"quick": 1300, "thorough": 30000}
    rule = ("One case is a history (60 %: sequential, 40 %: 2 to 3 threads) of public calls with 1 to 4 faults placed inside calls: an "
            "interrupt or allocation failure at a traced line of qmat, or an error raised by a numpy/scipy kernel; the failed "
            "call is often repeated, and all later answers are compared with the model. Non-trivial: a fault fired and 3 answers "
            "compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        if rng.random() < .3:
            return self.focus(rng)
        if rng.random() < .1:
            return self.optim(rng)
        if rng.random() < .12:
            return self.stubborn(rng)
        heavy = rng.choice([0, 0, .2])
        g = G.Gen(rng, heavy=heavy, scr=rng.choice([0, .3]), maxn=rng.choice([2, 3, 4, 6]), big=.01)
        mode = rng.random()
        if mode < .5:
            if rng.random() < .5:
                g.kinds = list(W.KDEP) + rng.sample(g.kinds, 2)
            specs = families(g, g.qd, rng.randint(1, 4))
        elif mode < .65:
            specs = families(g, g.qgen, rng.randint(1, 4))
        elif mode < .75:
            specs = families(g, g.lag, rng.randint(1, 4))
        else:
            specs = g.specs(rng.randint(1, 4))
        nq = len(specs)
        same = lambda: g.q_fn(copy.deepcopy(rng.choice([s for s in specs if s["c"] in ("coll", "rk")] or [g.qgen()])))
        calls = [lambda: g.call(["q", "d", "d", "sparse", "sdc", "util", "nodes"]), same]
        if rng.random() < .6:
            h = History(g, specs, calls, bad=.05, redo=.1)
            plan = {"specs": specs, "setup": h.fill(rng.randint(6, 20)), "trace": True}
            live = h.live
        else:
            nt = rng.choice([2, 2, 3])
            setup, threads, live = concurrent(g, specs, nt, rng.randint(2, 4), calls)
            plan = {"specs": specs, "setup": setup, "threads": threads, "sched": sched_for(rng),
                    "gran": "opcode" if rng.random() < .2 else "line", "fin": [rng.randrange(12) for _ in range(nt + 1)]}
        fin = requery(g, specs, live, 2)
        for j in range(len(specs)):     # new objects, too
            if rng.random() < .5 and ("ref" not in specs[j] or specs[j]["ref"] in live):
                fin += [{"op": "new", "i": j}] + requery(g, specs, [j], 1)
        plan["final"] = fin
        ok = light(specs)
        rel_faults(rng, plan, rng.randint(1, 4), where=(ok if rng.random() < .7 else None))
        for f in plan["faults"]:        # optimisers may absorb floating point errors
            op = next(o for o in engine.all_ops(plan) if o["no"] == f["o"])
            if not ok(op) and f["kind"] in ("fpe", "linalg"):
                f["kind"] = "memory"
        retry(rng, plan)
        return plan

    def stubborn(self, rng):
        """the same request fails again and again before it succeeds"""
        g = G.Gen(rng, heavy=0, scr=.7, maxn=rng.choice([2, 3, 4]), big=0)
        specs = families(g, rng.choice([g.qd, g.qd, g.lag, g.qgen]), rng.choice([1, 2]))
        plan = {"specs": specs, "setup": [{"op": "new", "i": j} for j in range(len(specs))], "trace": True}
        ok = light(specs)
        hit = []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(specs))
            op = requery(g, specs, [i], 1)[0] if rng.random() < .7 else g.call(["q", "d", "sparse", "sdc", "util"])
            again = [dict(copy.deepcopy(op)) for _ in range(rng.randint(2, 8))]
            plan["setup"] += again
            hit.append(again)
            if op.get("i") is not None:
                plan["setup"] += [g.on(specs, i) for _ in range(rng.randint(1, 3))]
        plan["final"] = requery(g, specs, range(len(specs)), 3)
        engine.number(plan)
        frac, site = rng.random(), rng.random() < .6
        plan["faults"] = []
        for first, op in [(again[0], op) for again in hit for op in again]:
            if rng.random() < .25 or op is first:
                frac, site = rng.random(), rng.random() < .6
            f = {"t": -1, "o": op["no"], "like": first["no"], "frac": frac if rng.random() < .6 else rng.random()}
            if rng.random() < .25:
                f.update(seam=True, kind=rng.choice(["linalg", "memory", "value", "oserror"]))
            else:
                f["kind"] = rng.choice(["interrupt", "memory"])
                if site:
                    f["site"] = True
            if not ok(op) and f["kind"] == "linalg":
                f["kind"] = "memory"
            if rng.random() < .9:
                plan["faults"].append(f)
        plan["sites"] = True
        return plan

    def focus(self, rng):
        """one or two objects, every other call is cut short and repeated"""
        g = G.Gen(rng, heavy=0, scr=0, maxn=rng.choice([2, 3, 4]), big=0)
        specs = []
        for _ in range(rng.choice([1, 1, 2])):
            c = rng.random()
            if c < .3:
                src = g.coll()
                specs.append({"c": "qd", "t": g.alias(rng.choice(W.KDEP)), "src": src, "via": "qGen"})
            elif c < .55:
                specs.append(g.qd())
            else:
                specs.append(rng.choice([g.qgen, g.lag, g.lag, g.ng])())
        ops = [{"op": "new", "i": i} for i in range(len(specs))]
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(specs))
            if specs[i]["c"] == "qd" and rng.random() < .6:
                ops += g.sweeps(i, specs[i], g.src_of(specs, i))
            else:
                ops += [g.on(specs, i) for _ in range(rng.randint(1, 4))]
        plan = {"specs": specs, "setup": ops, "trace": True}
        ok = light(specs)
        rel_faults(rng, plan, max(1, len(ops)//2), where=ok)
        retry(rng, plan, .9)
        if rng.random() < .3:
            plan["gran"] = "opcode"
        plan["final"] = requery(g, specs, list(range(len(specs))), 3)
        return plan

    def optim(self, rng):
        """coefficients that take an optimisation, cut short and asked again"""
        g = G.Gen(rng, heavy=1, scr=0, maxn=rng.choice([2, 2, 3]), big=0)
        src = g.coll()
        kind = rng.choice(["MIN_SR_FLEX", "MIN_SR_FLEX", "MIN_SR_S", "MIN"])
        if kind == "MIN":
            src["qt"] = rng.choice(["GAUSS", "RADAU-RIGHT"])
        specs = [{"c": "qd", "t": g.alias(kind), "src": src, "via": "qGen"}]
        k = src["n"] + rng.randint(1, 3) if kind == "MIN_SR_FLEX" else rng.choice([None, 1])
        get = rng.choice([lambda: {"op": "d.get", "i": 0, "k": k, "copy": True, "scr": None},
                          lambda: {"op": "d.S", "i": 0, "k": k, "scr": None}])
        ops = [{"op": "new", "i": 0}] + [g.on(specs, 0) for _ in range(rng.choice([0, 0, 1]))] + [get()]
        plan = {"specs": specs, "setup": ops, "trace": True}
        rel_faults(rng, plan, 1, kinds=("interrupt", "memory"), seam_kinds=("memory",), where=lambda op: op is ops[-1])
        retry(rng, plan, 1)
        plan["final"] = requery(g, specs, [0], 2)
        return plan

    def nontrivial(self, plan, out):
        return bool(out["fired"]) and out["checked"] >= 3


# ----------------------------------------------------------------------- C06
FORMS = ["arr", "list", "tuple", "view", "rev", "F", "ro"]


class C06(Prop):
    id = "C06"
    runs = {"quick": 2500, "thorough": 30000}
    judge = {"input-modified", "alias", "value", "exception", "stuck"}
    rule = ("One case is a history of calls that take arrays, lists or dicts owned by the caller (plain, strided, reversed, "
            "Fortran-ordered, integer, read-only, lists, tuples). The bits of every argument are compared before and after each call, "
            "including calls cut short by a fault; memory sharing between arguments and results is checked; the caller overwrites "
            "arguments of constructors and results at random moments, and every later answer is compared with the model. "
            "Non-trivial: at least 3 answers compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=.0, scr=rng.choice([.3, .8]), maxn=rng.choice([2, 3, 4, 6]))
        g.kinds = [k for k in g.kinds if k not in W.ON_TYPES] or ["GS", "BE"]
        specs = []
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .08:
                s = g.ng()
            elif rng.random() < .5:
                s = g.qd()
                if "via" in s and s["via"] == "qGen" and QD_KIND[s["t"]] not in ("MIN", *W.ON_TYPES):
                    s["via"] = rng.choice(["kw", "pos"])
                    s["af"] = rng.choice(FORMS)
            else:
                s = g.lag()
                s["af"] = rng.choice([f for f in FORMS if f != "F"])
                if rng.random() < .2:
                    s["pts"] = list(range(rng.randint(2, 6)))
                    s.pop("fv", None), s.pop("dup", None)
            specs.append(s)
        mk = [g.sparse, g.sdc, g.sdc, g.util, g.util, g.d_fn]

        def call():
            op = rng.choice(mk)()
            if op["op"] == "d.fn" and rng.random() < .5:
                op["via"] = "kw"
                op["af"] = rng.choice(["arr", "list", "view", "rev", "ro"])
                if any(QD_KIND[t] == "MIN" for t in ([op["types"]] if isinstance(op["types"], str) else op["types"])):
                    op["via"] = "qGen"
            return op
        h = History(g, specs, [call], bad=.04, scr_arg=.4, redo=.25)
        plan = {"specs": specs, "setup": h.fill(rng.randint(10, 30)), "trace": False}
        for o in list(h.live):
            if rng.random() < .7:
                plan["setup"].append({"op": "scr.arg", "i": o, "mode": rng.choice(G.SCR)})
        plan["final"] = requery(g, specs, h.live, 3)
        if rng.random() < .45:
            plan["trace"] = True
            rel_faults(rng, plan, rng.randint(1, 4), where=light(specs))
            retry(rng, plan, .4)
        return plan


# ----------------------------------------------------------------------- C12
TOL12 = 1e-11


class C12(Prop):
    id = "C12"
    runs = {"quick": 2600, "thorough": 15000}
    rule = ("One case builds approximations of one grid (1 to 300 points, extents 1e-200 to 1e200) with every weight algorithm and scaling, "
            "with floating-point errors signalled at random lines of the construction in most cases, then asks for interpolation, "
            "integration and derivative matrices with every quadrature rule; all are compared with a model that uses no barycentric "
            "weights. Non-trivial: at least 3 matrices compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, scr=0)
        specs, ops = [], []
        n = rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 40, 80, 150, 300]) if rng.random() < .8 else rng.randint(1, 60)
        big = n > 24
        if n > 12 and n <= 80 and rng.random() < .5:
            kind = rng.choice(["equi", "rand", "clust"])    # weights of very different sizes
        else:
            kind = rng.choice(["cheb", "cheb", "leg"]) if n > 12 else rng.choice(["cheb", "equi", "rand", "clust"])
        if n > 24 and rng.random() < .15:
            n, kind = rng.choice([n, 600, 1200]), rng.choice(["equi", "rand", "clust"])
        ex = 0 if rng.random() < .35 else rng.choice([1, -1])*rng.choice([3, 8, 12, 20, 40, 80, 120, 150, 154, 160, 200])
        spec0 = {"c": "lag", "grid": {"kind": kind, "n": n, "scale": float(f"1e{ex}"), "shift": rng.choice([0, 0, 0, -1, .5, 2]),
                                      "seed": rng.randrange(1000)}}
        variants = [("AUTO", None)]*2 + [(w, s) for w in ("AUTO", "STABLE", "CHEBFUN", "FAST") for s in (None, "ZERO", "MAX")]
        for _ in range(rng.randint(2, 5)):
            wc, sr = rng.choice(variants)
            s = copy.deepcopy(spec0)
            s["wc"] = wc
            if sr:
                s["sr"] = sr
            if rng.random() < .25:
                s["sw"] = True
            if rng.random() < .3:
                s.pop("wc")
            specs.append(s)
        m = rng.randint(1, 4)
        for j in range(len(specs)):
            ops.append({"op": "new", "i": j})
            for _ in range(m):
                c = rng.random()
                op = {"i": j, "tol": TOL12}
                ts = [round(rng.uniform(0, 1), 5) for _ in range(6)] + [rng.choice([0., 1., "p0", "pm", "pe"])]
                if c < .4:
                    op.update(op="l.int", gts=ts)
                elif c < .5:
                    op.update(op="l.wts", tol=1e-7)
                elif c < .75:
                    op.update(op="l.quad", givs=[[ts[0], ts[1]], [0., 1.], [ts[2], ts[3]]])
                    if rng.random() < .5:
                        op["nq"] = rng.choice(["LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"])
                elif n > 1 and n <= 300 and abs(ex) <= 120:
                    op.update(op="l.der", order=rng.choice([1, 2, "ALL"]))
                else:
                    op.update(op="l.int", gts=ts)
                ops.append(op)
        plan = {"specs": specs, "setup": ops, "n": n}
        if rng.random() < .7:
            rel_faults(rng, plan, rng.randint(1, 3), kinds=["fpe"], seam_kinds=["fpe", "linalg"], seam=.1,
                       where=lambda o: o["op"] == "new" or rng.random() < .1)
            # a construction that raised is tried again
            retry(rng, plan, 1.)
        return plan


# ----------------------------------------------------------------------- C13
class C13(Prop):
    id = "C13"
    runs = {"quick": 2800, "thorough": 30000}
    rule = ("One case takes sets of query points, intervals, sparse output points or iterations, with duplicates and nearly equal "
            "entries (1e-7 to 1e-3 apart), and delivers them to the code in random permutations and batches, sequentially or from "
            "2 to 3 threads under a seeded schedule, some batches repeated after an injected failure; every row is compared with the "
            "model value of its own entry. Non-trivial: at least 3 batches compared; distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=0, scr=rng.choice([0, .4]), maxn=rng.choice([3, 5, 8]))
        specs, ops = [], []
        n = rng.randint(1, 3)
        for _ in range(n):
            specs.append(g.lag() if rng.random() < .75 else self.kd(g))
        jobs = []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(specs) + 1)
            if i == len(specs):
                jobs += self.sparse(g)
            elif specs[i]["c"] == "lag":
                jobs += self.lagr(g, i, specs[i], rng.choice([8, 20, 60] + [200]*(rng.random() < .3)))
            else:
                jobs += self.stack(g, i, specs[i])
        setup = [{"op": "new", "i": j} for j in range(len(specs))]
        rng.shuffle(jobs)
        c = rng.random()
        if c < .5:
            plan = {"specs": specs, "setup": setup + jobs, "trace": False}
        elif c < .65:
            plan = {"specs": specs, "setup": setup + jobs, "trace": True}
            rel_faults(rng, plan, rng.randint(1, 3))
            retry(rng, plan, 1.)
        else:
            nt = rng.choice([2, 2, 3])
            th = [[] for _ in range(nt)]
            for j in jobs:
                th[rng.randrange(nt)].append(j)
            plan = {"specs": specs, "setup": setup, "threads": th, "sched": sched_for(rng),
                    "gran": "opcode" if rng.random() < .25 else "line", "fin": [rng.randrange(12) for _ in range(nt + 1)]}
        return plan

    @staticmethod
    def kd(g):
        src = g.coll()
        return {"c": "qd", "t": g.alias(g.kind_for(src, only=W.KDEP + ["BE", "GS", "TRAP"])), "src": src, "via": "qGen"}

    @staticmethod
    def near(g, xs, w):
        """duplicates and nearly equal companions"""
        r = g.r
        out = list(xs)
        for x in xs:
            c = r.random()
            if c < .12:
                out.append(x)
            elif c < .4:
                out.append(x + r.choice([1, -1])*w*10.**r.uniform(-7, -3))
        return out

    @staticmethod
    def split(r, items):
        items = list(items)
        c = r.random()
        if c < .4:
            r.shuffle(items)
        elif c < .55:
            items.sort()
        elif c < .65:
            items.sort(reverse=True)
        out = []
        p = r.choice([.02, .1, .3, .6])
        cur = []
        for x in items:
            cur.append(x)
            if r.random() < p:
                out.append(cur)
                cur = []
        return out + [cur]*bool(cur)

    def lagr(self, g, i, spec, m):
        r = g.r
        w = (max(spec["pts"]) - min(spec["pts"])) or 1.
        ts = self.near(g, g.times(spec, r.randint(2, m)), w)
        out = []
        kind = r.choice(["int", "quad", "call", "mix"])
        for rep in range(r.randint(1, 2)):
            for b in self.split(r, ts):
                k = kind if kind != "mix" else r.choice(["int", "quad", "call"])
                op = {"i": i, "scr": g.scr(), "tol": 1e-9}
                if k != "call" and r.random() < .3:
                    op["dup"] = r.random() < .4
                if k == "int":
                    op.update(op="l.int", ts=b, af=r.choice([None, "list", "tuple", "view", "rev", "ilist", "ituple"]))
                elif k == "quad":
                    lo = r.choice([min(spec["pts"]), b[0]])
                    ivs = [[lo, x] for x in b] if r.random() < .6 else [[x, y] for x, y in zip(b, b[1:] + b[:1])]
                    op.update(op="l.quad", ivs=ivs, af=r.choice([None, "list", "tuple", "view", "ilist", "ituple"]))
                    if r.random() < .3:
                        op["nq"] = r.choice(["LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"])
                else:
                    op.update(op="l.call", ts=g.shaped(b))
                    op["af"] = g.layout(op)
                    if spec.get("fv") is None or r.random() < .3:
                        op["fv"] = [g.num(-2, 2) for _ in spec["pts"]]
                out.append(op)
        return out

    def sparse(self, g):
        r = g.r
        out = []
        base = g.sparse()
        h = abs(base["x"][1] - base["x"][0])
        ys = list(base["y"])
        for y in base["y"]:
            if r.random() < .5:
                ys.append(y + h*r.choice([1, -1])*10.**r.uniform(-7, -3))
            if r.random() < .2:
                ys.append(y)
            if r.random() < .3:     # the same place in another cell
                ys.append(y + h if y + h < max(base["x"]) else y - h)
        if not base.get("per"):
            ys = [y for y in ys if min(base["x"]) < y < max(base["x"])] or base["y"]
        for b in self.split(r, ys):
            out.append(dict(base, y=b, scr=g.scr(), tol=1e-9))
        return out

    def stack(self, g, i, spec):
        r = g.r
        kind = QD_KIND[spec["t"]]
        ks = [g.ks(kind, spec["src"]) or 1 for _ in range(r.randint(2, 10))]
        out = []
        for b in self.split(r, ks):
            op = {"op": "d.gen", "i": i, "k": b if len(b) > 1 or r.random() < .5 else b[0], "form": r.choice(["Z2N", "N2N"]),
                  "dTau": False, "scr": g.scr(), "kf": r.choice(["list", "tuple", "arr"])}
            out.append(op)
        return out


# ----------------------------------------------------------------------- C14
class C14(Prop):
    id = "C14"
    runs = {"quick": 2200, "thorough": 20000}
    judge = {"value", "exception", "stuck", "independence"}
    rule = ("One case is a history of calls on generator and approximation objects in which objects are copied, deep-copied or "
            "pickled (protocols 0 to 5) at random moments, also after interrupted calls; the restored objects live in the same process or in a "
            "fresh one that only gets the pickled bytes and makes objects of its own, and all answers of originals and restored objects, in turn and after "
            "callers overwrote results or attributes, are compared with the model. Non-trivial: at least one copy and 3 answers compared; "
            "distinct: by history hash.")

    def make(self, rng, i, tier):
        g = G.Gen(rng, heavy=rng.choice([0, 0, .15]), scr=rng.choice([0, .4]), maxn=rng.choice([2, 3, 4, 6]))
        specs = g.specs(rng.randint(1, 4))
        h = History(g, specs, [lambda: g.call(["q", "d", "util", "nodes"])], bad=.05, redo=.05)
        ops = h.ops
        length = rng.randint(8, 26)
        while len(ops) < length:
            n = len(ops)
            h.one(range(len(specs)))
            if h.live and rng.random() < .35 and len(ops) > n:
                i = rng.choice(h.live)
                j = len(specs)
                specs.append(copy.deepcopy(specs[i]))
                how = rng.choice(["copy", "deepcopy", "pickle", "pickle"])
                ops.append({"op": "copy", "i": i, "j": j, "how": how, "proto": rng.randint(0, 5)})
                h.live.append(j)
                if how != "copy" and rng.random() < .3:      # writing to one must not reach the other
                    a, b = rng.choice([(i, j), (j, i)])
                    s = specs[a]
                    if not any(sp.get("ref") == a for sp in specs):
                        attrs = {"coll": ["nodes", "weights", "Q"], "rk": ["nodes", "weights", "Q", "b2", "A", "b", "c"],
                                 "qd": ["_QDelta", "Q", "nodes", "deltas"], "lag": ["points", "weights", "fValues"], "ng": ["nodes"]}[s["c"]]
                        ops.append({"op": "scr.attr", "i": a, "a": attrs, "mode": rng.choice(G.SCR)})
                        ops += requery(g, specs, [b], 2)
        fin = requery(g, specs, h.live, 2)
        remote = []
        for i in h.live:
            if rng.random() < .5:
                remote.append(self.session(g, specs, [i] + [x for x in h.live if rng.random() < .2 and x != i]))
        plan = {"specs": specs, "setup": ops, "final": fin, "remote": remote, "trace": False}
        if rng.random() < .35:
            plan["trace"] = True
            rel_faults(rng, plan, rng.randint(1, 3), where=light(specs))
            retry(rng, plan, .5)
        return plan

    @staticmethod
    def session(g, specs, ids):
        """what a fresh process does: loads objects, makes others that resemble them, and uses both"""
        rng = g.r
        todo = [[{"op": "load", "i": i, "proto": rng.randint(0, 5)}] for i in ids]
        if rng.random() < .5:
            for i in rng.sample(ids, 1)*rng.randint(1, 2):
                j = len(specs)
                s = copy.deepcopy(specs[i])
                if "ref" in s:
                    s["src"] = copy.deepcopy(specs[s.pop("ref")])
                    s["via"] = "qGen"
                specs.append(s if rng.random() < .2 else sibling(g, s))
                todo.append([{"op": "new", "i": j}])
        rng.shuffle(todo)
        kinds = lambda i: (specs[i]["c"], specs[i].get("t"))
        last, ops, here = None, [], []
        for first in todo:
            i = first[0]["i"]
            ops += first
            here.append(i)
            for _ in range(rng.randint(2, 4)):
                i = i if rng.random() < .7 else rng.choice(here)
                if last and last["i"] != i and last["op"][:2] in ("d.", "l.", "n.") and kinds(i) == kinds(last["i"]) and rng.random() < .6 and g.applies(last, specs[i]):
                    op = dict(copy.deepcopy(last), i=i)
                else:
                    op = requery(g, specs, [i], 1)[0]
                ops.append(op)
                last = op
        return {"ops": ops}

    def execute(self, plan, ctx):
        return C14Engine(plan, ctx, self.judge, trace=plan.get("trace", True)).run()

    def nontrivial(self, plan, out):
        return out["checked"] >= 3 and (bool(plan.get("remote")) or any(o["op"] == "copy" for o in plan["setup"]))

    def shrink(self, plan):
        yield from super().shrink(plan)
        rem = plan.get("remote", [])
        for j in range(len(rem)):
            yield dict(plan, remote=rem[:j] + rem[j + 1:])
        for j, r in enumerate(rem):
            for k in range(len(r["ops"])):
                yield dict(plan, remote=rem[:j] + [dict(r, ops=r["ops"][:k] + r["ops"][k + 1:])] + rem[j + 1:])


def restored(blobs, specs, ops):
    """In a fresh process: restore objects and ask them"""
    import pickle
    w = W.World(specs, W.Expect(None))
    out = []
    for op in ops:
        try:
            if op["op"] == "load":
                if op["i"] not in blobs:
                    continue
                w.objs[op["i"]] = pickle.loads(blobs[op["i"]])
                continue
            thunk, _ = w.prepare(op)
            v = thunk()
            out.append(("ok", v.toarray() if hasattr(v, "toarray") else v))
        except W.Undefined:
            out.append(("none", None))
        except Exception as e:
            out.append(("exc", f"{type(e).__name__}: {e}"))
    return out


class C14Engine(engine.Engine):
    def after(self):
        import pickle
        for rem in self.plan.get("remote", ()):
            blobs = {}
            for op in rem["ops"]:
                i = op["i"]
                if op["op"] != "load" or i not in self.world.objs or i in self.world.taint:
                    continue
                try:
                    blobs[i] = pickle.dumps(self.world.objs[i], protocol=op["proto"])
                except Exception as e:
                    self.violation("exception", {"op": "save", "i": i}, f"{type(e).__name__}: {e}")
            if not blobs:
                continue
            exps, calls = [], [op for op in rem["ops"] if op["op"] != "load"]
            for op in calls:
                try:
                    exps.append(self.world.expected(op))
                except W.Undefined:
                    exps.append(engine.UNDEF)
            self.kern.probe("restored in a fresh process", len(blobs))
            self.res.calls += len(calls)
            for op, exp, (kind, val) in zip(calls, exps, self.ctx.pristine.call(restored, blobs, self.plan["specs"], rem["ops"])):
                if exp is engine.UNDEF or kind == "none":
                    continue
                if kind == "exc":
                    self.violation("exception", dict(op, where="fresh process"), val)
                else:
                    self.res.checked += 1
                    d = W.close(val, exp[0], exp[1])
                    if d:
                        self.violation("value", dict(op, where="fresh process"), d)
