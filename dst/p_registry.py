"""C05: registrations - valid, clashing, invalid, interrupted, concurrent -
against the registries, while others look up, list and instantiate."""
import copy
import numpy as np

from . import engine, gen as G, world as W
from .props import Prop, rel_faults, sched_for

DICOS = {"q": ["Q"], "qx": ["Q", "X"], "qxy": ["Q", "X", "Y"], "rk": ["RK", "Q"], "store": ["RK"], "d": ["D"], "tab": ["D"],
         "scx": ["X"], "scxy": ["X", "Y"]}
Q_FLAWS = ["noorder", "noprop", "noparams", "badparams", "ctor", "ctormem"]
RK_FLAWS = ["shapeA", "shapeb", "ctor", "nested"]
D_FLAWS = ["nokwargs", "nocompute", "nok", "kwonly"]
ALIAS_FLAWS = ["tuple", "twice", "own"]


def make_class(d, marker):
    """Build the class of a definition; marker identifies it in results"""
    ns = {"__module__": "customer.methods"}
    fl = d.get("flaw")
    if d.get("aliases") is not None:
        al = list(d["aliases"])
        ns["aliases"] = tuple(al) if fl == "tuple" else al
    kind = d["kind"]
    if kind == "q" and d.get("sub"):        # builds on the collocation class, with a parameter of its own
        base = W.Q.coll.Collocation
        ns.setdefault("aliases", [])

        def init(self, x, **kw):
            if x != 1:
                raise ValueError("x")
            base.__init__(self, 3, "LEGENDRE", "RADAU-RIGHT")
        ns.update(__init__=init, DEFAULT_PARAMS={"x": 1})
    elif kind == "q":
        base = W.Q.qc.QGenerator
        props = ["nodes", "Q", "weights", "order"]
        vals = {"nodes": [marker, marker + 1], "Q": [[marker, 0.], [1., marker]], "weights": [marker, 1.], "order": 1}

        def prop(name):
            v = vals[name]
            return property(lambda self: np.array(v) if isinstance(v, list) else v)
        for p in props:
            if fl == "noorder" and p == "order":
                continue
            ns[p] = prop(p) if not (fl == "noprop" and p == "Q") else (lambda self: 1)
        ctor(ns, fl)
        if d.get("params"):
            def init(self, x, **kw):
                if x != 1:
                    raise ValueError("x")
            ns["__init__"] = init
            if fl != "noparams":
                ns["DEFAULT_PARAMS"] = {"x": 1 if fl != "badparams" else 2}
    elif kind == "rk":
        base = W.Q.rk.RK
        if d.get("base"):
            base = W.Q.rk.RK_SCHEMES[d["base"]]
        ns.update(A=[[0., 0.], [marker, 0.]], b=[.5, .5], c=[0., marker], order=property(lambda self: 1))
        if fl == "shapeA":
            ns["A"] = [[0., 0., 0.], [marker, 0., 0.]]
        elif fl == "shapeb":
            ns["b"] = [1.]
        ctor(ns, fl)
    else:
        base = W.Q.diag.FromTable if kind == "tab" else W.Q.qd.QDeltaGenerator
        if kind == "d":
            def compute(self, k=None):
                return np.full((self.Q.shape[0],)*2, marker)

            def compute1(self, k=1):
                return np.full((self.Q.shape[0],)*2, marker + (k or 0))

            def computeX(self, sweep=None):
                return np.zeros((1, 1))

            def computeK(self, *, k=None):
                return np.zeros((1, 1))
            f = {"nok": computeX, "kwonly": computeK}.get(fl, compute1 if d.get("kdep") else compute)
            if fl != "nocompute":
                ns["computeQDelta"] = f
            if fl == "nokwargs":
                def init(self, Q):
                    self.Q = np.array(Q, dtype=float)
                ns["__init__"] = init
    return type(d["name"], (base,), ns)


def ctor(ns, fl):
    if fl in ("ctor", "ctormem", "nested"):
        err = {"ctor": ValueError, "ctormem": MemoryError, "nested": AssertionError}[fl]

        def init(self, *a, **k):
            raise err("the class refuses to be built")
        ns["__init__"] = init


class RegWorld(W.World):
    def __init__(self, specs, E):
        super().__init__(specs, E)
        self.cls = {}
        self.X, self.Y = {}, {}

    def dico(self, name):
        return {"Q": W.Q.top.Q_GENERATORS, "D": W.Q.top.QDELTA_GENERATORS, "RK": W.Q.rk.RK_SCHEMES,
                "X": self.X, "Y": self.Y}[name]

    def klass(self, c):
        if c not in self.cls:
            try:
                self.cls[c] = make_class(self.engine.plan["classes"][c], marker(c))
            except (KeyError, IndexError):
                raise W.Undefined
        return self.cls[c]

    def do_reg(self, op, arg):
        cls, api = self.klass(op["c"]), op["api"]
        Q = W.Q
        f = {"q": lambda: Q.qc.register(cls), "qx": lambda: Q.qc.register(cls, self.X),
             "qxy": lambda: Q.qc.register(cls, self.X, self.Y), "rk": lambda: Q.rk.registerRK(cls),
             "store": lambda: Q.rk.checkAndStore(cls), "d": lambda: Q.qd.register(cls),
             "tab": lambda: Q.diag.registerTable(cls), "scx": lambda: Q.utils.storeClass(cls, self.X),
             "scxy": lambda: Q.utils.storeClass(cls, self.X, self.Y)}[api]
        return f

    def do_look(self, op, arg):
        d, name = self.dico(op["d"]), op["name"]
        return lambda: d.get(name)

    def do_use(self, op, arg):
        """instantiate through the public functions: returns the marker of the class"""
        name = op["name"]
        if op["d"] == "Q":
            return lambda: W.Q.top.genQCoeffs(name)
        par = {"Q": np.eye(2)}
        if op.get("qg"):
            par = {"qGen": W.Q.top.Q_GENERATORS["RK4" if op["qg"] == 2 else "BE"]()}
        if op.get("k"):
            return lambda: W.Q.top.genQDeltaCoeffs(name, nSweeps=2, **par)
        return lambda: W.Q.top.genQDeltaCoeffs(name, **par)

    def do_list(self, op, arg):
        d, mod = self.dico(op["d"]), op.get("mod")
        return lambda: W.Q.utils.getClasses(d, module=mod)

    def expected(self, op):
        if op["op"] in ("reg", "look", "use", "list"):
            raise W.Undefined
        return super().expected(op)


def marker(c):
    return 1000. + 7*c


class RegEngine(engine.Engine):
    World = RegWorld

    def before(self):
        self.hist = []
        self.clock = 0
        w = self.world
        for d in ("X", "Y"):
            for name in self.plan.get(d, []):
                w.dico(d)[name] = type(name, (), {})
        self.base = {d: dict(w.dico(d)) for d in ("Q", "D", "RK", "X", "Y")}
        self.starts = {}

    def step(self, st, op):
        self.clock += 1
        self.starts[op["no"]] = self.clock
        super().step(st, op)

    def record(self, op, ok, val, fired):
        self.clock += 1
        self.hist.append({"op": op, "s": self.starts[op["no"]], "e": self.clock, "ok": ok, "val": val, "fired": bool(fired)})

    def after_exc(self, st, op, exc, tainted, exp):
        if op["op"] in ("reg", "look", "use", "list"):
            self.record(op, False, exc, st.fired)
        else:
            super().after_exc(st, op, exc, tainted, exp)

    def after_ok(self, st, op, val, tainted, guards):
        if op["op"] in ("reg", "look", "use", "list"):
            if op["op"] == "list":
                mine, val = val, dict(val) if isinstance(val, dict) else val
                if op.get("scr") and isinstance(mine, dict):      # a caller edits what it got
                    if mine:
                        mine.pop(next(iter(mine)))
                    mine["mine"] = object
            self.record(op, True, val, st.fired)
        else:
            super().after_ok(st, op, val, tainted, guards)

    # ---------------------------------------------------------------- judge
    def names(self, c):
        d = self.plan["classes"][c]
        al = d.get("aliases")
        if al is None:
            al = getattr(W.Q.rk.RK_SCHEMES[d["base"]], "aliases", None) if d.get("base") else None
        return [d["name"]] + list(al or [])

    def valid(self, op):
        """the class is acceptable for this interface"""
        d = self.plan["classes"][op["c"]]
        fl, api, kind = d.get("flaw"), op["api"], d["kind"]
        names = self.names(op["c"])
        if fl == "tuple" and d.get("aliases") or len(set(names)) < len(names):
            return False
        if api == "tab":
            return hasattr(W.Q.diag.tables, d["name"]) and fl not in D_FLAWS
        if api in ("scx", "scxy"):
            return True
        if api == "store":
            return fl not in ("shapeA", "shapeb")
        if fl in ("tuple", None):
            return True
        return fl not in Q_FLAWS + RK_FLAWS + D_FLAWS

    def after(self):
        w = self.world
        regs = [h for h in self.hist if h["op"]["op"] == "reg"]
        for h in regs:
            h["names"] = set(self.names(h["op"]["c"]))
            h["dicos"] = DICOS[h["op"]["api"]]
            h["valid"] = self.valid(h["op"])
            h["state"] = "ok" if h["ok"] else ("maybe" if h["fired"] else "no")

        def clash(a, b):
            return bool(a["names"] & b["names"]) and bool(set(a["dicos"]) & set(b["dicos"]))

        def base_clash(h):
            return any(n in self.base[d] for n in h["names"] for d in h["dicos"])
        for h in regs:
            op = dict(h["op"], cls=self.plan["classes"][h["op"]["c"]])
            self.res.checked += 1
            others = [x for x in regs if x is not h and clash(h, x)]
            if h["state"] == "ok":
                if h["val"] is not None and h["val"] is not w.cls[h["op"]["c"]] and h["op"]["api"] not in ("scx", "scxy"):
                    self.violation("registry", op, "the decorator does not return the class")
                if not h["valid"]:
                    self.violation("registry", op, "an invalid class was accepted")
                elif base_clash(h):
                    self.violation("registry", op, "a class was accepted under a name that was taken")
                elif any(x["state"] == "ok" and x["e"] <= h["e"] for x in others):
                    self.violation("registry", op, "two classes were accepted under the same name")
            elif h["state"] == "no":
                if not isinstance(h["val"], Exception):
                    self.violation("registry", op, f"refused with {type(h['val']).__name__}")
                if h["valid"] and not base_clash(h) and not any(x["state"] in ("ok", "maybe") and x["s"] < h["e"] for x in others):
                    self.violation("registry", op, f"a valid class was refused: {type(h['val']).__name__}: {h['val']}")

        def owners(d, name, end):
            return [h for h in regs if name in h["names"] and d in h["dicos"] and h["state"] != "no" and h["s"] < end]

        def judge(op, d, name, cls, start, end):
            self.res.checked += 1
            if name in self.base[d]:
                if cls is not self.base[d][name]:
                    self.violation("registry", op, f"{name} in {d} no longer refers to its class but to {cls}")
                return
            own = owners(d, name, end)
            if cls is None:
                if any(h["state"] == "ok" and h["e"] < start for h in own):
                    self.violation("registry", op, f"{name} is missing in {d} although its class is registered")
                return
            okay = [h for h in own if h["state"] == "ok" and h["e"] < start] or own
            if not any(w.cls.get(h["op"]["c"]) is cls for h in okay):
                self.violation("registry", op, f"{name} in {d} refers to {cls}, whose registration "
                               "was refused or which does not own that name")
        INF = 1 << 60
        for h in self.hist:
            op, kind = h["op"], h["op"]["op"]
            if kind == "look":
                if h["ok"]:
                    judge(op, op["d"], op["name"], h["val"], h["s"], h["e"])
                elif not h["fired"]:
                    self.violation("exception", op, repr(h["val"]))
            elif kind == "use":
                self.judge_use(h, op, judge)
            elif kind == "list":
                self.judge_list(h, op, regs)
        for d in ("Q", "D", "RK", "X", "Y"):
            cur = dict(w.dico(d))
            exp = set(self.base[d]) | {n for h in regs if h["state"] == "ok" and d in h["dicos"] for n in h["names"]}
            for name in sorted(exp | set(cur)):
                judge({"op": "final state", "d": d, "name": name}, d, name, cur.get(name), INF - 1, INF)

    def judge_use(self, h, op, judge):
        if h["fired"]:
            return
        val = h["val"]
        cls = None
        if not h["ok"]:
            if not isinstance(val, ValueError) or "not available" not in str(val):
                # the class exists, but is it one that fails by itself?
                if any(d.get("flaw") and op["name"] in self.names(c) for c, d in enumerate(self.plan["classes"])):
                    return
                if op["name"] in self.base[op["d"]] or any(
                        d.get("params") and op["name"] in self.names(c) for c, d in enumerate(self.plan["classes"])):
                    return
                self.violation("exception", op, f"{type(val).__name__}: {val}")
                return
        else:
            if op["name"] in self.base[op["d"]]:
                return
            try:
                m = float(np.asarray(val[0]).ravel()[-1]) if op["d"] == "Q" else float(np.asarray(val).ravel()[0])
            except Exception:
                m = None
            cands = [c for c in self.world.cls if m is not None and abs(m - marker(c)) <= 2]
            if not cands:
                self.violation("registry", op, f"{op['name']} gives coefficients of another class: {val!r}"[:300])
                return
            cls = self.world.cls[cands[0]]
        judge(op, op["d"], op["name"], cls, h["s"], h["e"])

    def judge_list(self, h, op, regs):
        if not h["ok"]:
            if not h["fired"]:
                self.violation("exception", op, f"listing raised {type(h['val']).__name__}: {h['val']}")
            return
        self.res.checked += 1
        val = h["val"]
        d = op["d"]
        seen = list(val.values())
        if len({id(c) for c in seen}) != len(seen):
            self.violation("registry", op, "a class is listed more than once")
        mod = op.get("mod")
        fits = lambda c: mod is None or c.__module__.endswith("." + mod)
        must = [c for c in {id(c): c for c in self.base[d].values()}.values() if fits(c)]
        must += [self.world.cls[x["op"]["c"]] for x in regs if x["state"] == "ok" and x["e"] < h["s"] and d in x["dicos"]
                 and fits(self.world.cls[x["op"]["c"]])]
        for c in must:
            if not any(c is s for s in seen):
                self.violation("registry", op, f"{c.__name__} is not listed")
                break
        may = [self.world.cls[x["op"]["c"]] for x in regs if x["state"] != "no" and x["s"] < h["e"] and d in x["dicos"]]
        for name, c in val.items():
            if not any(c is s for s in must) and not any(c is s for s in may):
                self.violation("registry", op, f"{c} is listed but is not registered")
                break
            names = [n for n, k in self.world.dico(d).items() if k is c]
            if name not in names:
                self.violation("registry", op, f"{c.__name__} is listed as {name}, which is not one of its names")
                break


class RegGen:
    """Draws class definitions, registrations and lookups"""

    def __init__(self, r, plan, pclash=None, pflaw=None):
        self.r, self.plan = r, plan
        self.g = G.Gen(r, heavy=0, scr=0, maxn=3)
        self.qn, self.dn, self.rkn = sorted(W.Q.top.Q_GENERATORS), sorted(W.Q.top.QDELTA_GENERATORS), sorted(W.Q.rk.RK_SCHEMES)
        self.pool = [f"New{x}" for x in "ABCDEFGH"][:r.randint(2, 8)]
        self.pal = [f"new-{x}" for x in "abcdefghij"][:r.randint(2, 10)]
        self.pclash = r.choice([0, .1, .3]) if pclash is None else pclash
        self.pflaw = r.choice([0, .1, .35]) if pflaw is None else pflaw
        for d in ("X", "Y"):
            if r.random() < .4:
                plan[d] = r.sample(self.pool + self.pal, r.randint(1, 2))

    def cdef(self):
        r = self.r
        kind = r.choice(["q", "rk", "rk", "d", "d", "tab"])
        d = {"kind": kind, "name": r.choice(self.pool)}
        qn, dn = self.qn, self.dn
        names = {"q": qn, "rk": qn, "d": dn, "tab": dn}[kind]
        if kind == "tab" and r.random() < .8:
            d["name"] = r.choice(["MIN3", "MIN_VDHS"]) if r.random() < .5 else d["name"]
        if r.random() < self.pclash:
            d["name"] = r.choice(names)
        if r.random() < .75:
            d["aliases"] = r.sample(self.pal, r.randint(0, min(3, len(self.pal))))
            if r.random() < self.pclash:
                d["aliases"].insert(r.randint(0, len(d["aliases"])), r.choice(names if r.random() < .7 else qn + dn))
        if kind == "rk" and r.random() < .1:
            d["base"] = r.choice(self.rkn)
        if kind == "q" and r.random() < .4:
            d["params"] = True
            if r.random() < .4:
                d["sub"] = True
        if kind == "d" and r.random() < .4:
            d["kdep"] = True
        if r.random() < self.pflaw:
            fl = r.choice({"q": Q_FLAWS, "rk": RK_FLAWS, "d": D_FLAWS, "tab": ["tuple"]}[kind] + ALIAS_FLAWS)
            if fl in Q_FLAWS:
                d.pop("sub", None)
            if fl in ("noparams", "badparams"):
                d["params"] = True
            elif fl in ("ctor", "ctormem", "nested"):
                d.pop("params", None)
            if fl == "tuple":
                d["aliases"] = d.get("aliases") or [r.choice(self.pal)]
            elif fl == "twice":
                a = r.choice(self.pal)
                d["aliases"] = [a] + [x for x in d.get("aliases", []) if x != a] + [a]
                fl = None
            elif fl == "own":
                d["aliases"] = d.get("aliases", []) + [d["name"]]
                fl = None
            if fl:
                d["flaw"] = fl
        return d

    def api(self, c):
        r, plan = self.r, self.plan
        d = plan["classes"][c]
        k = d["kind"]
        if r.random() < .06:
            return r.choice(["scx", "scxy"])
        if k == "q":
            return r.choice(["q", "q", "qx", "qxy"])
        if k == "rk":
            return r.choice(["rk", "rk", "rk", "q", "store", "qx"] if not d.get("flaw") or d["flaw"] not in ("shapeA", "shapeb")
                            else ["rk", "rk", "store"])
        return {"d": "d", "tab": "tab"}[k]

    def look(self):
        r, plan, qn, dn, g = self.r, self.plan, self.qn, self.dn, self.g
        c = r.random()
        dn_ = r.choice(["Q", "Q", "D", "RK", "X", "Y"])
        if c < .35:
            return {"op": "list", "d": dn_, "scr": r.random() < .3, "mod": r.choice([None, None, None, "butcher", "collocation", "diag", "methods"])}
        cand = [n for d in plan["classes"] for n in [d["name"]] + list(d.get("aliases") or [])]
        name = r.choice(cand)
        if c < .7:
            return {"op": "look", "d": dn_, "name": name if r.random() < .8 else r.choice(qn + dn)}
        if c < .9:
            op = {"op": "use", "d": r.choice(["Q", "D"]), "name": name, "k": r.random() < .3}
            if op["d"] == "D" and r.random() < .5:
                op["qg"] = r.choice([1, 2])
            return op
        return r.choice([g.q_fn, g.d_fn])()

    def stream(self, n, plook):
        r, plan = self.r, self.plan
        out = []
        for _ in range(n):
            if r.random() < plook:
                out.append(self.look())
            else:
                c = r.randrange(len(plan["classes"]))
                out.append({"op": "reg", "c": c, "api": self.api(c)})
        return out


class C05(Prop):
    id = "C05"
    runs = {"quick": 1500, "thorough": 40000}
    judge = {"registry", "value", "exception", "stuck"}
    Engine = RegEngine
    rule = ("One case registers 2 to 9 classes (valid ones, and ones with clashing names or aliases, missing members, wrong shapes, "
            "failing constructors) through every registration interface, sequentially or from 2 to 4 threads under a seeded schedule that "
            "also look names up, list the registries and generate coefficients, with interrupts inside registrations in a third of "
            "the cases. The recorded history and the final registries are compared with a sequential registry model. Non-trivial: at "
            "least one accepted and one refused registration, or two threads; distinct: by history hash.")

    def make(self, rng, i, tier):
        r = rng
        plan = {"classes": [], "X": [], "Y": []}
        R = RegGen(r, plan)
        api, look, stream = R.api, R.look, R.stream
        for _ in range(r.randint(2, 9)):
            plan["classes"].append(R.cdef())
        plook = r.choice([.2, .4, .6])
        if r.random() < .4:
            plan["setup"] = stream(r.randint(4, 20), plook)
            plan["trace"] = True
        else:
            nt = r.choice([2, 2, 3, 4])
            plan["setup"] = stream(r.randint(0, 3), plook)
            plan["threads"] = [stream(r.randint(2, 5), plook) for _ in range(nt)]
            if r.random() < .5:         # all register the same, or clashing, classes
                c = r.randrange(len(plan["classes"]))
                twin = copy.deepcopy(plan["classes"][c])
                plan["classes"].append(twin)
                a = api(c)
                for t in range(nt):
                    plan["threads"][t].insert(r.randint(0, 1), {"op": "reg", "c": r.choice([c, len(plan["classes"]) - 1]), "api": a})
            plan["sched"] = sched_for(r)
            plan["gran"] = "opcode" if r.random() < .35 else "line"
            plan["fin"] = [r.randrange(12) for _ in range(nt + 1)]
        plan["final"] = [look() for _ in range(r.randint(1, 4))]
        for d in ("Q", "D", "RK"):
            plan["final"].append({"op": "list", "d": d})
        if r.random() < .33:
            rel_faults(r, plan, r.randint(1, 3), where=lambda o: o["op"] == "reg", seam_kinds=())
        return plan

    def nontrivial(self, plan, out):
        return out["checked"] >= 3 and (len(plan.get("threads", [])) > 1 or out["raised"] > 0)

    def shrink(self, plan):
        yield from super().shrink(plan)
        for c, d in enumerate(plan["classes"]):
            for key in ("params", "kdep", "base", "sub"):
                if d.get(key):
                    yield dict(plan, classes=[{k: v for k, v in x.items() if k != key} if j == c else x
                                              for j, x in enumerate(plan["classes"])])
            al = d.get("aliases") or []
            for j in range(len(al)):
                yield dict(plan, classes=[dict(x, aliases=al[:j] + al[j + 1:]) if k == c else x
                                          for k, x in enumerate(plan["classes"])])
        for key in ("X", "Y"):
            if plan.get(key):
                yield dict(plan, **{key: []})
