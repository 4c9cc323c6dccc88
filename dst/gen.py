"""Seeded generation of specs and operations (pure JSON)"""
import math
import copy
import random
import numpy as np

from . import ref
from .world import QD_ALIASES, QD_KIND, ON_TYPES, ON_NODES, TIMESTEP, KDEP, TABLE, RK, RK_ALIAS

INTERVALS = [(-1., 1.), (0., 2.), (0.5, 2.25), (1., 3.), (0., 0.125), (-2., -1.), (0., 0.001), (10., 11.5), (-0.25, 0.),
             (1e4, 1e4 + 1), (-1e3, -999.5), (0., 1e-9), (3e-9, 5e-9), (0., 1e6)]
SCR = ["nan", "neg", "one", "sort", "zero"]


BAD = ["q.fn", "q.args", "q.pad", "d.fn", "d.noarg", "abstract", "l.sr", "l.new", "l.fv", "l.dup", "sdc.mon", "q.form", "q.solve",
       "q.emb", "d.k", "d.klist", "d.form", "l.quad", "l.shape", "l.call", "l.order"]
INT_FORMS = ["arr", "list", "view", "ro", "ilist", "ilist", "ituple", "iarr", "iarr", "i32"]


class Gen:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.cfg = dict(maxn=rng.choice([3, 4, 5, 6, 8, 12]), heavy=0.15, intervals=rng.random() < .6,
                        scr=rng.choice([0., .3, .7]), big=0.03, dups=rng.choice([.15, .15, .8]))
        # swarm: restrict kinds per run
        self.nts = rng.sample(ref.NODE_TYPES, rng.randint(1, 6))
        self.qts = rng.sample(ref.QUAD_TYPES, rng.randint(1, 4))
        kinds = list(QD_ALIASES)
        self.kinds = kinds if rng.random() < .4 else rng.sample(kinds, rng.randint(3, 12))
        self.cfg.update(cfg)
        self.lastl = {}                 # object -> last request made of it
        self.scale = rng.choice([1e-13, 1e-12, 1e-9, 1e-6, 1e-3, 1e6]) if rng.random() < .15 else 1

    def chance(self, p):
        return self.r.random() < p

    def num(self, a, b):
        return round(self.r.uniform(a, b), 4)

    # ------------------------------------------------------------- specs
    def coll(self, **kw):
        r = self.r
        n = r.randint(1, self.cfg["maxn"]) if not self.chance(self.cfg["big"]) else r.randint(9, 20)
        nt, qt = r.choice(self.nts), r.choice(self.qts)
        s = {"c": "coll", "n": n, "nt": nt, "qt": qt}
        s.update(kw)
        if s["qt"] in ("LOBATTO", "RADAU-LEFT"):
            s["n"] = max(2, s["n"])
        return s

    def coll_iv(self, **kw):
        s = self.coll(**kw)
        if self.cfg["intervals"] and self.chance(.4):
            if self.chance(.2):     # only one bound is given
                s[self.r.choice(["tL", "tR"])] = self.r.choice([.5, .25, .125])
            else:
                s["tL"], s["tR"] = self.r.choice(INTERVALS)
        return s

    def rk(self):
        r = self.r
        s = {"c": "rk", "name": r.choice(sorted(RK))}
        if self.chance(.5):
            s["pad"] = r.choice(["LEFT", "RIGHT", "BOTH"])
        return s

    def qgen(self):
        return self.coll_iv() if self.chance(.6) else self.rk()

    def kind_for(self, src, heavy=None, only=None):
        """A QDelta kind defined on src"""
        heavy = self.cfg["heavy"] if heavy is None else heavy
        for _ in range(60):
            k = self.r.choice(only or self.kinds)
            if self.ok_kind(k, src, heavy):
                return k
        return "GS"

    def ok_kind(self, k, src, heavy):
        if src["c"] in ("rk", "raw"):
            return k in ("PIC", "Exact", "LU", "LU2", "QPar", "GS", "BE", "FE", "TRAP", "BEPAR", "TRAPAR",
                         "MIN_SR_NS", "Jumper", "FlexJumper") or k.startswith("DNODES")
        if k in TABLE:
            return src["n"] in TABLE[k].get((src["nt"], src["qt"]), [])
        if k == "MIN":
            return src["n"] <= 4 and src["qt"] in ("GAUSS", "RADAU-RIGHT") and self.chance(heavy)
        if k == "MIN_SR_S":
            return src["n"] <= 5 and self.chance(heavy)
        if k == "LDU":
            return src["n"] <= 12 and src["qt"] in ("GAUSS", "RADAU-RIGHT")
        if k == "SOE":
            return src["n"] <= 12
        return True

    def alias(self, kind):
        return self.r.choice(QD_ALIASES[kind])

    def src(self):
        return self.coll() if self.chance(.85) else self.rk()

    def raw(self):
        """nodes and a Q matrix as people give them themselves, e.g. integers"""
        r = self.r
        n = r.randint(1, 5)
        if self.chance(.6):
            pts = sorted(r.sample(range(-2, 9), n))
        elif self.chance(.5):
            pts, x = [], r.choice([0., .125, -.5, 2.5])
            for _ in range(n):
                pts.append(x)
                x += r.choice([.125, .5, 1., 1.5])
        else:
            pts = [(m + 1)/n for m in range(n)]
        tL = r.choice([0, pts[0], pts[0] - .5, pts[0] - .25, pts[0] - 1, pts[0] - 3])
        Q = []
        for i in range(n):      # diagonally dominant: one LU factorisation, however it is pivoted
            Q.append([r.choice([1, -1, 2, 0, .5] if self.chance(.3) else [1, -1, 0, 2]) for _ in range(n)])
        for i in range(n):
            m = max(sum(abs(x) for x in Q[i]), sum(abs(q[i]) for q in Q))
            Q[i][i] = m + r.randint(1, 3)
        return {"c": "raw", "n": n, "pts": pts, "Q": Q, "at": min(tL, pts[0])}

    def table_src(self):
        nt, qt = self.r.choice(sorted(TABLE["MIN3"]))
        return {"c": "coll", "n": self.r.choice([2, 3, 4, 5]), "nt": nt, "qt": qt}

    def qd(self, src=None, kind=None, ref=None):
        r = self.r
        if kind is None and src is None and self.chance(.1):
            src = self.table_src()
            kind = "MIN3" if src["n"] not in (3, 4) or self.chance(.5) else self.kind_for(src, only=["MIN3", "MIN_VDHS"])
            if not self.ok_kind(kind, src, 0):
                kind = "GS"
        elif kind is None and src is None and self.chance(.1):
            src = self.raw()
        src = src or self.src()
        kind = kind or self.kind_for(src)
        s = {"c": "qd", "t": self.alias(kind)}
        if ref is not None:
            s["ref"] = ref
            return s
        s["src"] = src
        s["via"] = r.choice(["qGen", "kw", "pos"]) if kind != "MIN" else "qGen"
        if src["c"] == "raw":
            s["via"] = r.choice(["kw", "pos"])
            s["af"] = r.choice(INT_FORMS)
            if kind in TIMESTEP and self.chance(.7):
                s["tL"] = src["at"]
            if s["via"] == "kw" and self.chance(.3):
                s["extra"] = True
            return s
        if s["via"] == "qGen":
            if kind in TIMESTEP and src["c"] == "coll" and self.chance(.25):
                iv = r.choice(INTERVALS)
                s["src"] = dict(src, tL=iv[0], tR=iv[1])
                s["tL"] = iv[0]
            if self.cfg.get("old", True) and self.chance(.1):
                s["old"] = True
        else:
            s["af"] = r.choice(["arr", "arr", "list", "view", "rev", "ro", "F"]) if kind not in ON_TYPES else "arr"
            if kind in TIMESTEP and src["c"] == "coll" and self.chance(.4):
                iv = r.choice(INTERVALS)
                s["src"] = dict(src, tL=iv[0], tR=iv[1])
                s["tL"] = iv[0]
            if s["via"] == "kw" and self.chance(.3):
                s["extra"] = True
        return s

    def ks(self, kind, src):
        """an iteration number"""
        k = self.ks1(kind, src)
        self.klast = k
        return k

    def ks1(self, kind, src):
        r = self.r
        n = src.get("n", 3)
        if self.klast and self.chance(.2) and (kind != "MIN_SR_FLEX" or self.klast < n):
            return self.klast + 1       # the next sweep
        if kind == "MIN_SR_FLEX":
            hi = n + 3 if (n <= 4 and self.chance(self.cfg["heavy"]*2)) else n
            return r.choice([None] + list(range(1, hi + 1)))
        if self.chance(.12):
            return r.choice([r.randint(8, 40), r.randint(41, 300)])
        return r.choice([None, 1, 1, 2, 3, n, n + 1, 7, 12, 64])

    klast = None

    def sweeps(self, i, spec, src):
        """what an SDC code asks: one iteration after the other"""
        r = self.r
        kind = QD_KIND[spec["t"]]
        hi = r.randint(2, 9)
        if kind == "MIN_SR_FLEX" and not (src["n"] <= 4 and self.chance(self.cfg["heavy"]*2)):
            hi = min(hi, src["n"])
        k0 = r.choice([1, 1, 1, 2, 3])
        form = r.choice(["get", "get", "S", "gen"])
        out = []
        for k in range(k0, hi + 1):
            if form == "gen" or self.chance(.1):
                op = {"op": "d.gen", "i": i, "k": k, "form": r.choice(["Z2N", "N2N"]), "dTau": False, "kf": "list", "scr": self.scr()}
            elif form == "S":
                op = {"op": "d.S", "i": i, "k": k, "scr": self.scr()}
            else:
                cp = self.chance(.75)
                op = {"op": "d.get", "i": i, "k": k, "copy": cp, "scr": self.scr() if cp else None}
            out.append(op)
        return out

    def points(self, n=None, dup=True):
        r = self.r
        n0, n = n, n or r.randint(1, min(self.cfg["maxn"], 9))
        a = r.choice([0., -1., 0.5, -3.])
        w = r.choice([1., 2., 0.25, 10.])
        if n0 is None and self.chance(self.cfg["big"]):     # many points, where interpolation is well conditioned
            n = r.randint(16, 60)
            return [a + w*(1 - math.cos(math.pi*(j + .5)/n))/2 for j in range(n)]
        # distinct, well separated
        cells = sorted(r.sample(range(2*n), n))
        pts = [round(a + w*(c + r.uniform(.2, .8))/(2*n), 6) for c in cells]
        if self.chance(.3):
            pts = [a + w*i/max(1, n - 1) for i in range(n)]
        if self.chance(.15):
            r.shuffle(pts)
        if dup and n > 1 and self.chance(self.cfg["dups"]):
            for _ in range(r.randint(1, 2)):
                pts.insert(r.randint(0, len(pts)), r.choice(pts))
            if self.chance(.7):
                pts.sort()
        return pts

    def lag(self, n=None):
        r = self.r
        pts = self.points(n)
        if self.scale != 1 or self.chance(.02):
            f = self.scale if self.scale != 1 else r.choice([1e-12, 1e-9, 1e-5, 1e7])
            pts = [x*f for x in pts]
        s = {"c": "lag", "pts": pts}
        if self.chance(.4):
            s["wc"] = r.choice(["AUTO", "FAST", "STABLE", "CHEBFUN"])
        if self.chance(.3):
            s["sr"] = r.choice(["ZERO", "MAX"])
        if self.chance(.3):
            s["sw"] = True
        if len(set(pts)) < len(pts) and self.chance(.7):
            s["dup"] = r.choice(["USE_LEFT", "USE_RIGHT"])
        if self.chance(.5):
            s["fv"] = [self.num(-2, 2) for _ in pts]
        if self.chance(.5):
            s["af"] = r.choice(["list", "tuple", "view", "rev", "ro", "ilist", "ituple"])
        return s

    def times(self, spec, m=None):
        r = self.r
        lo, hi = min(spec["pts"]), max(spec["pts"])
        w = (hi - lo) or 1.
        out = []
        e = .1 if len(spec["pts"]) <= 15 else 0.        # extrapolation from many points is ill-conditioned
        if m is None and self.chance(.1):       # what everyone asks for
            std = [t for t in (0., 1., -1., .5, .25) if lo - e*w <= t <= hi + e*w]
            if std:
                return [r.choice(std)]
        for _ in range(m or r.randint(1, 8)):
            c = r.random()
            if c < .25:
                out.append(r.choice(spec["pts"]))
            elif c < .3 and out:
                out.append(r.choice(out))
            elif c < .42 and w < 50 and lo - e*w <= round(lo + w*r.random()) <= hi + e*w:
                out.append(float(r.choice([v for v in range(int(lo) - 1, int(hi) + 2) if lo - e*w <= v <= hi + e*w])))
            else:
                out.append(lo + w*round(r.uniform(-e, 1 + e), 5))
        return out

    # --------------------------------------------------------- operations
    def scr(self):
        return self.r.choice(SCR) if self.chance(self.cfg["scr"]) else None

    def q_op(self, i, spec):
        r = self.r
        has_b2 = spec["c"] == "rk" and RK[spec["name"]][3] is not None
        c = r.random()
        if c < .35:
            a = r.choice(["nodes", "weights", "Q", "S", "hCoeffs", "T", "Tinv", "nNodes", "orders", "rightIsNode"] + ["wEmb"]*has_b2)
            return {"op": "q.attr", "i": i, "a": a, "scr": self.scr() if a in ("S", "hCoeffs", "T", "Tinv") and self.chance(.4) else None}
        if spec["c"] == "coll" and spec["n"] <= 9 and self.chance(.1):
            return dict(self.order_sdc(spec), i=i)
        if c < .85:
            return {"op": "q.gen", "i": i, "form": r.choice(["Z2N", "N2N"]), "h": self.chance(.5),
                    "e": has_b2 and self.chance(.5), "scr": self.scr()}
        return dict(self.solve(spec), op="q.solve", i=i, e=has_b2 and self.chance(.4), scr=self.scr())

    def solve(self, spec=None, N=None):
        r = self.r
        lam = r.choice([[-1., 0.], [0., 1.], [self.num(-2, 0.2), self.num(-2, 2)], -1., -0.5])
        s = {"lam": lam, "u0": r.choice([1., [1., 0.], [self.num(-1, 1), self.num(.5, 1)], 2]),
             "T": r.choice([1., 0.5, 2., 1]), "N": N or r.randint(1, 12)}
        if self.chance(.06):
            s["N"] = r.randint(13, 80)
        if self.chance(.25):
            s["err"] = True
            if self.chance(.4):
                s["un"] = [[self.num(-1, 1), self.num(-1, 1)] for _ in range(s["N"] + 1)]
        return s

    def order_sdc(self, spec):
        """what getOrderSDC is asked, mostly where it knows special cases"""
        r = self.r
        return {"op": "order", "src": {k: spec[k] for k in ("c", "n", "nt", "qt")}, "ns": r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 7]),
                "qD": r.choice(["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "LU"]), "su": r.choice(["QUADRATURE", "LASTNODE", False])}

    def q_fn(self, spec=None):
        r = self.r
        spec = spec or self.qgen()
        names = ["Collocation", "coll"] if spec["c"] == "coll" else RK_ALIAS[spec["name"]]
        has_b2 = spec["c"] == "rk" and RK[spec["name"]][3] is not None
        return {"op": "q.fn", "spec": spec, "name": r.choice(names), "form": r.choice(["Z2N", "N2N"]),
                "h": self.chance(.5), "e": has_b2 and self.chance(.5), "scr": self.scr()}

    def d_op(self, i, spec, src):
        op = self.d_op1(i, spec, src)
        if "k" in op and not isinstance(op["k"], list) and self.chance(.1):
            op["kt"] = "np"
        return op

    def d_op1(self, i, spec, src):
        r = self.r
        kind = QD_KIND[spec["t"]]
        c = r.random()
        if self.chance(.05):
            self.klast = r.choice([1, 1, 2])
        if c < .3:
            cp = self.chance(.75)
            return {"op": "d.get", "i": i, "k": self.ks(kind, src), "copy": cp, "scr": self.scr() if cp else None}
        if c < .45:
            return {"op": "d.S", "i": i, "k": self.ks(kind, src), "scr": self.scr()}
        if c < .47:
            return {"op": "d.attr", "i": i}
        if c < .5:
            return {"op": "d.tau", "i": i, "scr": self.scr()}
        if c < .55:
            return {"op": "d.compute", "i": i, "k": self.ks(kind, src)}
        k = self.ks(kind, src)
        if self.chance(.5):
            k = [self.ks(kind, src) or 1 for _ in range(r.randint(1, 5))]
        return {"op": "d.gen", "i": i, "k": k, "form": r.choice(["Z2N", "N2N"]), "dTau": self.chance(.3),
                "scr": self.scr(), "kf": r.choice(["list", "tuple", "arr"])}

    def d_fn(self, src=None):
        r = self.r
        src = src or (self.raw() if self.chance(.08) else self.src())
        op = {"op": "d.fn", "src": src, "via": r.choice(["qGen", "kw"]), "form": r.choice(["Z2N", "N2N"]),
              "dTau": self.chance(.3), "scr": self.scr(), "af": r.choice(["arr", "list", "view"])}
        if src["c"] == "raw":
            op["via"], op["af"] = "kw", r.choice(INT_FORMS)
            if self.chance(.5):
                op["tL"] = src["at"]
        c = r.random()
        n = src.get("n", 3)

        def fits(k, kmax):
            return k != "MIN_SR_FLEX" or kmax <= n or (n <= 4 and self.chance(self.cfg["heavy"]))
        if c < .35:
            op["types"] = self.alias(self.kind_for(src))
        elif c < .6:
            k = self.kind_for(src)
            op["ns"] = r.randint(1, 6) if not self.chance(.1) else r.randint(7, 40)
            if not fits(k, op["ns"]):
                op["ns"] = min(n, op["ns"])
            op["types"] = self.alias(k) if self.chance(.5) else [self.alias(k)]
        else:
            m = r.randint(1, 4)
            extra = r.choice([None, 0, 1, 3])
            tot = m + (extra or 0)
            ks = []
            while len(ks) < m:
                k = self.kind_for(src)
                ks.append(k if fits(k, tot) else "GS")
            op["types"] = [self.alias(k) for k in ks]
            if extra is not None:
                op["ns"] = tot
        ts = [op["types"]] if isinstance(op["types"], str) else op["types"]
        if any(QD_KIND[t] == "MIN" for t in ts):
            op["via"] = "qGen"
        return op

    @staticmethod
    def applies(op, spec):
        """is a request made of one approximation a good one for another, too?"""
        if spec["c"] != "lag":
            return True
        ts = np.ravel(op.get("ts", op.get("ivs", [])))
        return np.shape(op.get("fv", spec["pts"])) == np.shape(spec["pts"]) and (
            not ts.size or min(spec["pts"]) <= ts.min() and ts.max() <= max(spec["pts"])) and (
            op["op"] != "l.call" or "fv" in op or spec.get("fv") is not None) and (op["op"] != "l.der" or len(set(spec["pts"])) > 1)

    def l_op(self, i, spec):
        op = self.l_op1(i, spec)
        key = i, tuple(spec["pts"]), spec.get("fv") is None
        last = self.lastl.get(key)
        self.lastl[key] = op
        if last and self.chance(.3) and last["op"] in ("l.int", "l.quad", "l.call") and last.get("ts", [0]) != [] and \
                not isinstance(last.get("ts"), float):      # the same again for other times
            n = np.size(last["ts"]) if "ts" in last else np.size(last["ivs"])
            op = dict(copy.deepcopy(last), scr=self.scr())
            t = self.times(spec, n)
            if "ts" in op:
                op["ts"] = np.reshape(t, np.shape(op["ts"])).tolist()
            else:
                op["ivs"] = [[a, b] for a, b in zip(t[::2], t[1::2])]
            op.pop("no", None)
        return op

    def l_op1(self, i, spec):
        r = self.r
        c = r.random()
        op = {"i": i, "scr": self.scr(), "af": r.choice([None, "list", "tuple", "view", "rev", "ilist", "ituple"])}
        if self.chance(.5 if len(set(spec["pts"])) < len(spec["pts"]) else .1):
            op["dup"] = self.chance(.5)
        if c < .07:
            op.pop("dup", None)
            op.update(op="l.attr")
        elif c < .35:
            op.update(op="l.int", ts=self.times(spec))
        elif c < .65:
            ts = self.times(spec, 2*r.randint(1, 5))
            op.update(op="l.quad", ivs=[[a, b] for a, b in zip(ts[::2], ts[1::2])])
            if self.chance(.4):
                op["nq"] = r.choice(["LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"])
        elif c < .8 and len(set(spec["pts"])) > 1:
            op.update(op="l.der", order=r.choice([1, 2, "ALL"]))
            if self.chance(.15):
                op["old"] = True
        else:
            op.pop("dup", None)
            op.update(op="l.call", ts=self.shaped(self.times(spec)))
            op["af"] = self.layout(op)
            if spec.get("fv") is None or self.chance(.4):
                op["fv"] = [self.num(-2, 2) for _ in spec["pts"]]
        return op

    def shaped(self, ts):
        r = self.r
        c = r.random()
        if c < .15:
            return ts[0]
        if c < .4 and len(ts) % 2 == 0:
            return [ts[:len(ts)//2], ts[len(ts)//2:]]
        if c < .5 and len(ts) % 4 == 0:
            return [[ts[:2], ts[2:4]], [ts[:2][::-1], ts[-2:]]]
        return ts

    def layout(self, op):
        """how an argument of a function evaluation lies in memory"""
        return self.r.choice([None, None, "list", "view", "rev", "F", "T", "cols", "ro"])

    def sparse(self):
        r = self.r
        nx = r.randint(3, 10) if self.chance(.93) else r.randint(11, 70)
        h = r.choice([1., 0.1, 1e-3, 1e-6, 3e-9])
        order = r.randint(1, min(4, nx - 1))
        per = None
        if self.chance(.3) and nx >= 5:
            order = min(order, nx//2 - 1) or 1
            per = nx*h
            x = [j*h for j in range(nx)]
        elif self.chance(.5):
            x = [j*h for j in range(nx)]
        else:
            x = [j*h + h*round(r.uniform(-.2, .2), 3) for j in range(nx)]
        y = []
        for _ in range(r.randint(1, 8) if self.chance(.95) else r.randint(30, 120)):
            j = r.randint(0, nx - 2)
            c = r.random()
            f = .31 if c < .5 else r.choice([.17, .23, .37, .61, .83]) + round(r.uniform(-.05, .05), 3)
            if per and self.chance(.1):
                j = nx - 1
            elif not per and self.chance(.05):
                j = r.choice([-1, nx - 1])
            y.append((j + f)*h)
        if per and self.chance(.4):     # output points in other periods
            m = r.choice([1, 1, -1, 2, -3])
            y = [v + m*per if r.random() < .5 else v for v in y]
        op = {"op": "sparse", "x": x, "y": y, "order": order, "scr": self.scr(), "af": r.choice(["arr", "view", "ro"])}
        if per:
            op["per"] = per
        return op

    def sdc(self):
        r = self.r
        src = self.coll() if self.chance(.9) else self.rk()
        if src["c"] == "coll":
            src["n"] = min(src["n"], 8)
        kinds = [k for k in ("PIC", "Exact", "LU", "QPar", "GS", "BE", "TRAP", "FE", "BEPAR", "TRAPAR", "MIN_SR_NS",
                             "MIN_SR_FLEX", "Jumper", "DNODES")]
        K = r.randint(1, 6)
        if src["c"] == "coll" and K > src["n"]:
            kinds.remove("MIN_SR_FLEX")
        flat = self.chance(.5)
        types = [self.alias(self.kind_for(src, only=kinds)) for _ in range(1 if flat else K)]
        op = dict(self.solve(N=r.randint(1, 6)), op="sdc", src=src, types=types, flat=flat, K=K, w=self.chance(.5),
                  scr=self.scr(), af=r.choice(["arr", "view", "rev", "ro", "F", "cplx"]))
        if op["w"] and self.chance(.3):
            op["wf"] = r.choice(["arr", "ro", "cplx"])
        if not op.get("err"):
            op.pop("un", None)
            if self.chance(.5):
                op["mon"] = r.sample(["residuals", "errors"], r.randint(1, 2))
                op["mf"] = r.choice(["list", "dict"])
        return op

    def util(self):
        r = self.r
        c = r.random()
        if self.chance(.12):
            kw = {"scale": r.choice([1, 60, 3600, 1000, 1e-3])} if self.chance(.7) else {}
            if self.chance(.4):
                kw["descr"] = r.choice(["tComp", "wall time per step"])
            return {"op": "clock", "kw": kw, "with": self.chance(.6)}
        if c < .04:
            x = sorted(self.num(.05, 1) for _ in range(r.randint(2, 4)))
            return {"op": "fit", "x": x, "co": [v*r.uniform(.3, .6) for v in x], "scr": self.scr()}
        if c < .3:
            n = r.randint(1, 5) if self.chance(.9) else r.randint(6, 20)
            A = [[self.num(-1, 1) + (max(4., n) if i == j else 0.) for j in range(n)] for i in range(n)]
            return {"op": "ldu", "A": A, "scr": self.scr(), "af": r.choice(["arr", "view", "F", "ro"])}
        if c < .6:
            x = sorted(set(self.points(r.randint(2, 5), dup=False)))
            x = [(v - x[0])/((x[-1] - x[0]) or 1.) for v in x]
            op = {"op": "extra", "x": x, "ts": [self.num(0, 1.2) for _ in range(r.randint(1, 4))], "scr": self.scr(),
                  "af": r.choice(["arr", "list", "view", "ro"])}
            if len(x) > 2 and self.chance(.4):
                op["p"] = r.randint(1, len(x) - 2)
            return op
        m = r.randint(2, 5) if self.chance(.9) else r.randint(6, 12)
        n0 = r.choice([4, 5, 10])
        e = [10.**(-1 - j*r.uniform(.4, 1.4)) for j in range(m)]
        if self.chance(.15):
            e[-1] = 0.
        return {"op": "norder", "n": [n0*2**j for j in range(m)], "e": e, "af": r.choice(["arr", "list", "tuple", "ro"])}

    def ng(self):
        return {"c": "ng", "nt": self.r.choice(self.nts), "qt": self.r.choice(self.qts)}

    def n_op(self, i, spec):
        r = self.r
        lo = 2 if spec["qt"] in ("LOBATTO", "RADAU-LEFT") else 1
        n = r.randint(lo, max(self.cfg["maxn"], 3)) if not self.chance(self.cfg["big"]) else r.randint(13, 90)
        op = {"i": i, "n": n, "scr": self.scr()}
        c = r.random()
        if c < .5 or spec["nt"] == "EQUID":
            op["op"] = "n.get"
        elif c < .7:
            op["op"] = "n.coef"
        elif c < .85:
            op["op"] = "n.tri"
        else:
            al, be = ref.recurrence(n, spec["nt"])
            op.update(op="n.eval", ts=[self.num(-1, 1) for _ in range(r.randint(1, 4))], al=al.tolist(), be=be.tolist(),
                      af=r.choice([None, "list", "view", "ro"]))
        return op

    def q_inst(self):
        r = self.r
        if self.chance(.4):
            spec, name = {"c": "coll", "n": 4, "nt": "LEGENDRE", "qt": "RADAU-RIGHT"}, r.choice(["Collocation", "coll"])
        else:
            spec = {"c": "rk", "name": r.choice(sorted(RK))}
            name = r.choice(RK_ALIAS[spec["name"]])
        return {"op": "q.inst", "spec": spec, "name": name, "form": r.choice(["Z2N", "N2N"]), "h": self.chance(.3),
                "e": RK[spec["name"]][3] is not None and self.chance(.4) if spec["c"] == "rk" else False, "scr": self.scr()}

    def nodes(self):
        if self.chance(.25):
            return {"op": "fejer", "n": self.r.randint(1, 12) if self.chance(.85) else self.r.randint(13, 200), "scr": self.scr()}
        s = self.coll()
        return {"op": "nodes", "n": s["n"], "nt": s["nt"], "qt": s["qt"], "scr": self.scr()}

    def bad(self, specs, ids, only=None):
        """a call that must fail (or is at least odd)"""
        r = self.r
        i = r.choice(ids) if ids else None
        c = specs[i]["c"] if i is not None else None
        opts = [{"w": "q.fn"}, {"w": "q.args", "n": r.choice([0, 1, -1]), "nt": r.choice(["LEGENDRE", "FOURIER"]),
                                "qt": r.choice(["LOBATTO", "GAUSS", "SIMPSON"])},
                {"w": "q.pad"}, {"w": "d.fn", "types": ["BE", "NOPE"], "src": self.coll()},
                {"w": "d.fn", "types": "BE", "ns": -1, "src": self.coll()},
                {"w": "d.fn", "types": ["BE", "LU"], "ns": 1, "src": self.coll()},
                {"w": "d.noarg", "types": r.choice(["BE", "LU", "MIN_SR_S", "MIN-SR-FLEX"])},
                {"w": "d.fn", "types": r.choice([{"BE": 1}, 3]), "src": self.coll()},
                {"w": "d.fn", "types": r.choice(["MIN3", "VDHS"]), "src": {"c": "coll", "n": 6, "nt": "CHEBY-3", "qt": "GAUSS"}},
                {"w": "abstract", "k": r.randrange(5)}, {"w": "l.sr"},
                {"w": "l.new"}, {"w": "l.fv"}, {"w": "l.dup"}, {"w": "sdc.mon"}]
        if c in ("coll", "rk"):
            opts += [{"w": "q.form"}, {"w": "q.solve", "n": 0}]*3
            if not (c == "rk" and RK[specs[i]["name"]][3] is not None):
                opts += [{"w": "q.emb"}]*3
        elif c == "qd":
            opts += [{"w": "d.k", "k": r.choice([0, -1, "a"])}, {"w": "d.klist", "k": r.choice([[0], [1, 0], [2, -3, 1], ["a"]]),
                     "form": r.choice(["Z2N", "N2N"])}, {"w": "d.form"}]*4
        elif c == "lag":
            opts += [{"w": "l.quad"}, {"w": "l.shape"}, {"w": "l.call"}, {"w": "l.order"}]*3
        if only is not None:
            opts = [o for o in opts if o["w"] == only] or opts
        return dict(r.choice(opts), op="bad", i=i)

    # ---------------------------------------------------------- a world
    def specs(self, n, mix=("q", "q", "q", "d", "d", "d", "l", "l", "l", "n")):
        """object specs; QDelta objects may be built from an earlier generator object"""
        r = self.r
        out = []
        for _ in range(n):
            m = r.choice(mix)
            if m == "q":
                out.append(self.qgen())
            elif m == "l":
                out.append(self.lag())
            elif m == "n":
                out.append(self.ng())
            else:
                refs = [i for i, s in enumerate(out) if s["c"] in ("coll", "rk") and "tL" not in s and "tR" not in s]
                if refs and self.chance(.5):
                    i = r.choice(refs)
                    out.append(dict(self.qd(out[i], self.kind_for(out[i])), ref=i))
                    out[-1].pop("src", None)
                    for x in ("via", "af", "tL", "extra"):
                        out[-1].pop(x, None)
                else:
                    out.append(self.qd())
        return out

    @staticmethod
    def src_of(specs, i):
        s = specs[i]
        return specs[s["ref"]] if "ref" in s else s["src"]

    def on(self, specs, i):
        """an operation on object i"""
        s = specs[i]
        if s["c"] in ("coll", "rk"):
            return self.q_op(i, s)
        if s["c"] == "qd":
            return self.d_op(i, s, self.src_of(specs, i))
        if s["c"] == "ng":
            return self.n_op(i, s)
        return self.l_op(i, s)

    def call(self, mix):
        """an operation that is a plain function call"""
        m = self.r.choice(mix)
        if m == "q":
            return self.q_fn() if self.chance(.85) else self.q_inst()
        if m == "d":
            return self.d_fn()
        if m == "sdc" and self.chance(.2):
            return self.order_sdc(self.coll(n=self.r.choice([2, 3, 3, 4, 4])))
        return {"sparse": self.sparse, "sdc": self.sdc, "util": self.util, "nodes": self.nodes}[m]()


def rng_for(*key):
    import hashlib
    h = hashlib.sha256(":".join(map(str, key)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))
