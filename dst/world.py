"""Operations on the real qmat, and what they must return.

An operation is a JSON object; World.perform() executes it against the real
code, World.expected() gives the values the reference models (ref.py) or a
pristine process ("baseline") define for it.  Expectations depend only on the
operation and on the specs of the objects in the plan, never on the history.
"""
import copy
import json
import pickle
import sys
import numpy as np

from . import ref

QD_ALIASES = {
    "PIC": ["PIC", "Picard"], "Exact": ["Exact", "EXACT"], "LU": ["LU"], "LU2": ["LU2"],
    "QPar": ["QPar", "Qpar", "Qdiag"], "GS": ["GS", "GaussSeidel"], "LDU": ["LDU"],
    "MIN": ["MIN", "MIN-Speck"], "MIN3": ["MIN3", "Magic_Numbers"], "MIN_VDHS": ["MIN_VDHS", "VDHS"],
    "MIN_SR_NS": ["MIN_SR_NS", "MIN-SR-NS", "MIN_GT"], "MIN_SR_S": ["MIN_SR_S", "MIN-SR-S"],
    "MIN_SR_FLEX": ["MIN_SR_FLEX", "MIN-SR-FLEX"], "Jumper": ["Jumper", "JUMPER", "FB"],
    "FlexJumper": ["FlexJumper", "FLEX-JUMPER", "FB2"],
    "DNODES": ["DNODES", "DNODES-1"], "DNODES2": ["DNODES2", "DNODES-2"], "DNODES3": ["DNODES3", "DNODES-3"],
    "DNODES4": ["DNODES4", "DNODES-4"], "DNODES5": ["DNODES5", "DNODES-5"],
    "BE": ["BE", "IE"], "FE": ["FE", "EE"], "TRAP": ["TRAP", "CN"], "BEPAR": ["BEPAR", "IEpar"],
    "TRAPAR": ["TRAPAR"], "SOE": ["SOE", "LeapFrog", "LF"]}
QD_KIND = {a: k for k, v in QD_ALIASES.items() for a in v}
ON_Q = ["PIC", "Exact", "LU", "LU2", "QPar", "GS", "LDU", "MIN"]
ON_NODES = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "MIN_SR_NS", "Jumper", "FlexJumper",
            "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5"]
ON_TYPES = ["MIN3", "MIN_VDHS", "MIN_SR_S", "MIN_SR_FLEX"]
TIMESTEP = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
KDEP = ["MIN_SR_FLEX", "Jumper", "FlexJumper"]
CHEAP = [k for k in QD_ALIASES if k not in ("MIN", "MIN_SR_S")]
TABLE = {"MIN3": {("LEGENDRE", "LOBATTO"): [2, 3, 4, 5, 7, 9], ("LEGENDRE", "RADAU-RIGHT"): [2, 3, 4, 5, 7, 9],
                  ("EQUID", "RADAU-RIGHT"): [2, 3, 4, 5, 7, 9]},
         "MIN_VDHS": {("LEGENDRE", "RADAU-RIGHT"): [3, 4]}}

Q = None        # filled by load(): the qmat modules
RK = {}         # pristine Butcher tables: name -> (A, b, c, b2, order)
RK_ALIAS = {}   # class name -> all names
RK_TWINS = []   # names of methods with the same nodes
RK_SIZES = []   # names of methods with as many nodes
RK_ORDER = {}   # class name -> (order, order of the embedded method)


def load():
    """Import the real code and snapshot the pristine Butcher tables"""
    global Q
    import importlib
    import types
    m = importlib.import_module
    Q = types.SimpleNamespace(
        top=m("qmat"), qc=m("qmat.qcoeff"), qd=m("qmat.qdelta"), coll=m("qmat.qcoeff.collocation"),
        rk=m("qmat.qcoeff.butcher"), lag=m("qmat.lagrange"), nodes=m("qmat.nodes"),
        utils=m("qmat.utils"), num=m("qmat.utils.num"), sdc=m("qmat.utils.sdc"),
        diag=m("qmat.qdelta.diag"))
    for name, cls in list(Q.rk.RK_SCHEMES.items()):
        cname = cls.__name__
        RK_ALIAS.setdefault(cname, []).append(name)
        if cname not in RK:
            b2 = cls.b2
            try:
                o = cls()
                RK_ORDER[cname] = (o.order, o.orderEmbedded)
            except Exception:
                pass
            RK[cname] = (np.array(cls.A, float), np.array(cls.b, float), np.array(cls.c, float),
                         None if b2 is None else np.array(b2, float))
    for groups, key in (RK_TWINS, lambda t: t[2].tobytes()), (RK_SIZES, lambda t: len(t[2])):
        d = {}
        for name in sorted(RK):
            d.setdefault(key(RK[name]), []).append(name)
        groups[:] = [x for x in d.values() if len(x) > 1]
    if not Q.top.__file__.startswith(__import__("os").environ.get("DST_REPO", "/repo") + "/qmat/"):
        raise RuntimeError("wrong qmat: " + Q.top.__file__)
    return Q


class Undefined(Exception):
    """the operation has no defined value (only produced by minimisation)"""


# ---------------------------------------------------------------- expectations
class Expect:
    """Values defined for specs; baselines come from pristine processes"""

    def __init__(self, baseline):
        self.baseline = baseline        # callable(key) -> value
        self.cache = {}

    def qgen(self, spec):
        key = json.dumps(spec, sort_keys=True)
        if key not in self.cache:
            if spec["c"] == "coll":
                v = ref.coll(spec["n"], spec["nt"], spec["qt"], spec.get("tL", 0.), spec.get("tR", 1.))
                v["b2"] = None
                o = ref.coll_order(spec["n"], spec["nt"], spec["qt"])
                v["orders"] = (o, o - 1)
            elif spec["c"] == "raw":
                v = {"nodes": np.array(spec["pts"], float), "Q": np.array(spec["Q"], float),
                     "weights": np.array(spec["Q"], float)[-1], "b2": None, "orders": None}
            else:
                v = ref.pad(RK[spec["name"]], spec.get("pad"))
                v["orders"] = RK_ORDER.get(spec["name"])
            n = len(v["nodes"])
            v["T"] = np.eye(n) - np.eye(n, k=-1)
            v["Tinv"] = np.tri(n)
            v["nNodes"] = n
            v["rightIsNode"] = bool(spec["qt"] in ("LOBATTO", "RADAU-RIGHT") if spec["c"] == "coll" else v["nodes"][-1] == 1)
            self.cache[key] = v
        return self.cache[key]

    def tol_q(self, spec):
        if spec["c"] in ("rk", "raw"):
            return 1e-9
        tL, tR = spec.get("tL", 0.), spec.get("tR", 1.)
        far = max(1., (abs(tL) + abs(tR))/abs(tR - tL)/100)      # digits lost far from zero
        return (1e-9 if spec["n"] <= 13 else 1e-6)*far

    def qmat(self, kind, src, k, tL=None):
        """QDelta matrix of a kind for iteration k"""
        key = json.dumps([kind, src, k, tL], sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        q = self.qgen(src)
        out = None
        if kind in ON_TYPES:
            tau = ref.coll(src["n"], src["nt"], src["qt"])["nodes"]     # always on [0, 1]
            out = ref.qdelta(kind, tau=tau, k=k)
            if out is None:
                kk = None if kind != "MIN_SR_FLEX" else "S"
                out = self.baseline(["qd", "MIN_SR_S" if kk else kind,
                                     {"c": "coll", "n": src["n"], "nt": src["nt"], "qt": src["qt"]}, None])
        elif kind in ON_NODES:
            out = ref.qdelta(kind, tau=q["nodes"], tL=tL or 0., k=k)
        elif kind == "MIN" or (kind == "LDU" and singular(src)):
            out = self.baseline(["qd", kind, src, None])
        else:
            out = ref.qdelta(kind, Q=q["Q"])
        self.cache[key] = out
        return out

    def dtau(self, kind, src, tL=None):
        q = self.qgen(src)
        if kind in TIMESTEP:
            return ref.dtau(kind, tau=q["nodes"], tL=tL or 0.)
        return np.zeros(len(q["nodes"]))


def singular(src):
    """LU-type factorisations without pivoting are not defined"""
    return src["c"] in ("rk", "raw") or src["qt"] in ("LOBATTO", "RADAU-LEFT")


def needs_baseline(kind, src, ks):
    if kind in ("MIN", "MIN_SR_S", "MIN3", "MIN_VDHS"):
        return True
    if kind == "LDU" and singular(src):
        return True
    if kind == "MIN_SR_FLEX":
        return any(isinstance(k, int) and k > src["n"] for k in ks)
    return False


def params_for(kind, src, E, tL=None):
    """Explicit constructor parameters of a QDelta type, as the caller's own data"""
    q = E.qgen(src)
    if kind in ON_TYPES:
        return {"nNodes": src["n"], "nodeType": src["nt"], "quadType": src["qt"]}
    if kind in ON_NODES:
        p = {"nodes": q["nodes"]}
        if kind in TIMESTEP and tL is not None:
            p["tLeft"] = tL
        return p
    return {"Q": q["Q"]}


def real_qgen(spec):
    if spec["c"] == "raw":
        raise Undefined
    if spec["c"] == "coll":
        kw = {k: spec[s] for k, s in (("tLeft", "tL"), ("tRight", "tR")) if s in spec}
        return Q.coll.Collocation(spec["n"], spec["nt"], spec["qt"], **kw)
    return Q.rk.RK_SCHEMES[spec["name"]](**({"padding": spec["pad"]} if spec.get("pad") else {}))


def compute_baseline(key):
    """In a pristine process: what a first call returns"""
    what = key[0]
    with np.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what == "qd":
                _, kind, src, k = key
                gen = Q.qd.QDELTA_GENERATORS[kind](qGen=real_qgen(src))
                return np.array(gen.getQDelta(k))
            if what == "order":
                _, src, ns, qD, su = key
                return Q.sdc.getOrderSDC(real_qgen(src), ns, qD, su)
    raise ValueError(key)


# ---------------------------------------------------------------- caller data
def make_arg(values, form, guards, name="arg"):
    """Build a caller-owned argument; guards records how to check it later"""
    if form in (None, "arr"):
        a = np.array(values)
        base = a
    elif form == "list":
        a = np.array(values).tolist()
        base = a
    elif form == "tuple":
        a = tuple(np.array(values).tolist())
        base = a
    elif form in ("ilist", "ituple"):   # integral values as integers, as people write them
        a = ints(np.array(values).tolist())
        a = base = tuple(a) if form == "ituple" else a
    elif form in ("iarr", "i32"):
        a = np.array(values)
        if np.array_equal(a, np.rint(a)):
            a = a.astype("i8" if form == "iarr" else "i4")
        base = a
    elif form == "view":
        v = np.array(values, dtype=float)
        base = np.full((2*v.shape[0] + 1,) + v.shape[1:], 7.25)
        base[1::2] = v
        a = base[1::2]
    elif form == "rev":
        v = np.array(values, dtype=float)
        base = np.ascontiguousarray(v[::-1])
        a = base[::-1]
    elif form == "T":
        base = np.ascontiguousarray(np.array(values).T)
        a = base.T
    elif form == "cols":            # every second entry along the last axis
        v = np.array(values, dtype=float)
        base = np.full(v.shape[:-1] + (2*v.shape[-1] + 1,), 7.25)
        base[..., 1::2] = v
        a = base[..., 1::2]
    elif form == "F":
        a = base = np.asfortranarray(np.array(values))
    elif form == "cplx":
        a = base = np.array(values, dtype=complex)
    elif form == "ro":
        base = np.array(values)
        base.flags.writeable = False
        a = base
    else:
        raise ValueError(form)
    guards.append((name, base, copy.deepcopy(base)))
    return a


def ints(x):
    if isinstance(x, list):
        return [ints(y) for y in x]
    return int(x) if isinstance(x, float) and x.is_integer() else x


class Guards:
    """Builds the caller-owned arguments of one call and remembers them"""

    def __init__(self, form, pool=None):
        self.form, self.items = form, []
        self.pool, self.used = pool, []

    def __call__(self, values, name="arg", form=None):
        form = form or self.form
        if self.pool is not None and form in (None, "arr", "list", "view", "F"):    # an array the caller used for something else before
            v = np.array(values)
            key = (form or "arr", v.shape, v.dtype.str)
            got = self.pool.get(key)
            if got:
                a, base = got.pop()
                if form == "list":
                    a[:] = v.tolist()
                else:
                    a[...] = v
                self.items.append((name, base, copy.deepcopy(base)))
            else:
                a = make_arg(values, form, self.items, name)
            self.used.append((key, a, self.items[-1][1]))
            return a
        return make_arg(values, form, self.items, name)

    def recycle(self):
        """the call has returned: the caller uses its arrays for the next one"""
        for key, a, base in self.used:
            self.pool.setdefault(key, []).append((a, base))
        self.used = []

    def keep(self, x, name="list"):
        y = copy.copy(x)
        self.items.append((name, y, copy.copy(y)))
        return y

    @staticmethod
    def modified(items):
        return [n for n, base, old in items if not same_bits(base, old)]


def same_bits(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape \
            and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_bits(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_bits(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a == b or a != a)


def scribble(x, mode):
    """The caller writes into something it owns"""
    if isinstance(x, np.ndarray):
        try:
            if mode == "nan" and x.dtype.kind in "fc":
                x[...] = np.nan
            elif mode == "neg":
                x[...] = -3*x - 1
            elif mode == "one" and x.size:
                x.flat[x.size//2] += 1
            elif mode == "sort" and x.ndim:
                x[...] = x[..., ::-1].copy()
            else:
                x[...] = 0
        except ValueError:
            pass                # read-only result: nothing to write to
    elif isinstance(x, list):
        for y in x:
            scribble(y, mode)
        if mode in ("nan", "zero"):
            del x[:]
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, mode)
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y, mode)
    elif x is not None and hasattr(x, "data") and hasattr(x, "indices"):   # sparse
        scribble(x.data, mode)


# ---------------------------------------------------------------- comparison
def close(got, exp, tol, path="result"):
    """None if got is exp up to tol, else a description of the difference"""
    if isinstance(exp, AnyOf):
        errs = [close(got, e, tol, path) for e in exp.alts]
        return None if None in errs else errs[0]
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(exp):
            return f"{path}: expected {len(exp)} items, got {type(got).__name__}" + \
                (f" of {len(got)}" if hasattr(got, "__len__") else "")
        for i, (g, e) in enumerate(zip(got, exp)):
            d = close(g, e, tol, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(exp, dict):
        if not isinstance(got, dict) or sorted(got) != sorted(exp):
            return f"{path}: keys differ"
        for k in exp:
            d = close(got[k], exp[k], tol, f"{path}[{k!r}]")
            if d:
                return d
        return None
    if exp is None or isinstance(exp, (str, bool)):
        return None if got == exp else f"{path}: {got!r} instead of {exp!r}"
    if isinstance(exp, Scaled):
        exp, scale = exp.value, exp.scale
    else:
        scale = None
    try:
        g = np.asarray(got)
        e = np.asarray(exp)
        if g.dtype.kind not in "biufc":
            return f"{path}: dtype {g.dtype}"
    except Exception as x:
        return f"{path}: not an array ({x})"
    if g.shape != e.shape:
        return f"{path}: shape {g.shape} instead of {e.shape}"
    if e.size == 0:
        return None
    with np.errstate(all="ignore"):
        if scale is not None and np.isinf(scale).any():      # no limit: nothing is promised
            free = np.broadcast_to(np.isinf(scale), e.shape)
            g, e = np.where(free, 0, g), np.where(free, 0, e)
        bad = ~np.isfinite(e)
        if bad.any():
            if not np.array_equal(~np.isfinite(g), bad):
                return f"{path}: non finite entries differ"
            g, e = np.where(bad, 0, g), np.where(bad, 0, e)
        if scale is None:
            scale = np.abs(e).max()
        diff = np.abs(g - e)
        lim = np.broadcast_to(tol*np.asarray(scale) + 1e-300, diff.shape)
        wrong = ~(diff <= lim) & ~np.isinf(lim)     # no limit: nothing is promised
        if wrong.any():
            over = np.where(np.isnan(diff), np.inf, np.where(wrong, diff/lim, -1))
            idx = np.unravel_index(np.argmax(over), diff.shape)
            return (f"{path}{list(map(int, idx))}: {g[idx]!r} instead of {e[idx]!r} "
                    f"(error {diff[idx]:.3g}, allowed {lim[idx]:.3g})")
    return None


class Scaled:
    """expected value with its own error scale"""
    def __init__(self, value, scale):
        self.value, self.scale = value, scale


class AnyOf:
    def __init__(self, *alts):
        self.alts = alts


_grids = {}


def grid_points(spec):
    """The points of a Lagrange spec (given, or generated on large or extreme grids)"""
    if "grid" not in spec:
        return spec["pts"]
    key = json.dumps(spec["grid"], sort_keys=True)
    if key not in _grids:
        g = spec["grid"]
        n, kind = g["n"], g["kind"]
        rng = np.random.RandomState(g["seed"])
        if kind == "cheb":
            x = -np.cos(np.pi*(np.arange(n) + .5)/n)
        elif kind == "leg":
            x = np.polynomial.legendre.leggauss(n)[0]
        elif kind == "equi":
            x = np.linspace(-1, 1, n) if n > 1 else np.array([.25])
        elif kind == "rand":        # one point per cell
            x = -1 + 2*(np.arange(n) + rng.uniform(.2, .8, n))/n
        else:                       # points accumulate on the left
            x = -1 + 2*np.cumsum(np.linspace(.2, 1., n))/np.linspace(.2, 1., n).sum()
        if g.get("perm"):
            x = x[rng.permutation(n)]
        _grids[key] = g["scale"]*(x + g["shift"])
    return _grids[key]


def grid_times(spec, fracs):
    """Query points of a grid: fractions of its extent, or one of its points"""
    p = np.sort(grid_points(spec))
    named = {"p0": p[0], "pm": p[len(p)//2], "pe": p[-1]}
    ext = p[-1] - p[0] or spec["grid"]["scale"]
    return [float(named[f]) if isinstance(f, str) else float(p[0] + f*ext) for f in fracs]


def fast_representable(p):
    """the products of the plain formula and their inverse stay in the range of floats"""
    d = p[:, None] - p[None, :]
    np.fill_diagonal(d, 1)
    with np.errstate(all="ignore"):
        c = np.cumsum(np.log10(np.abs(d)), axis=1)
    return np.isfinite(c).all() and np.abs(c).max() < 290 and np.abs(d).max() < 1e290


def exact_weights(p):
    """logarithms and signs of the barycentric weights, up to a common factor, and the index of a largest one"""
    den = (p[:, None] - p[None, :])/(p.max() - p.min() or 1.)
    np.fill_diagonal(den, 1)
    lw, sw = -np.log(np.abs(den)).sum(1), np.sign(den).prod(1)
    j = np.argmax(lw)
    return lw - lw[j], sw*sw[j], j


def node_scale(spec, nodes):
    """nodes near zero are as exact as the bounds of their interval"""
    return Scaled(nodes, max(abs(spec.get("tL", 0.)), abs(spec.get("tR", 1.)))) if spec["c"] == "coll" else nodes


def weights_expect(spec, u):
    """the barycentric weights of the unique points, in the scaling the options ask for"""
    d = u[:, None] - u[None, :]
    np.fill_diagonal(d, 1)
    lw, sw = -np.log(np.abs(d)).sum(1), np.sign(d).prod(1)
    free = Scaled(sw, np.full(len(u), np.inf))      # close to the limits of floats: nothing is specified
    wc = spec.get("wc", "AUTO")
    if wc in ("AUTO", "FAST") and not fast_representable(u):
        if wc == "FAST" or np.abs(lw).max() < 750:
            return free
        wc = "STABLE"
    if wc == "STABLE" and spec.get("sr", "MAX") == "ZERO":
        lw = lw - lw[np.argmin(np.abs(u))]
    elif wc in ("STABLE", "CHEBFUN"):
        lw = lw - lw.max()
    if spec.get("sw"):
        lw = lw - lw.max()
    if np.abs(lw).max() > 600:
        return free
    return Scaled(sw*np.exp(lw), 1e6*np.exp(lw))


def log_weights(w, j):
    """logarithms and signs of weights relative to those of w[j]"""
    w = np.array(w, dtype=float)
    with np.errstate(all="ignore"):
        return np.log(np.abs(w)) - np.log(np.abs(w[j])), np.sign(w)*np.sign(w[j])


def grid_expect(spec, op):
    p = np.array(grid_points(spec))
    if spec.get("wc") == "FAST" and not fast_representable(p):
        raise Undefined         # documented as unstable
    n = len(p)
    ext = p.max() - p.min() or 1.

    def mat(t):
        t = np.array(t)
        num = (t[:, None] - p[None, :])/ext
        den = (p[:, None] - p[None, :])/ext
        np.fill_diagonal(den, 1)
        ld, sd = np.log(np.abs(den)).sum(1), np.sign(den).prod(1)
        hit = num == 0
        with np.errstate(all="ignore"):
            ln = np.where(hit, 0, np.log(np.abs(num)))
        sn = np.where(hit, 1, np.sign(num))
        L = np.exp(ln.sum(1)[:, None] - ln - ld[None, :])*sn.prod(1)[:, None]*sn*sd[None, :]
        rows = hit.any(1)
        L[rows] = hit[rows]
        return L

    if op["op"] == "l.wts":
        lw, sw, _ = exact_weights(p)
        lim = np.where(lw < -650, np.inf, n)        # may vanish
        return Scaled(lw, lim), Scaled(sw, lim)

    def bound(L):
        """error of each entry; no value is promised where the problem is ill-conditioned"""
        leb = np.abs(L).sum(1, keepdims=True)
        return np.where(leb > LEB_MAX, np.inf, (np.abs(L) + 1e-30)*(1 + leb)*n)
    if op["op"] == "l.int":
        L = mat(grid_times(spec, op["gts"]))
        return Scaled(L, bound(L))
    if op["op"] == "l.quad":
        x, w = np.polynomial.legendre.leggauss(n//2 + 2)
        out, err = [], []
        for a, b in op["givs"]:
            a, b = grid_times(spec, [a, b])
            h = b/2 - a/2
            L = mat(h*x + (b/2 + a/2))
            out.append(h*(w @ L))
            err.append(np.maximum(ext, 1e-290)*bound(L).max(0)*n)
        return Scaled(np.array(out), np.array(err))
    d = (p[:, None] - p[None, :])/ext
    np.fill_diagonal(d, 1)
    lw, sw = -np.log(np.abs(d)).sum(1), np.sign(d).prod(1)
    D = np.exp(lw[None, :] - lw[:, None])*sw[None, :]*sw[:, None]/d
    np.fill_diagonal(D, 0)
    np.fill_diagonal(D, (1/d - np.eye(n)).sum(1))
    row = np.abs(D).sum(1, keepdims=True) + 1
    ms = [Scaled((D if o == 1 else D @ D)/ext**o, n*row**o/ext**o)
          for o in ([1, 2] if op["order"] == "ALL" else [op["order"]])]
    return tuple(ms) if op["order"] == "ALL" else ms[0]


LEB_MAX = 1e7


def lag_expect(spec, op):
    if "grid" in spec:
        return grid_expect(spec, op)
    pts, dup = spec["pts"], spec.get("dup", "USE_LEFT")
    if spec.get("wc") == "FAST" and not fast_representable(np.unique(pts)):
        raise Undefined         # documented as unstable
    full = op.get("dup", True)
    if op["op"] == "l.int":
        m = ref.interp(pts, op["ts"], dup)
    elif op["op"] == "l.quad":
        m = ref.integ(pts, op["ivs"], dup)
    elif op["op"] == "l.der":
        ms = [ref.deriv(pts, o, dup) for o in ([1, 2] if op["order"] == "ALL" else [op["order"]])]
        if not full:
            ms = [_unique_cols(m, spec) for m in ms]
        u = np.sort(np.unique(np.array(pts, dtype=float)))
        if len(u) == len(pts):      # rows follow the points, as given
            row = np.searchsorted(u, np.array(pts, dtype=float))
            ms = [m[row] for m in ms]
        nat = 1/np.diff(u).min() if len(u) > 1 else 1.      # natural size of the first derivative
        os_ = [1, 2] if op["order"] == "ALL" else [op["order"]]
        ms = [Scaled(m, max(np.abs(m).max(), nat**o)) for m, o in zip(ms, os_)]
        return tuple(ms) if op["order"] == "ALL" else ms[0]
    else:
        fv = op.get("fv")
        fv = spec["fv"] if fv is None else fv
        ts = np.array(op["ts"], dtype=float)
        return (ref.interp(pts, ts.ravel(), dup) @ np.array(fv)).reshape(ts.shape)
    return m if full else _unique_cols(m, spec)


def _unique_cols(m, spec):
    _, u, cols = ref._uniq(spec["pts"], spec.get("dup", "USE_LEFT"))
    if len(u) == len(spec["pts"]):
        return m
    return m[:, cols]


TOL_SOLVE = 1e-8


class World:
    """The objects of one run and the operations on them"""

    def __init__(self, specs, E):
        self.specs = specs              # id -> spec
        self.E = E
        self.objs = {}
        self.args = {}                  # id -> guards of constructor arguments
        self.taint = set()
        self.pool = None                # arrays that callers use again, if they do
        self.group = {}                 # id -> ids whose attributes may be the same arrays (shallow copies)

    # ------------------------------------------------------------ helpers
    def obj(self, i):
        try:
            return self.objs[i]
        except KeyError:
            raise Undefined(i)

    def leave(self, i):
        self.group.pop(i, set()).discard(i)

    def src_spec(self, spec):
        return self.specs[spec["ref"]] if "ref" in spec else spec["src"]

    # ------------------------------------------------------------ prepare
    def prepare(self, op):
        """Returns (thunk running real code, guards)"""
        arg = self.guards = Guards(op.get("af"), self.pool if op["op"] != "new" else None)
        f = getattr(self, "do_" + op["op"].replace(".", "_"))
        return f(op, arg), arg.items

    def do_new(self, op, arg):
        i = op["i"]
        spec = self.specs[i]
        if spec["c"] in ("coll", "rk"):
            def run():
                self.objs[i] = real_qgen(spec)
        elif spec["c"] == "ng":
            def run():
                self.objs[i] = Q.nodes.NodesGenerator(spec["nt"], spec["qt"])
        elif spec["c"] == "qd":
            kind = QD_KIND[spec["t"]]
            cls = Q.qd.QDELTA_GENERATORS[spec["t"]]
            if "ref" in spec:
                g = self.obj(spec["ref"])

                def run():
                    self.objs[i] = cls(qGen=g)
            elif spec["via"] == "qGen":
                g = real_qgen(spec["src"])
                kw = {"coll" if spec.get("old") else "qGen": g}
                if "tL" in spec:        # overrides what qGen gives
                    kw["tLeft"] = spec["tL"]

                def run():
                    self.objs[i] = cls(**kw)
            else:
                p = params_for(kind, spec["src"], self.E, spec.get("tL"))
                for name in ("Q", "nodes"):
                    if name in p:
                        p[name] = arg(p[name], name, spec.get("af"))
                if spec["via"] == "pos":
                    def run():
                        self.objs[i] = cls(*p.values())
                else:
                    if spec.get("extra"):
                        p["unused"] = 1

                    def run():
                        self.objs[i] = cls(**p)
        else:
            kw = {}
            for name, s in (("weightComputation", "wc"), ("scaleRef", "sr"),
                            ("scaleWeights", "sw"), ("duplicates", "dup")):
                if s in spec:
                    kw[name] = spec[s]
            pts = arg(grid_points(spec), "points", spec.get("af"))
            if spec.get("fv") is not None:
                kw["fValues"] = arg(spec["fv"], "fValues", spec.get("af"))

            def run():
                self.objs[i] = Q.lag.LagrangeApproximation(pts, **kw)
        self.args[i] = arg.items        # the caller keeps its arrays, and may write to them later

        def made():
            run()
            self.leave(i)
            self.taint.discard(i)
            if spec.get("ref") in self.taint:
                self.taint.add(i)
        return made

    # ---- nodes
    def do_n_get(self, op, arg):
        g = self.obj(op["i"])
        return lambda: g.getNodes(op["n"])

    def do_n_coef(self, op, arg):
        g = self.obj(op["i"])
        return lambda: g.getOrthogPolyCoefficients(op["n"])

    def do_n_tri(self, op, arg):
        g = self.obj(op["i"])
        return lambda: g.getTridiagCoefficients(op["n"])

    def do_n_eval(self, op, arg):
        g = self.obj(op["i"])
        t, a, b = arg(op["ts"], "t"), arg(op["al"], "alpha"), arg(op["be"], "beta")
        return lambda: g.evalOrthogPoly(t, a, b)

    def do_fejer(self, op, arg):
        return lambda: Q.lag.computeFejerRule(op["n"])

    def do_fit(self, op, arg):
        c, x = arg(op["co"], "coeffs", "arr"), arg(op["x"], "nodes", "arr")
        return lambda: Q.diag.MIN_SR_S.fit(c, x)

    def do_q_inst(self, op, arg):
        def run():
            g = Q.top.Q_GENERATORS[op["name"]].getInstance()
            return g.genCoeffs(form=op["form"], hCoeffs=op["h"], embedded=op["e"])
        return run

    # ---- Q-coefficients
    def do_q_attr(self, op, arg):
        g = self.obj(op["i"])
        name = {"wEmb": "weightsEmbedded"}.get(op["a"], op["a"])
        if name == "orders":
            return lambda: (g.order, g.orderEmbedded)
        return lambda: getattr(g, name)

    def do_order(self, op, arg):
        g = self.obj(op["i"]) if op.get("i") is not None else real_qgen(op["src"])
        return lambda: Q.sdc.getOrderSDC(g, op["ns"], op["qD"], op["su"])

    def do_d_attr(self, op, arg):
        g = self.obj(op["i"])
        return lambda: [g.size, bool(g.isKDependent())]

    def do_l_attr(self, op, arg):
        a = self.obj(op["i"])
        return lambda: [a.n, a.nPoints, a.nUniquePoints, bool(a.hasDuplicates), np.array(a.points), np.sort(a.uniquePoints), np.array(a.weights)]

    def do_q_gen(self, op, arg):
        g = self.obj(op["i"])
        return lambda: g.genCoeffs(form=op["form"], hCoeffs=op["h"], embedded=op["e"])

    def do_q_fn(self, op, arg):
        s = op["spec"]
        if s["c"] == "coll":
            p = {"nNodes": s["n"], "nodeType": s["nt"], "quadType": s["qt"]}
            p.update({k: s[v] for k, v in (("tLeft", "tL"), ("tRight", "tR")) if v in s})
        else:
            p = {"padding": s["pad"]} if s.get("pad") else {}
        return lambda: Q.top.genQCoeffs(op["name"], form=op["form"], hCoeffs=op["h"],
                                        embedded=op["e"], **p)

    def do_q_solve(self, op, arg):
        g = self.obj(op["i"])
        lam, u0 = cplx(op["lam"]), cplx(op["u0"])
        if op.get("err"):
            un = None
            if op.get("un"):
                un = arg(np.array([cplx(x) for x in op["un"]]), "uNum", "arr")
            return lambda: g.errorDahlquist(lam, u0, op["T"], op["N"], uNum=un, useEmbeddedWeights=op["e"])
        return lambda: g.solveDahlquist(lam, u0, op["T"], op["N"], useEmbeddedWeights=op["e"])

    # ---- QDelta
    def do_d_get(self, op, arg):
        g = self.obj(op["i"])
        k = iteration(op)
        return lambda: g.getQDelta(k, op["copy"])

    def do_d_S(self, op, arg):
        g = self.obj(op["i"])
        k = iteration(op)
        return lambda: g.getSDelta(k)

    def do_d_tau(self, op, arg):
        g = self.obj(op["i"])
        return lambda: g.dTau

    def do_d_compute(self, op, arg):
        g = self.obj(op["i"])
        k = iteration(op)
        return lambda: g.computeQDelta(k)

    def do_d_gen(self, op, arg):
        g = self.obj(op["i"])
        k = op["k"]
        if isinstance(k, list):
            k = arg(k, "k", op.get("kf", "list"))
        else:
            k = iteration(op)
        return lambda: g.genCoeffs(k=k, form=op["form"], dTau=op["dTau"])

    def do_d_fn(self, op, arg):
        types = op["types"]
        if isinstance(types, list):
            types = arg.keep(types)
        if "ref" in op:
            p = {"qGen": self.obj(op["ref"])}
        elif op["via"] == "qGen":
            p = {"qGen": real_qgen(op["src"])}
            if "tL" in op:
                p["tLeft"] = op["tL"]
        else:
            p = {}
            for t in (op["types"] if isinstance(op["types"], list) else [op["types"]]):
                p.update(params_for(QD_KIND[t], op["src"], self.E, op.get("tL")))
            for name in ("Q", "nodes"):
                if name in p:
                    p[name] = arg(p[name], name)
        return lambda: Q.top.genQDeltaCoeffs(types, nSweeps=op.get("ns"), form=op["form"], dTau=op["dTau"], **p)

    # ---- Lagrange
    def do_l_int(self, op, arg):
        a = self.obj(op["i"])
        ts = arg(grid_times(self.specs[op["i"]], op["gts"]) if "gts" in op else op["ts"], "times")
        return lambda: a.getInterpolationMatrix(ts, **dup_kw(op))

    def do_l_quad(self, op, arg):
        a = self.obj(op["i"])
        form = op.get("af")
        if "givs" in op:
            iv = [tuple(grid_times(self.specs[op["i"]], x)) for x in op["givs"]]
        elif form in ("tuple", "ituple"):
            iv = [tuple(ints(x) if form == "ituple" else x) for x in op["ivs"]]
        else:
            iv = arg(op["ivs"], "intervals")
        kw = dup_kw(op)
        if op.get("nq"):
            kw["numQuad"] = op["nq"]
        return lambda: a.getIntegrationMatrix(iv, **kw)

    def do_l_der(self, op, arg):
        a = self.obj(op["i"])
        f = a.getDerivationMatrix if op.get("old") else a.getDerivativeMatrix
        return lambda: f(op["order"], **dup_kw(op))

    def do_l_wts(self, op, arg):
        a = self.obj(op["i"])
        j = exact_weights(np.array(grid_points(self.specs[op["i"]])))[2]
        return lambda: log_weights(a.weights, j)

    def do_l_call(self, op, arg):
        a = self.obj(op["i"])
        ts = np.array(op["ts"], dtype=float)
        ts = arg(ts, "t") if ts.ndim else float(ts)
        if op.get("fv") is not None:
            fv = arg(op["fv"], "fValues", "arr" if op.get("af") == "T" else None)
            return lambda: a(ts, fv)
        return lambda: a(ts)

    def do_sparse(self, op, arg):
        form = op.get("af") if op.get("af") in ("view", "rev", "ro", "arr") else "arr"
        x, y = arg(np.array(op["x"], float), "inPoints", form), arg(np.array(op["y"], float), "outPoints", form)
        kw = {"gridPeriod": op["per"]} if op.get("per") else {}
        return lambda: Q.lag.getSparseInterpolationMatrix(x, y, op["order"], **kw)

    def do_nodes(self, op, arg):
        return lambda: Q.nodes.NodesGenerator(op["nt"], op["qt"]).getNodes(op["n"])

    # ---- SDC
    def sdc_data(self, op):
        q = self.E.qgen(op["src"])
        ks = op["types"]
        if len(ks) == 1 and op.get("flat"):
            QD = self.E.qmat(QD_KIND[ks[0]], op["src"], None)
        else:
            QD = np.array([self.E.qmat(QD_KIND[t], op["src"], k + 1) for k, t in enumerate(ks)])
        w = q["weights"] if op["w"] else None
        return q["Q"], QD, w

    def do_sdc(self, op, arg):
        Qm, QD, w = self.sdc_data(op)
        lam, u0 = cplx(op["lam"]), cplx(op["u0"])
        form = op.get("af") if op.get("af") in ("view", "rev", "ro", "F", "arr", "cplx") else "arr"
        Qm, QD = arg(Qm, "Q", form), arg(QD, "QDelta", form)
        if w is not None:
            w = arg(w, "weights", op.get("wf", form))
        if op.get("err"):
            un = None
            if op.get("un"):
                un = arg(np.array([cplx(x) for x in op["un"]]), "uNum", "arr")
            return lambda: Q.sdc.errorDahlquistSDC(lam, u0, op["T"], op["N"], op["K"], Qm, QD, weights=w, uNum=un)
        kw = {}
        if op.get("mon"):
            mon = {m: None for m in op["mon"]} if op.get("mf") == "dict" else list(op["mon"])
            kw["monitors"] = arg.keep(mon)
        return lambda: Q.sdc.solveDahlquistSDC(lam, u0, op["T"], op["N"], op["K"], Qm, QD, weights=w, **kw)

    # ---- utilities
    def do_clock(self, op, arg):
        def run():
            t = Q.utils.Timer("steps", **op["kw"])
            if op["with"]:
                with t:
                    pass
            else:
                t.start()
                t.stop()
            return bool(0 <= t.tWall < 1e6/min(1, t.scale)), t.name, t.scale
        return run

    def do_ldu(self, op, arg):
        A = arg(op["A"], "A", op.get("af") if op.get("af") in ("view", "rev", "ro", "F") else "arr")
        return lambda: Q.num.lduFactorization(A)

    def do_extra(self, op, arg):
        x, t = arg(op["x"], "nodes"), arg(op["ts"], "times")
        return lambda: Q.num.getExtrapolationMatrix(x, t, **({"pOrder": op["p"]} if op.get("p") else {}))

    def do_norder(self, op, arg):
        n, e = arg(op["n"], "nSteps"), arg(op["e"], "err")
        return lambda: Q.num.numericalOrder(n, e)

    def do_classes(self, op, arg):
        d = {"q": Q.top.Q_GENERATORS, "d": Q.top.QDELTA_GENERATORS, "rk": Q.rk.RK_SCHEMES}[op["w"]]
        return lambda: sorted(c.__name__ for c in Q.utils.getClasses(d, module=op.get("mod")).values())

    # ---- things callers do to data
    def do_scr_attr(self, op, arg):
        g = self.obj(op["i"])
        self.taint |= self.group.get(op["i"], {op["i"]})
        for a in op["a"]:
            try:
                scribble(getattr(g, a), op["mode"])
            except (AttributeError, NotImplementedError):
                pass
        return None

    def do_scr_arg(self, op, arg):
        for name, base, old in self.args.get(op["i"]) or ():
            scribble(base, op["mode"])
        return None

    def do_copy(self, op, arg):
        g = self.obj(op["i"])
        how = op["how"]
        j = op["j"]

        def made():
            run()
            self.leave(j)
            self.taint.discard(j)
            if op["i"] in self.taint:
                self.taint.add(j)
            if how == "copy":
                grp = self.group.setdefault(op["i"], {op["i"]})
                grp.add(j)
                self.group[j] = grp

        def run():
            if how == "copy":
                self.objs[j] = copy.copy(g)
            elif how == "deepcopy":
                self.objs[j] = copy.deepcopy(g)
            else:
                self.objs[j] = pickle.loads(pickle.dumps(g, protocol=op.get("proto", 5)))
        return made

    def do_bad(self, op, arg):
        """Calls that must be refused or are at least unusual; no value is defined"""
        w = op["w"]
        i = op.get("i")
        if w == "q.form":
            g = self.obj(i)
            return lambda: g.genCoeffs(form="N2Z")
        if w == "q.emb":
            g = self.obj(i)
            return lambda: g.genCoeffs(embedded=True)
        if w == "q.fn":
            return lambda: Q.top.genQCoeffs("NoSuchMethod")
        if w == "q.args":
            return lambda: Q.top.genQCoeffs("Collocation", nNodes=op.get("n", 0), nodeType=op.get("nt", "LEGENDRE"),
                                            quadType=op.get("qt", "LOBATTO"))
        if w == "q.pad":
            return lambda: Q.top.genQCoeffs("RK4", padding="MIDDLE")
        if w == "q.solve":
            g = self.obj(i)
            return lambda: g.solveDahlquist(1, 1, 1, op.get("n", 0))
        if w == "d.k":
            g = self.obj(i)
            return lambda: g.getQDelta(op["k"])
        if w == "d.klist":
            g = self.obj(i)
            return lambda: g.genCoeffs(k=op["k"], form=op.get("form", "Z2N"))
        if w == "d.form":
            g = self.obj(i)
            return lambda: g.genCoeffs(form="x")
        if w == "d.fn":
            return lambda: Q.top.genQDeltaCoeffs(op["types"], nSweeps=op.get("ns"), qGen=real_qgen(op["src"]))
        if w == "d.noarg":
            return lambda: Q.top.genQDeltaCoeffs(op["types"])
        if w == "l.order":
            a = self.obj(i)
            return lambda: a.getDerivativeMatrix(order=3)
        if w == "l.sr":
            return lambda: Q.lag.LagrangeApproximation([0, 1, 2], weightComputation="STABLE", scaleRef="ONE")
        if w == "abstract":
            a = Q.qc.QGenerator()
            return [lambda: a.nodes, lambda: a.weights, lambda: a.Q, lambda: a.order,
                    lambda: Q.qd.QDeltaGenerator([[1.]]).getQDelta()][op["k"]]
        if w == "l.quad":
            a = self.obj(i)
            return lambda: a.getIntegrationMatrix([(0, 1)], numQuad="SIMPSON")
        if w == "l.shape":
            a = self.obj(i)
            return lambda: a.getInterpolationMatrix([[0, 1]])
        if w == "l.call":
            a = self.obj(i)
            return lambda: a([0.5], [1.0]*29)
        if w == "l.new":
            return lambda: Q.lag.LagrangeApproximation([0, 1, 2], weightComputation="MAGIC")
        if w == "l.fv":
            return lambda: Q.lag.LagrangeApproximation([0, 1, 2], fValues=[1, 2])
        if w == "l.dup":
            return lambda: Q.lag.LagrangeApproximation([0, 1, 1], duplicates="MIDDLE")
        if w == "sdc.mon":
            q = self.E.qgen({"c": "coll", "n": 2, "nt": "LEGENDRE", "qt": "RADAU-RIGHT"})
            return lambda: Q.sdc.solveDahlquistSDC(1, 1, 1, 1, 1, q["Q"], q["Q"], monitors=["speed"])
        raise ValueError(w)

    def refused(self, op):
        """must this call of do_bad raise?"""
        w = op["w"]
        if w in ("d.k", "d.klist"):
            ks = op["k"] if isinstance(op["k"], list) else [op["k"]]
            return QD_KIND[self.specs[op["i"]]["t"]] in KDEP and any(not isinstance(k, int) or k < 1 for k in ks)
        if w == "q.args":
            return op.get("n", 0) < 1 or op.get("nt") == "FOURIER" or op.get("qt") == "SIMPSON" or \
                op.get("qt") == "LOBATTO" and op["n"] < 2
        return w != "q.solve"

    # ------------------------------------------------------------ expected
    def expected(self, op):
        """(value, tolerance); raises Undefined when nothing is specified"""
        o = op["op"]
        E = self.E
        if o in ("new", "copy", "scr.attr", "scr.arg"):
            return None, 0
        if o == "bad":
            raise Undefined
        if o.startswith("n."):
            s = self.specs[op["i"]]
            if o == "n.get":
                return ref.nodes(op["n"], s["nt"], s["qt"]), 1e-9
            if s["nt"] == "EQUID":
                raise Undefined
            if o == "n.coef":
                return tuple(Scaled(x, 1.) for x in ref.recurrence(op["n"], s["nt"])), 1e-9
            if o == "n.tri":
                return tuple(Scaled(x, 1.) for x in ref.recurrence(op["n"], s["nt"], s["qt"])), 1e-8
            return tuple(Scaled(x, max(1., np.abs(x).max())) for x in ref.monic(np.array(op["ts"]), op["al"], op["be"])), 1e-9
        if o == "clock":
            return (True, "steps", op["kw"].get("scale", 1)), 0
        if o == "order":
            return E.baseline(["order", op["src"], op["ns"], op["qD"], op["su"]]), 0
        if o == "fejer":
            return tuple(Scaled(x, 1.) for x in ref.fejer(op["n"])), 1e-9
        if o == "fit":
            raise Undefined
        if o.startswith("q."):
            spec = op["spec"] if o in ("q.fn", "q.inst") else self.specs[op["i"]]
            v = E.qgen(spec)
            tol = E.tol_q(spec)
            if o == "q.attr":
                if op["a"] == "orders" and v["orders"] is None:
                    raise Undefined
                if op["a"] == "wEmb":
                    if v["b2"] is None:
                        raise Undefined
                    return v["b2"], tol
                return (node_scale(spec, v["nodes"]) if op["a"] == "nodes" else v[op["a"]]), tol
            if o in ("q.gen", "q.fn", "q.inst"):
                w = v["weights"]
                if op["e"]:
                    if v["b2"] is None:
                        raise Undefined
                    w = np.array([w, v["b2"]])
                out = [node_scale(spec, v["nodes"]), w, v["Q"] if op["form"] == "Z2N" else v["S"]]
                if op["h"]:
                    out.append(v["hCoeffs"])
                return out, tol
            if o == "q.solve":
                b = v["b2"] if op["e"] else v["weights"]
                if b is None:
                    raise Undefined
                lam, u0 = cplx(op["lam"]), cplx(op["u0"])
                if op.get("un"):
                    u = np.array([cplx(x) for x in op["un"]])
                else:
                    u = ref.rk_traj(v["Q"], b, lam, u0, op["T"], op["N"])
                tol = max(tol, TOL_SOLVE, min(TOL_SOLVE, tol)*ref.rk_gain(v["Q"], b, lam, op["T"], op["N"]))
                if not tol < 1e-3:
                    raise Undefined
                if op.get("err"):
                    e = ref.dahlquist_error(u, lam, u0, op["T"], op["N"])
                    return Scaled(e, np.abs(u).max()), tol
                return u, tol
        if o == "l.attr":
            s = self.specs[op["i"]]
            pts = np.array(grid_points(s), float)
            u = np.unique(pts)
            return [len(pts), len(pts), len(u), len(u) < len(pts), pts, u, weights_expect(s, u if len(u) < len(pts) else pts)], 1e-14
        if o == "d.attr":
            spec = self.specs[op["i"]]
            return [len(E.qgen(self.src_spec(spec))["nodes"]), QD_KIND[spec["t"]] in KDEP], 0
        if o.startswith("d."):
            tol = 1e-9
            if o == "d.fn":
                src = self.specs[op["ref"]] if "ref" in op else op["src"]
                tL = op.get("tL")
                types, ns = op["types"], op.get("ns")
                if isinstance(types, str) and ns is None:
                    kind = QD_KIND[types]
                    M = E.qmat(kind, src, None, tL)
                    tol = self.tol_d([kind], src)
                    first = kind
                else:
                    types = [types] if isinstance(types, str) else list(types)
                    ns = len(types) if ns is None else ns
                    types += [types[-1]]*(ns - len(types))
                    M = [E.qmat(QD_KIND[t], src, k + 1, tL) for k, t in enumerate(types)]
                    tol = self.tol_d([QD_KIND[t] for t in types], src)
                    first = QD_KIND[types[0]]
                    M = np.array(M)
                if op["form"] == "N2N":
                    M = ref.n2n(M) if M.ndim == 2 else np.array([ref.n2n(m) for m in M])
                return ([M, E.dtau(first, src, tL)] if op["dTau"] else M), tol
            spec = self.specs[op["i"]]
            src, tL, kind = self.src_spec(spec), spec.get("tL"), QD_KIND[spec["t"]]
            tol = self.tol_d([kind], src)
            if o == "d.tau":
                return E.dtau(kind, src, tL), tol
            if o in ("d.get", "d.compute"):
                return E.qmat(kind, src, op["k"], tL), tol
            if o == "d.S":
                return ref.n2n(E.qmat(kind, src, op["k"], tL)), tol
            k = op["k"]
            if isinstance(k, list):
                M = np.array([E.qmat(kind, src, int(x), tL) for x in k])
                if op["form"] == "N2N":
                    M = np.array([ref.n2n(m) for m in M])
            else:
                M = E.qmat(kind, src, k, tL)
                if op["form"] == "N2N":
                    M = ref.n2n(M)
            return ([M, E.dtau(kind, src, tL)] if op["dTau"] else M), tol
        if o.startswith("l."):
            return lag_expect(self.specs[op["i"]], op), op.get("tol", 1e-8)
        if o == "sparse":
            return sparse_expect(op), 1e-8
        if o == "nodes":
            return ref.nodes(op["n"], op["nt"], op["qt"]), 1e-9
        if o == "sdc":
            Qm, QD, w = self.sdc_data(op)
            lam, u0 = cplx(op["lam"]), cplx(op["u0"])
            u, res, err = ref.sdc_traj(Qm, QD, w, lam, u0, op["T"], op["N"], op["K"])
            scale = max(np.abs(u).max(), np.abs(res).max() if res.size else 0, np.abs(err).max() if err.size else 0)
            if op.get("un"):
                u = np.array([cplx(x) for x in op["un"]])
            if op.get("err"):
                return Scaled(ref.dahlquist_error(u, lam, u0, op["T"], op["N"]), max(scale, np.abs(u).max())), TOL_SOLVE
            U = Scaled(u, scale)
            if op.get("mon"):
                m = {"residuals": Scaled(res, scale), "errors": Scaled(err, scale)}
                return (U, {x: m[x] for x in op["mon"]}), TOL_SOLVE
            return U, TOL_SOLVE
        if o == "ldu":
            A = np.array(op["A"], float)
            n = len(A)
            L, D, U = np.eye(n), np.zeros((n, n)), np.eye(n)
            B = A.copy()
            for i in range(n):
                D[i, i] = B[i, i]
                L[i + 1:, i] = B[i + 1:, i]/B[i, i]
                U[i, i + 1:] = B[i, i + 1:]/B[i, i]
                B[i + 1:, i + 1:] -= np.outer(B[i + 1:, i], B[i, i + 1:])/B[i, i]
            return (L, D, U), 1e-8
        if o == "extra":
            x, t = np.array(op["x"], float), np.array(op["ts"], float)
            p = op.get("p") or len(x) - 1
            if p == len(x) - 1:
                return ref.interp(x, t), 1e-6
            V, W = x[:, None]**np.arange(p + 1), t[:, None]**np.arange(p + 1)
            return W @ np.linalg.pinv(V), 1e-6
        if o == "norder":
            if 0. in op["e"]:       # no logarithm
                raise Undefined
            x, y = -np.log10(np.array(op["n"], float)), np.log10(np.array(op["e"], float))
            c = np.polyfit(x, y, 1)
            r = np.sqrt(((y - np.polyval(c, x))**2).mean())
            return (c[0], Scaled(r, 1.)), 1e-8
        if o == "classes":
            raise Undefined
        raise Undefined

    def tol_d(self, kinds, src):
        base = self.E.tol_q(src)
        if any(k in ("LU", "LU2", "LDU") for k in kinds):
            base = max(base, 1e-7)
        if "SOE" in kinds:
            base = max(base, 1e-7)
        if any(k in ("MIN", "MIN_SR_S", "MIN_SR_FLEX") for k in kinds):
            base = max(base, 1e-6)
        return base


def sparse_expect(op):
    """Row i: interpolation from the `order` closest points (periodic or not)"""
    x, y, per = np.array(op["x"], float), np.array(op["y"], float), op.get("per")
    out = np.zeros((len(y), len(x)))
    for i, t in enumerate(y):
        if per:
            t = t % per
            cand = sorted((abs(xx + s*per - t), j, xx + s*per - t) for j, xx in enumerate(x) for s in (-1, 0, 1))
        else:
            cand = sorted((abs(xx - t), j, xx - t) for j, xx in enumerate(x))
        best = cand[:op["order"]]
        L = ref.basis(np.array([c[2] for c in best]), [0.])[0]
        for c, v in zip(best, L):
            out[i, c[1]] += v
    return out


def iteration(op):
    k = op["k"]
    return np.int64(k) if op.get("kt") == "np" and k is not None else k


def dup_kw(op):
    return {"duplicates": op["dup"]} if "dup" in op else {}


def cplx(x):
    return complex(*x) if isinstance(x, list) else x
