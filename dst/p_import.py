"""C09: imports in any order, from several threads, cut short by interrupts and
I/O errors, and tried again."""
import hashlib
import json
import os
import subprocess
import sys
import _thread

from . import engine, gen as G, sim, world as W
from .props import Prop, sched_for

REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def module_names():
    out = []
    top = os.path.join(REPO, "qmat")
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "scripts"))
        if "__init__.py" not in files:
            continue
        pkg = os.path.relpath(d, REPO).replace(os.sep, ".")
        out.append(pkg)
        out += [pkg + "." + f[:-3] for f in sorted(files) if f.endswith(".py") and f not in ("__init__.py", "__main__.py")]
    return sorted(out)


# --------------------------------------------------------------------- the API
def names_of(mod):
    """names and classes of the registries, as seen from the entry point"""
    q = sys.modules["qmat"]
    rk = sys.modules["qmat.qcoeff.butcher"]
    return {k: {n: (c.__module__, c.__qualname__) for n, c in d.items()}
            for k, d in (("Q", q.Q_GENERATORS), ("D", q.QDELTA_GENERATORS), ("RK", rk.RK_SCHEMES))}


def digest(x):
    import numpy as np
    out = []
    for a in engine.flat(x):
        a = np.asarray(a, dtype=float)
        out.append((a.shape, [float(f"{v:.9g}") + 0. for v in a.ravel()]))
    return out


def api():
    """Everything a user can reach, after importing all modules"""
    import importlib
    import numpy as np
    res = {"names": names_of(None), "problems": []}
    mods = {m: importlib.import_module(m) for m in module_names()}
    res["names"] = names_of(None)
    res["public"] = {m: sorted(n for n in vars(v) if not n.startswith("_")) for m, v in mods.items()}
    res["all"] = {m: sorted(set(v.__all__)) for m, v in mods.items() if hasattr(v, "__all__")}
    q, qc, qd = mods["qmat"], mods["qmat.qcoeff"], mods["qmat.qdelta"]
    same = [(q.Q_GENERATORS, qc.Q_GENERATORS, "Q_GENERATORS"), (q.QDELTA_GENERATORS, qd.QDELTA_GENERATORS, "QDELTA_GENERATORS"),
            (q.genQCoeffs, qc.genQCoeffs, "genQCoeffs"), (q.genQDeltaCoeffs, qd.genQDeltaCoeffs, "genQDeltaCoeffs")]
    for a, b, n in same:
        if a is not b:
            res["problems"].append(f"qmat.{n} is another object than that of its sub-package")
    for kind, d in (("Q", q.Q_GENERATORS), ("D", q.QDELTA_GENERATORS), ("RK", mods["qmat.qcoeff.butcher"].RK_SCHEMES)):
        base = qd.QDeltaGenerator if kind == "D" else qc.QGenerator
        for n, c in d.items():
            m = sys.modules.get(c.__module__)
            if getattr(m, c.__qualname__, None) is not c:
                res["problems"].append(f"{n} in {kind} is another class than {c.__module__}.{c.__qualname__}")
            elif not issubclass(c, base):
                res["problems"].append(f"{n} in {kind} is not derived from the current base class")
            elif kind == "RK" and q.Q_GENERATORS.get(n) is not c:
                res["problems"].append(f"{n} differs between the registries")
    u = mods["qmat.utils"]
    res["classes"] = {k: sorted(c.__qualname__ for c in u.getClasses(d).values())
                      for k, d in (("Q", q.Q_GENERATORS), ("D", q.QDELTA_GENERATORS))}
    with np.errstate(all="ignore"):
        r = {}
        par = dict(nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
        gen = q.Q_GENERATORS["Collocation"](**par)
        for n in sorted(q.Q_GENERATORS):
            r["Q:" + n] = digest(q.genQCoeffs(n, **(par if q.Q_GENERATORS[n].__name__ == "Collocation" else {})))
        for n in sorted(q.QDELTA_GENERATORS):
            if q.QDELTA_GENERATORS[n].__name__ in ("MIN", "MIN_SR_S"):
                continue
            r["D:" + n] = digest(q.genQDeltaCoeffs(n, qGen=gen, dTau=True))
            r["Ds:" + n] = digest(q.genQDeltaCoeffs(n, nSweeps=3, qGen=gen))
        s = mods["qmat.utils.sdc"].solveDahlquistSDC(-1, 1, 1, 4, 3, gen.Q, q.genQDeltaCoeffs("BE", qGen=gen))
        r["sdc"] = digest([s.real, s.imag])
        r["sparse"] = digest(mods["qmat.lagrange"].getSparseInterpolationMatrix(np.linspace(0, 1, 6), np.linspace(.1, .9, 5), 3).toarray())
        r["nodes"] = digest(mods["qmat.nodes"].NodesGenerator("CHEBY-2", "LOBATTO").getNodes(4))
        res["values"] = r
    return res


def clean_api():
    """The API after an undisturbed import of the whole package, in a fresh process"""
    import importlib
    for m in module_names():
        importlib.import_module(m)
    return json.loads(json.dumps(api()))


def known_names():
    with open(os.path.join(HERE, "api.json")) as f:
        return json.load(f)


def compare(got, ref):
    """differences between two APIs, a few lines"""
    out = list(got["problems"][:3])
    for key in ("names", "classes", "public", "all"):
        for k in sorted(set(got[key]) | set(ref[key])):
            a, b = got[key].get(k), ref[key].get(k)
            if a != b and len(out) < 6:
                if isinstance(b, dict) and isinstance(a, dict):
                    out.append(f"{key} {k}: missing {sorted(set(b) - set(a))[:8]}, unexpected {sorted(set(a) - set(b))[:8]}, "
                               f"different {[x for x in a if x in b and a[x] != b[x]][:4]}")
                else:
                    a_, b_ = a or [], b or []
                    out.append(f"{key} {k}: missing {[x for x in b_ if x not in a_][:8]}, unexpected {[x for x in a_ if x not in b_][:8]}")
    for k in sorted(set(got["values"]) | set(ref["values"])):
        if got["values"].get(k) != ref["values"].get(k) and not near(got["values"].get(k), ref["values"].get(k)):
            out.append(f"results of {k} differ")
            if len(out) > 8:
                break
    return out


def near(a, b):
    import numpy as np
    try:
        return all(np.allclose(np.array(x[1]), np.array(y[1]), rtol=1e-7, atol=1e-10) and x[0] == y[0]
                   for x, y in zip(a, b, strict=True))
    except Exception:
        return False


# ---------------------------------------------------------------- module locks
class DeadlockError(RuntimeError):
    pass


class SimModuleLock:
    """Import lock of a module, known to the scheduler"""

    def __init__(self, name):
        self.name, self.owner, self.count = name, None, 0

    def free_for(self, st):
        return self.count == 0 or self.owner is st

    def acquire(self):
        import importlib._bootstrap as b
        k = sim.Kernel.current
        st = k.cur if k is not None else None
        while not self.free_for(st):
            o = self.owner
            seen = set()
            while o is not None and isinstance(o.blocked, SimModuleLock) and id(o) not in seen:
                seen.add(id(o))
                o = o.blocked.owner
                if o is st:
                    raise b._DeadlockError("import deadlock avoided")
            k.probe("waited for an import")
            k.block(st, self)
        self.owner = st
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if not self.count:
            self.owner = None


def install_import_seams():
    import importlib._bootstrap as b
    import importlib._bootstrap_external as x
    b._ModuleLock = SimModuleLock
    real_get, real_list = x.SourceFileLoader.get_data, os.listdir

    def point(what, path):
        k = sim.Kernel.current
        if k is None or not str(path).startswith(sim.QMAT_DIR[:-1]):
            return
        st = k.cur
        if st.op is None:
            return
        st.seam += 1
        k.log(what, os.path.relpath(str(path), REPO))
        kind = st.seamfaults.get(st.seam)
        if kind is not None and st.fired is None:
            st.fired = kind
            k.fired.append((st.tid, st.op, kind, "io:" + what + ":" + os.path.relpath(str(path), REPO)))
            if kind == "oserror":
                import errno
                raise OSError(errno.EIO, "Input/output error", str(path))
            raise sim.make_exc(kind)

    def get_data(self, path):
        point("read", path)
        return real_get(self, path)

    def listdir(path="."):
        point("listdir", path)
        out = real_list(path)
        k = sim.Kernel.current
        if k is not None and str(path).startswith(sim.QMAT_DIR[:-1]):
            order = getattr(k, "listing", None)
            if order is not None:       # a directory has no order
                out = sorted(out, key=lambda n: hashlib.md5(f"{order}{n}".encode()).digest())
        return out
    x.SourceFileLoader.get_data = get_data
    os.listdir = listdir


# ------------------------------------------------------------------- the world
class ImportWorld(W.World):
    def do_imp(self, op, arg):
        code = compile(op["code"], "<customer>", "exec")
        return lambda: exec(code, {})

    def expected(self, op):
        raise W.Undefined


def external(seed, codes):
    """In a new interpreter with its own hash seed: run the imports, return the API"""
    prog = ("import sys, json\nfrom dst import p_import\n" + "\n".join(codes) +
            "\nprint('API' + json.dumps(p_import.api()))")
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, "-c", prog], env=env, cwd=os.path.dirname(HERE), capture_output=True, text=True, timeout=90)
    for line in p.stdout.splitlines():
        if line.startswith("API"):
            return json.loads(line[3:])
    raise RuntimeError(p.stderr[-2000:])


class ImportEngine(engine.Engine):
    World = ImportWorld

    def before(self):
        if "qmat" in sys.modules:
            raise RuntimeError("qmat is already imported")
        self.kern.listing = self.plan.get("listing")
        if "api" not in self.ctx.cache:
            self.ctx.cache["api"] = self.ctx.new["api"] = self.ctx.pristine.call(clean_api)
        self.ref = self.ctx.cache["api"]
        self.known(self.ref)
        for x in self.plan.get("external", ()):
            try:
                got = self.ctx.pristine.call(external, x["seed"], x["codes"])
            except engine.ForkError as e:
                self.violation("exception", {"op": "new interpreter", **x}, str(e)[-500:])
                continue
            self.res.calls += 1
            self.res.checked += 1
            for d in compare(got, self.ref)[:3]:
                self.violation("api", {"op": "new interpreter", **x}, d)

    def known(self, ref):
        """the names that have always been there"""
        for kind, d in known_names().items():
            for n, c in d.items():
                if n not in ref["names"][kind]:
                    self.violation("api", {"op": "clean import"}, f"{n} is missing in registry {kind}")
                elif ref["names"][kind][n][1] != c:
                    self.violation("api", {"op": "clean import"}, f"{n} in registry {kind} is {ref['names'][kind][n][1]}, not {c}")
        for p in ref["problems"][:3]:
            self.violation("api", {"op": "clean import"}, p)

    def after_exc(self, st, op, exc, tainted, exp):
        if not st.fired and not self.disturbed(st):
            self.violation("exception", op, f"{type(exc).__name__}: {exc}")

    def disturbed(self, st):
        """Did the import of another thread fail? Then CPython may hand the module that failed
        to this one, which waited for it: what counts is what the next imports give"""
        return bool(self.plan.get("threads")) and st is not self.kern.main and bool(self.kern.fired)

    def after_ok(self, st, op, val, tainted, guards):
        if self.disturbed(st):
            return
        self.res.checked += 1
        try:
            got = json.loads(json.dumps(names_of(None)))
        except Exception as e:
            self.violation("api", op, f"the import succeeded, but the registries cannot be reached: {e!r}")
            return
        for k, d in self.ref["names"].items():
            if got[k] != d:
                self.violation("api", op, f"after this import, {k} lacks {sorted(set(d) - set(got[k]))[:8]}, "
                               f"has more {sorted(set(got[k]) - set(d))[:8]}")
                return

    def after(self):
        """a clean import of everything must now give the complete API"""
        self.kern.main.op = None
        try:
            import importlib
            for m in (module_names() if self.plan.get("last") != "qmat" else ["qmat"]):
                importlib.import_module(m)
            got = json.loads(json.dumps(api()))
        except Exception as e:
            self.violation("exception", {"op": "import again"}, f"{type(e).__name__}: {e}")
            return
        self.res.calls += 1
        self.res.checked += 1
        for d in compare(got, self.ref)[:3]:
            self.violation("api", {"op": "import again"}, d)


class C09(Prop):
    id = "C09"
    runs = {"quick": 700, "thorough": 30000}
    judge = {"api", "exception", "stuck"}
    Engine = ImportEngine
    rule = ("One case imports qmat in a process in which it was never imported: 1 to 6 import statements of random modules and forms in "
            "random order, from 1 to 3 threads under a seeded schedule, with up to 4 faults (interrupt or allocation failure at any "
            "line executed during the import, I/O errors on reading module files and listing directories), directory listings in any order, "
            "followed by retries; some cases also start a new interpreter with another hash seed. Registries, public names, class identities "
            "and reference results are compared with those of a clean import, and the names with the committed list. "
            "Non-trivial: at least one import checked; distinct: by history hash.")
    components = {"real": ["all of qmat, imported by the CPython import system from /repo", "numpy", "scipy"],
                  "simulated": ["module import locks", "choice of the running thread", "order and failure of directory listings",
                                "failure of file reads", "interrupts, allocation failures"]}
    assumptions = ["module files are not changed during the import", "numpy and scipy are imported before"]

    def zygote(self):
        import numpy, scipy.linalg, scipy.optimize, scipy.special, scipy.sparse, scipy.interpolate     # noqa: F401,E401
        import pkgutil, inspect, warnings, subprocess, importlib    # noqa: F401,E401
        warnings.simplefilter("ignore")
        sim.install_locks()
        install_import_seams()

    def nontrivial(self, plan, out):
        return out["checked"] >= 1

    def make(self, rng, i, tier):
        r = rng
        mods = module_names()
        subset = r.sample(mods, r.randint(1, len(mods)))

        def imp(m=None):
            m = m or r.choice(subset)
            c = r.random()
            if c < .5 or "." not in m:
                code = f"import {m}"
            elif c < .7:
                code = "from {} import {}".format(*m.rsplit(".", 1))
            elif c < .85:
                code = f"from {m} import *"
            else:
                code = f"__import__({m!r}, fromlist=['x'])"
            if m == "qmat" and r.random() < .5:
                code = r.choice(["from qmat import genQCoeffs, genQDeltaCoeffs", "from qmat import Q_GENERATORS, QDELTA_GENERATORS",
                                 "from qmat import *"])
            return {"op": "imp", "code": code, "mod": m}
        plan = {"specs": [], "listing": r.randrange(1000) if r.random() < .7 else None}
        nt = r.choice([1, 1, 1, 2, 3])
        if nt == 1:
            plan["setup"] = [imp() for _ in range(r.randint(1, 6))]
        else:
            plan["setup"] = [imp()] if r.random() < .3 else []
            # (Python's module locks exclude each other when a package and its submodules are
            # imported for the first time by several threads: only the package itself is safe)
            plan["threads"] = [[imp("qmat") for _ in range(r.randint(1, 3))] for _ in range(nt)]
            plan["sched"] = sched_for(r)
            plan["gran"] = "line"
            plan["fin"] = [r.randrange(12) for _ in range(nt + 1)]
        plan["last"] = r.choice(["all", "qmat"])
        if r.random() < .06:
            plan["external"] = [{"seed": r.randrange(1, 100000), "codes": [imp()["code"] for _ in range(r.randint(1, 3))]}]
        engine.number(plan)
        # faults: the first import executes everything; after a failure the next one does
        if r.random() < .85:
            plan["faults"] = []
            first = [(-1, plan["setup"])] if plan["setup"] else []
            lists = first + list(enumerate(plan.get("threads", [])))
            for t, ops in lists:
                for op in ops:
                    if r.random() > (.9 if op is lists[0][1][0] else .5):
                        continue
                    f = {"t": t, "o": op["no"], "kind": r.choice(["interrupt", "memory", "exit", "value"])}
                    if r.random() < .35:
                        f.update(seam=True, kind=r.choice(["oserror", "oserror", "memory"]), at=r.randint(1, 36))
                    else:
                        f["at"] = self.spot(r)
                    plan["faults"].append(f)
                    if len(plan["faults"]) >= 4:
                        break
        return plan

    def spot(self, r):
        """an event number; the import executes a few thousand lines"""
        return r.randint(1, 4200) if r.random() < .7 else r.choice([r.randint(1, 150), r.randint(1, 1200)])

    def shrink(self, plan):
        yield from super().shrink(plan)
        for key in ("listing", "external"):
            if plan.get(key) is not None:
                yield {k: v for k, v in plan.items() if k != key}
