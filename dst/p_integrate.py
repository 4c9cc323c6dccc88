"""C10: long integrations cut into segments that workers, fresh processes and
crashes share through a durable store holding only the last values."""
import numpy as np

from . import engine, gen as G, ref, sim, world as W
from .props import Prop, sched_for, rel_faults
from .world import cplx

EPS = 2.3e-16


# ------------------------------------------------------ in pristine processes
def coefficients(spec):
    """Coefficients of a method, from a fresh process"""
    with np.errstate(all="ignore"):
        g = W.real_qgen(spec)
        out = {"nodes": np.array(g.nodes, float), "weights": np.array(g.weights, float), "Q": np.array(g.Q, float)}
        try:
            out["b2"] = np.array(g.weightsEmbedded, float)
        except Exception:
            out["b2"] = None
        return out


def qdelta_matrix(kind, src, k):
    with np.errstate(all="ignore"):
        return np.array(W.Q.qd.QDELTA_GENERATORS[kind](qGen=W.real_qgen(src)).getQDelta(k), float)


def fresh_call(job, coefs, call):
    """One call in a process where only the arguments survived"""
    with np.errstate(all="ignore"):
        return make_call(job, coefs, W.real_qgen(job["spec"]) if job["kind"] == "rk" else None, call)()


# ------------------------------------------------------------------- the call
def typed(v, form):
    v = complex(v)
    if form == "np":
        return np.complex128(v)
    if v.imag == 0 and form in ("real", "npreal", "int"):
        if form == "int" and v.real == int(v.real) and abs(v.real) < 1e6:
            return int(v.real)
        return np.float64(v.real) if form == "npreal" else v.real
    return v


def make_call(job, co, gen, call):
    """Thunk of one solve or error call. call: u0, T, n, err, uNum, forms"""
    lam, u0 = typed(cplx(job["lam"]), call.get("fl")), typed(call["u0"], call.get("fu"))
    T, n = call["T"], call["n"]
    if call.get("fn"):
        n = np.int64(n)
    if call.get("fT"):
        T = np.float64(T)
    kw = {}
    if call.get("uNum") is not None:
        kw["uNum"] = call["uNum"]
    if job["kind"] == "rk":
        f = gen.errorDahlquist if call.get("err") else gen.solveDahlquist
        if job.get("emb") or call.get("kw"):
            kw["useEmbeddedWeights"] = bool(job.get("emb"))
        if call.get("kw"):
            return lambda: f(lam=lam, u0=u0, tEnd=T, nSteps=n, **kw)
        return lambda: f(lam, u0, T, n, **kw)
    f = W.Q.sdc.errorDahlquistSDC if call.get("err") else W.Q.sdc.solveDahlquistSDC
    if job.get("w") or call.get("kw"):
        kw["weights"] = co["weights"] if job.get("w") else None
    if call.get("mon") and not call.get("err"):
        kw["monitors"] = list(call["mon"])
        if call.get("kw"):
            return lambda: f(lam=lam, u0=u0, tEnd=T, nSteps=n, nSweeps=job["K"], Q=co["Q"], QDelta=co["QD"], **kw)[0]
        return lambda: f(lam, u0, T, n, job["K"], co["Q"], co["QD"], **kw)[0]
    if call.get("kw"):
        return lambda: f(lam=lam, u0=u0, tEnd=T, nSteps=n, nSweeps=job["K"], Q=co["Q"], QDelta=co["QD"], **kw)
    return lambda: f(lam, u0, T, n, job["K"], co["Q"], co["QD"], **kw)


# ------------------------------------------------------------------ the model
class Model:
    """One-step map of a job and a bound on the rounding errors of one step"""

    def __init__(self, job, co):
        Q = co["Q"]
        n = len(Q)
        z = self.z = cplx(job["lam"])*job["dt"]
        one = np.ones(n)
        nrm = lambda M: np.abs(M).sum(axis=1).max() if np.size(M) else 0.
        if job["kind"] == "rk":
            w = co["b2"] if job.get("emb") else co["weights"]
            if w is None:
                raise W.Undefined
            A = np.eye(n) - z*Q
            if not np.isfinite(A).all() or np.linalg.cond(A) > 1e8:
                raise W.Undefined
            x = np.linalg.inv(A) @ one
            self.R = 1 + z*(w @ x)
            self.d = EPS*40*n*(1 + abs(z)*(np.abs(w) @ np.abs(x) + np.abs(w).sum()*nrm(np.linalg.inv(A))*nrm(A)*np.abs(x).max()))
        else:
            QD = np.broadcast_to(co["QD"], (job["K"], n, n))
            x, e = np.ones(n, dtype=complex), EPS
            for k in range(job["K"]):
                P = np.eye(n) - z*QD[k]
                if not np.isfinite(P).all() or np.linalg.cond(P) > 1e8:
                    raise W.Undefined
                inv = np.linalg.inv(P)
                y = inv @ (1 + z*((Q - QD[k]) @ x))
                e = nrm(inv)*(abs(z)*nrm(Q - QD[k])*e + EPS*20*n*(1 + abs(z)*(nrm(Q) + nrm(QD[k]))*np.abs(x).max()
                                                                 + nrm(P)*np.abs(y).max())) \
                    + 16*EPS*max(1, np.abs(x).max(), np.abs(y).max())
                x = y
            w = co["weights"]
            self.R = x[-1] if not job.get("w") else 1 + z*(w @ x)
            self.d = e + EPS if not job.get("w") else EPS*20*n*(1 + abs(z)*np.abs(w) @ np.abs(x)) + abs(z)*np.abs(w).sum()*e
        if not np.isfinite(self.R) or not self.d < 1e-4:
            raise W.Undefined

    def values(self, u, n):
        """values after 0..n steps from u, and bounds of the deviation allowed"""
        i = np.arange(n + 1)
        R = complex(self.R)
        P = np.array([1 + 0j] + [R]*n)
        P = np.cumprod(P)
        v = u*P
        a = abs(u)*np.abs(P)
        r = max(abs(R), 1e-300)
        prev = np.concatenate([[0], a[:-1]])
        tol = 10*i*(self.d + 20*EPS*abs(R) + 8*EPS*abs(self.z)*0)*np.maximum(prev, a/r) + 4*EPS*a
        # the step length of a segment is rounded
        tol += 8*EPS*i*abs(self.z)*self.slope()*np.maximum(prev, a/r)
        return v, tol + 1e-305

    def slope(self):
        return 1 + abs(self.R)


class Job:
    def __init__(self, spec, co):
        self.spec, self.co = spec, co
        self.model = Model(spec, co)
        self.store = {0: complex(cplx(spec["u0"]))}     # durable checkpoints: step -> value
        self.N = spec["N"]
        v, _ = self.model.values(self.store[0], self.N)
        m = np.abs(v)
        if not np.isfinite(v).all() or m.max() > 1e280 or (m.max() > 0 and m.min() < 1e-270):
            raise W.Undefined

    @property
    def last(self):
        return max(self.store)


class SegmentWorld(W.World):
    def do_seg(self, op, arg):
        e = self.engine
        job = e.job(op["job"])
        start = job.last
        if op.get("redo") is not None:
            keys = sorted(job.store)
            start = keys[int(op["redo"]*len(keys)) % len(keys)]
        n = min(op["n"], job.N - start)
        if n <= 0:
            return None
        u = job.store[start]
        call = dict(op["call"], u0=u, T=job.spec["dt"]*n, n=n)
        e.kern.log("segment", op["job"], start, n)

        def run():
            if op.get("fresh"):
                try:
                    val = e.ctx.pristine.call(fresh_call, job.spec, job.co, call)
                except engine.ForkError as x:
                    raise RuntimeError(str(x)[-300:])
            else:
                val = make_call(job.spec, job.co, e.gens.get(op["job"]), call)()
            return op, start, n, u, val
        return run

    def do_err(self, op, arg):
        e = self.engine
        job = e.job(op["job"])
        n = min(op["n"], job.N)
        u0 = job.store[0]
        call = dict(op["call"], u0=u0, T=job.spec["dt"]*n, n=n, err=True)
        v, tol = job.model.values(u0, n)
        if op.get("given"):
            v = v.copy()
            for f, re, im in op["given"]:
                v[int(f*n + .5)] += complex(re, im)*(np.abs(v).max() or 1.)
            tol = 0*tol + 1e-305
            call["uNum"] = v.copy()
        t = np.arange(n + 1)*job.spec["dt"]
        lam = cplx(job.spec["lam"])
        with np.errstate(all="ignore"):
            ex = u0*np.exp(lam*t)
        if not np.isfinite(ex).all():
            return None
        exp = np.abs(v - ex).max()
        etol = tol.max() + 40*EPS*((1 + np.abs(lam*t))*np.abs(ex)).max() + 4*EPS*np.abs(v).max()

        def run():
            if op.get("fresh"):
                try:
                    val = e.ctx.pristine.call(fresh_call, job.spec, job.co, call)
                except engine.ForkError as x:
                    raise RuntimeError(str(x)[-300:])
            else:
                val = make_call(job.spec, job.co, e.gens.get(op["job"]), call)()
            return op, float(exp), float(etol), val
        return run

    def expected(self, op):
        raise W.Undefined


class SegmentEngine(engine.Engine):
    World = SegmentWorld

    def before(self):
        self.jobs, self.gens = {}, {}
        for j, spec in enumerate(self.plan["jobs"]):
            co = dict(self.cached(coefficients, spec["spec"]))
            if spec["kind"] == "sdc":
                if spec.get("flat"):
                    co["QD"] = self.cached(qdelta_matrix, spec["types"][0], spec["spec"], None)
                else:
                    co["QD"] = np.array([self.cached(qdelta_matrix, t, spec["spec"], k + 1) for k, t in enumerate(spec["types"])])
                    co["QD"].shape = (len(spec["types"]),) + co["Q"].shape
            try:
                with np.errstate(all="ignore"):
                    self.jobs[j] = Job(spec, co)
            except W.Undefined:
                continue
            if spec["kind"] == "rk":
                share = spec.get("share")
                self.gens[j] = self.gens[share] if share in self.gens else W.real_qgen(spec["spec"])

    def cached(self, fn, *args):
        key = fn.__name__ + repr(args)
        if key not in self.ctx.cache:
            try:
                v = self.ctx.pristine.call(fn, *args)
            except engine.ForkError as x:
                raise RuntimeError(str(x))
            self.ctx.cache[key] = self.ctx.new[key] = v
        return self.ctx.cache[key]

    def job(self, j):
        if j not in self.jobs:
            raise W.Undefined
        return self.jobs[j]

    def after_exc(self, st, op, exc, tainted, exp):
        if not st.fired:
            self.violation("exception", op, f"{type(exc).__name__}: {exc}")

    def after_ok(self, st, op, val, tainted, guards):
        self.res.checked += 1
        if op["op"] == "err":
            _, exp, tol, got = val
            try:
                ok = abs(float(got) - exp) <= tol
            except (TypeError, ValueError):
                ok = False
            if not ok:
                self.violation("value", op, f"error {got!r}, but the maximum deviation is {exp!r} (+- {tol:.2g})")
            return
        _, start, n, u, got = val
        job = self.job(op["job"])
        show = dict(op, start=start, steps=n)
        got = np.asarray(got)
        if got.shape != (n + 1,):
            self.violation("value", show, f"{got.shape} values for {n} steps")
            return
        with np.errstate(all="ignore"):
            v, tol = job.model.values(u, n)
            bad = ~(np.abs(got - v) <= tol)
        if bad.any():
            i = int(np.argmax(bad))
            self.violation("value", show, f"value {i} of the segment is {got[i]!r}, repeated one-step map gives {v[i]!r} (+- {tol[i]:.2g})")
            return
        # ... and globally, whatever segments led here
        v, tol = job.model.values(job.store[0], start + n)
        if not abs(got[-1] - v[-1]) <= 3*tol[-1]:
            self.violation("value", show, f"after {start + n} steps in segments: {got[-1]!r}, in one go {v[-1]!r}")
            return
        if op.get("lost"):
            self.kern.probe("segment done, result lost")
            return
        if op.get("scr"):       # the store owns nothing of the result
            val = complex(got[-1])
            W.scribble(got, op["scr"])
            got = np.array([val])
        job.store.setdefault(start + n, complex(got[-1]))

    def after(self):
        """faults have stopped: every job must come to its end"""
        for j, job in self.jobs.items():
            calls = 0
            while job.last < job.N:
                op = {"op": "seg", "job": j, "n": -(-(job.N - job.last)//(3 if calls < 2 else 1)), "call": {}, "no": 10**6 + 1000*j + calls}
                before = job.last
                self.step(self.kern.main, op)
                calls += 1
                if job.last == before:
                    if not self.res.viol:
                        self.violation("stuck", op, "the integration does not proceed")
                    break
            self.kern.probe("jobs completed")
        self.res.info["steps"] = sum(job.last for job in self.jobs.values())


class C10(Prop):
    id = "C10"
    runs = {"quick": 1500, "thorough": 60000}
    judge = {"value", "exception", "stuck"}
    Engine = SegmentEngine
    rule = ("One case integrates 1 to 4 jobs (Runge-Kutta, collocation, embedded, SDC with constant or changing QDelta, with or without step "
            "update; step factors from decaying to growing, 1 to 3000 steps) in segments taken by workers from a durable store that holds "
            "only the last values: segments in the same process, in fresh processes, on shared generator objects, in 1 to 3 threads, redone, "
            "cut short by interrupts, allocation or solver failures at any point, or completed but lost. Every segment is compared with powers "
            "of the one-step map, error functions with the deviation they report. Non-trivial: at least 2 results checked; "
            "distinct: by history hash.")
    components = {"real": ["all of qmat from /repo", "numpy", "scipy", "CPython"],
                  "simulated": ["choice of the running thread", "durable store of checkpoints (a dictionary in the harness)",
                                "loss of processes and of completed results", "failures of numpy kernels, of memory allocation, interrupts"]}
    assumptions = ["the store keeps what it was given (no torn checkpoint)", "rounding errors bounded by the condition of one step"]

    def nontrivial(self, plan, out):
        return out["checked"] >= 2

    def make_job(self, g, jobs):
        r = g.r
        if jobs and r.random() < .3:
            import copy
            j = copy.deepcopy(r.choice(jobs))
            which = r.choice(["lam", "u0", "N", "dt", "emb", "w", "spec"])
            if which == "lam":
                j["lam"] = [r.choice([-1, -.5, -2.]), j["lam"][1]]
            elif which == "u0":
                j["u0"] = [j["u0"][0]*2 + 1, j["u0"][1]]
            elif which == "N":
                j["N"] = max(1, j["N"] + r.choice([-3, -1, 1, 5]))
            elif which == "dt":
                j["dt"] *= r.choice([.5, 2., 1.01])
            elif which == "emb" and j["kind"] == "rk":
                j["emb"] = not j.get("emb")
            elif which == "w" and j["kind"] == "sdc":
                j["w"] = not j.get("w")
            if j["kind"] == "rk" and which != "spec":
                j["share"] = jobs.index(next(x for x in jobs if x["spec"] == j["spec"] and x["kind"] == "rk"))
            return j
        kind = "rk" if r.random() < .55 else "sdc"
        if kind == "rk":
            spec = g.coll_iv(n=r.choice([1, 2, 3, 4, 5, 8])) if r.random() < .4 else g.rk()
            if r.random() < .7:
                spec.pop("tL", None), spec.pop("tR", None)
        else:
            spec = g.coll(n=r.choice([1, 2, 3, 4, 5]))
        j = {"kind": kind, "spec": spec}
        dt = j["dt"] = r.choice([.01, .1, .125, .25, 1/3, 1., 2.5, 1e-3, 1e-6, 40.]) * r.choice([1, 1, 1, 1, -1])
        zabs = r.choice([.01, .1, .5, 1., 1., 2., 5., 30., 1e3])
        c = r.random()
        if c < .3:
            lam = complex(-zabs, 0)
        elif c < .45:
            lam = complex(0, zabs*r.choice([1, -1]))
        elif c < .55:
            lam = complex(zabs, 0)
        elif c < .6:
            lam = 0j
        else:
            lam = complex(round(-zabs*r.random(), 4), round(zabs*r.uniform(-1, 1), 4))
        lam = lam/abs(dt) if r.random() < .8 else complex(round(lam.real), round(lam.imag))
        j["lam"] = [lam.real, lam.imag]
        j["u0"] = r.choice([[1, 0], [1, 0], [2.5, 0], [0, 1], [-1, .5], [1e-8, 0], [1e-30, 2e-30], [3e40, 0], [1e-120, 0], [0, 0]])
        j["N"] = r.choice([1, 2, 3, 5, 8, 10, 16, 25, 40, 64, 100, 101, 150]) if r.random() < .94 else r.choice([400, 512, 1000, 1024, 3000])
        if kind == "rk":
            j["emb"] = r.random() < .25 and spec["c"] == "rk"
        else:
            j["K"] = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])
            j["w"] = r.random() < .5
            j["flat"] = j["K"] == 0 or r.random() < .5
            kinds = [g.kind_for(spec, 0) for _ in range(1 if j["flat"] else j["K"])]
            j["types"] = kinds
        return j

    def call(self, r, job):
        c = {}
        if r.random() < .6:
            c = {"fl": r.choice(["np", "real", "npreal", "int", None]), "fu": r.choice(["np", "real", "npreal", "int", None]),
                 "fn": r.random() < .3, "fT": r.random() < .3, "kw": r.random() < .4}
        if job["kind"] == "sdc" and r.random() < .15:
            c["mon"] = r.choice([["residuals"], ["errors"], ["residuals", "errors"], []])
        return {k: v for k, v in c.items() if v}

    def make(self, rng, i, tier):
        r = rng
        g = G.Gen(r, heavy=0)
        jobs = []
        for _ in range(r.randint(1, 4)):
            jobs.append(self.make_job(g, jobs))

        def op():
            j = r.randrange(len(jobs))
            job = jobs[j]
            if r.random() < .22:
                o = {"op": "err", "job": j, "n": r.choice([1, 2, 3, job["N"], job["N"], max(1, job["N"]//2)]), "call": self.call(r, job)}
                if r.random() < .5:
                    o["given"] = [[r.choice([0., 1., .5, r.random()]), r.choice([0, .5, -3, 1e-3, 10]), r.choice([0, 0, .5, -2])]
                                  for _ in range(r.randint(0, 2))]
                    o["given"] = o["given"] or [[0., 0, 0]]
            else:
                o = {"op": "seg", "job": j, "n": r.choice([1, 1, 2, 3, 5, 10, job["N"], 1 + job["N"]//2, 1 + job["N"]//5, r.randint(1, job["N"])]),
                     "call": self.call(r, job)}
                if r.random() < .15:
                    o["redo"] = round(r.random(), 3)
                if r.random() < .1:
                    o["lost"] = True
                if r.random() < .2:
                    o["scr"] = r.choice(G.SCR)
            if r.random() < .06:
                o["fresh"] = True
            return o
        plan = {"specs": [], "jobs": jobs, "setup": [op() for _ in range(r.randint(2, 12))]}
        if r.random() < .35:
            nt = r.choice([2, 2, 3])
            plan["threads"] = [[op() for _ in range(r.randint(1, 4))] for _ in range(nt)]
            for ops in plan["threads"]:
                for o in ops:
                    if r.random() < .8:
                        o["n"] = min(o["n"], 12)
            plan["sched"] = sched_for(r)
            plan["gran"] = "opcode" if r.random() < .2 else "line"
            plan["fin"] = [r.randrange(12) for _ in range(nt + 1)]
        if r.random() < .6:
            rel_faults(r, plan, r.randint(1, 4), where=lambda o: not o.get("fresh"))
        elif "threads" not in plan:
            plan["trace"] = False
        return plan

    def shrink(self, plan):
        for j, job in enumerate(plan["jobs"]):
            for n in (1, 2, 3, job["N"]//2):
                if 1 <= n < job["N"]:
                    yield dict(plan, jobs=plan["jobs"][:j] + [dict(job, N=n)] + plan["jobs"][j + 1:])
            for key, v in (("u0", [1, 0]), ("lam", [-1., 0.]), ("dt", .1)):
                if job[key] != v:
                    yield dict(plan, jobs=plan["jobs"][:j] + [dict(job, **{key: v})] + plan["jobs"][j + 1:])
        for key in ("setup",):
            for k, op in enumerate(plan.get(key, [])):
                for x in ("call", "redo", "lost", "scr", "fresh", "given"):
                    if op.get(x):
                        f = {a: b for a, b in op.items() if a != x}
                        if x == "call":
                            f["call"] = {}
                        yield dict(plan, **{key: plan[key][:k] + [f] + plan[key][k + 1:]})
