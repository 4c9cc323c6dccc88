"""C11: SDC sweeps under a linear solver that is wrong once in a while, or
fails, and the monitors that tell what happened."""
import numpy as np

from . import engine, gen as G, sim, world as W
from .props import Prop, sched_for
from .world import cplx
from .p_integrate import EPS, SegmentEngine, coefficients, qdelta_matrix, typed


def corrupt(kern, st, name, args, out, f):
    """A wrong answer of the linear solver"""
    if name != "solve" or not isinstance(out, np.ndarray):
        return out
    b = np.asarray(args[1]) if len(args) > 1 else None
    if b is None or out.size != np.shape(args[0])[-1] or b.size != out.size:
        return out          # not the solve of one sweep
    good = np.array(out, dtype=complex)
    bad = good.ravel().copy()
    j = f["node"] % bad.size
    how, m = f["how"], f["mag"]
    big = np.abs(bad).max() or 1.
    if how == "add":
        bad[j] += m*big
    elif how == "scale":
        bad *= 1 + m
    elif how == "zero":
        bad[:] = 0
    elif how == "last":
        bad[-1] += m*big*1j
    elif how == "rhs":
        bad = np.array(b, dtype=complex).ravel()
    elif how == "roll":
        bad = np.roll(bad, 1)
    elif how == "conj":
        bad = bad.conj()*1j
    elif how == "tiny":
        bad[j] += 1e-7*big
    bad = bad.reshape(good.shape)
    st.world_hits.append((st.seam, (bad - good).ravel()))
    kern.fired.append((st.tid, st.op, "corrupt", "seam:solve"))
    kern.log("corrupt", how)
    if out.dtype.kind != "c" and not np.any(bad.imag):
        bad = bad.real
    return bad


sim.SEAM_FILTER = None


class Sdc:
    """The data of one problem and the rounding errors to expect"""

    def __init__(self, spec, co):
        self.spec = spec
        self.lam, self.u0 = cplx(spec["lam"]), cplx(spec["u0"])
        self.T, self.N, self.K = spec["T"], spec["N"], spec["K"]
        self.Q, self.w = co["Q"], co["weights"] if spec["w"] else None
        self.n = len(self.Q)
        self.QD = co["QD"]
        self.QDk = np.broadcast_to(self.QD, (self.K, self.n, self.n))
        self.z = self.lam*(self.T/self.N)
        self.P = [np.eye(self.n) - self.z*M for M in self.QDk]
        self.singular = bool(spec.get("singular"))
        if not self.singular and self.K:
            c = max(np.linalg.cond(P) for P in self.P)
            if not c < 1e7:
                raise W.Undefined
        t = np.linspace(0, self.T, self.N + 1)
        nodes = self.Q.sum(axis=1)
        with np.errstate(all="ignore"):
            self.exact = np.array([[self.u0*np.exp(self.lam*(t[i] + self.T/self.N*x)) for x in nodes] for i in range(self.N)])
        if not np.isfinite(self.exact).all() or np.abs(self.exact).max() > 1e200:
            raise W.Undefined
        nrm = lambda M: np.abs(M).sum(axis=1).max() if np.size(M) else 0.
        self.nQ = nrm(self.Q)
        self.scaleP = [1 + nrm(P) + abs(self.z)*(self.nQ + nrm(M)) for P, M in zip(self.P, self.QDk)]
        self.exerr = 20*EPS*np.abs(self.exact)*(1 + abs(self.lam)*max(1e-300, np.abs(t).max() + abs(self.T/self.N)))

    def run(self, hits):
        """The model: hits = {number of the solve: perturbation}"""
        u = np.zeros(self.N + 1, dtype=complex)
        u[0] = self.u0
        U = np.zeros((self.K + 1, self.N, self.n), dtype=complex)
        tol = np.zeros(self.N + 1)
        tu = 2*EPS*abs(self.u0)
        for i in range(self.N):
            x, e = np.full(self.n, u[i]), tu
            U[0, i] = x
            for k in range(self.K):
                inv = np.linalg.inv(self.P[k])
                y = inv @ (u[i] + self.z*((self.Q - self.QDk[k]) @ x))
                ni = np.abs(inv).sum(axis=1).max()
                e = ni*(tu + abs(self.z)*np.abs(self.Q - self.QDk[k]).sum(axis=1).max()*e
                        + 30*EPS*self.n*self.scaleP[k]*max(np.abs(x).max(), np.abs(y).max(), abs(u[i]))) \
                    + 16*EPS*(e + max(np.abs(x).max(), np.abs(y).max(), abs(u[i])))
                x = y
                h = hits.get(i*self.K + k + 1)
                if h is not None:
                    x = x + h
                    e += 16*EPS*(np.abs(h).max() + np.abs(x).max())
                U[k + 1, i] = x
            u[i + 1] = x[-1] if self.w is None else u[i] + self.z*(self.w @ x)
            tu = e if self.w is None else tu + abs(self.z)*np.abs(self.w).sum()*e \
                + 30*EPS*self.n*(abs(u[i]) + abs(self.z)*np.abs(self.w) @ np.abs(x))
            tol[i + 1] = tu
        if not np.isfinite(U).all() or not np.isfinite(u).all() or np.abs(U).max() > 1e250 or not tu <= 1e-3*max(np.abs(u).max(), 1e-300) + 1e-300:
            raise W.Undefined
        return u, U, tol


class SdcWorld(W.World):
    def do_sdc(self, op, arg):
        e = self.engine
        p = e.job(op["job"])
        form = op.get("af") or "arr"
        Qm, QD = arg(p.Q, "Q", form), arg(p.QD, "QDelta", form)
        w = None if p.w is None else arg(p.w, "weights", form)
        kw = {}
        if op.get("mon") is not None:
            kw["monitors"] = arg.keep({m: None for m in op["mon"]} if op.get("mf") == "dict" else tuple(op["mon"])
                                      if op.get("mf") == "tuple" else list(op["mon"]), "monitors")
        lam, u0 = typed(p.lam, op.get("fl")), typed(p.u0, op.get("fu"))

        def run():
            st = e.kern.cur
            st.world_hits = []
            return W.Q.sdc.solveDahlquistSDC(lam, u0, p.T, p.N, p.K, Qm, QD, weights=w, **kw)
        return run

    def expected(self, op):
        raise W.Undefined


class SdcEngine(SegmentEngine):
    World = SdcWorld

    def before(self):
        sim.SEAM_FILTER = corrupt
        self.jobs, self.gens = {}, {}
        for j, spec in enumerate(self.plan["jobs"]):
            try:
                co = dict(self.cached(coefficients, spec["spec"]))
                if spec.get("qdraw") is not None:
                    co["QD"] = np.array(spec["qdraw"], dtype=float)
                elif spec.get("flat"):
                    co["QD"] = self.cached(qdelta_matrix, spec["types"][0], spec["spec"], None)
                else:
                    co["QD"] = np.array([self.cached(qdelta_matrix, t, spec["spec"], k + 1)
                                         for k, t in enumerate(spec["types"])]).reshape((-1,) + co["Q"].shape)
                with np.errstate(all="ignore"):
                    p = Sdc(spec, co)
                    if not p.singular:
                        p.run({})
                self.jobs[j] = p
            except W.Undefined:
                continue

    def after(self):
        pass

    def after_exc(self, st, op, exc, tainted, exp):
        p = self.job(op["job"])
        if p.singular and isinstance(exc, np.linalg.LinAlgError):
            self.res.checked += 1
            return
        if not st.fired:
            self.violation("exception", op, f"{type(exc).__name__}: {exc}")

    def after_ok(self, st, op, val, tainted, guards):
        p = self.job(op["job"])
        self.res.checked += 1
        if st.fired and self.seam_fired(st, op):
            self.violation("swallowed", op, "the solver raised, but the call returned")
            return
        if p.singular:
            self.violation("swallowed", op, "a singular system was solved")
            return
        mon = list(op.get("mon") or [])
        if mon:
            if not (isinstance(val, tuple) and len(val) == 2):
                self.violation("value", op, "no monitors returned")
                return
            u, M = val
            if sorted(M) != sorted(mon):
                self.violation("value", op, f"monitors {sorted(M)} instead of {sorted(mon)}")
                return
        else:
            u, M = val, {}
        u = np.asarray(u)
        if u.shape != (p.N + 1,) or any(np.shape(x) != (p.K + 1, p.N, p.n) for x in M.values()):
            self.violation("value", op, f"shapes {u.shape} {[np.shape(x) for x in M.values()]}")
            return
        hits = dict(st.world_hits)
        nsolve = st.seam
        if nsolve == p.N*p.K or not hits:
            self.model(op, p, hits, u, M)
        else:
            self.kern.probe("other number of solves")
        if "errors" in M:
            self.transitions(op, p, len(hits), u, np.asarray(M["errors"]) + p.exact, M)

    def seam_fired(self, st, op):
        return any(f[0] == st.tid and f[1] == op["no"] and str(f[3]).startswith("seam:") and f[2] != "corrupt" for f in self.kern.fired)

    def model(self, op, p, hits, u, M):
        try:
            with np.errstate(all="ignore"):
                ur, U, tol = p.run(hits)
        except W.Undefined:
            return
        bad = ~(np.abs(u - ur) <= 10*tol + 1e-300)
        what = f" (with {len(hits)} wrong solves)" if hits else ""
        if bad.any():
            i = int(np.argmax(bad))
            self.violation("value", op, f"u[{i}] = {u[i]!r}, the sweeps give {ur[i]!r}{what}")
            return
        step = np.repeat(np.maximum(tol[1:], tol[:-1])[None, :, None], p.K + 1, 0)
        mag = np.abs(U).max(axis=2, keepdims=True)
        for name in M:
            if name == "errors":
                ref, t = U - p.exact, p.exerr[None] + 0*U.real
            else:
                ref = ur[:-1][None, :, None] + p.z*np.einsum("ij,klj->kli", p.Q, U) - U
                t = 30*EPS*p.n*(1 + abs(p.z)*p.nQ)*np.maximum(mag, np.abs(ur[:-1])[None, :, None]) + 0*U.real
            t = t + 10*(1 + abs(p.z)*p.nQ)*(step + self.iter_tol(p, U)) + 1e-300
            got = np.asarray(M[name])
            bad = ~(np.abs(got - ref) <= t)
            if bad.any():
                k, i, m = np.argwhere(bad)[0]
                self.violation("value", op, f"{name}[{k},{i},{m}] = {got[k, i, m]!r} instead of {ref[k, i, m]!r}{what}")
                return

    @staticmethod
    def iter_tol(p, U):
        """rounding errors of the iterates"""
        out = np.zeros(U.shape)
        e = 4*EPS*np.abs(U[0]).max(axis=1)
        for k in range(p.K):
            inv = np.linalg.inv(p.P[k])
            ni = np.abs(inv).sum(axis=1).max()
            e = ni*(4*EPS*np.abs(U[0]).max(axis=1) + abs(p.z)*np.abs(p.Q - p.QDk[k]).sum(axis=1).max()*e
                    + 30*EPS*p.n*p.scaleP[k]*np.maximum(np.abs(U[k]).max(axis=1), np.abs(U[k + 1]).max(axis=1))) \
                + 16*EPS*(e + np.maximum(np.abs(U[k]).max(axis=1), np.abs(U[k + 1]).max(axis=1)))
            out[k + 1] = e[:, None]
        return out

    def transitions(self, op, p, hits, u, U, M):
        """what the monitors say must be a history of sweeps in which at most
        as many are wrong as the solver was"""
        back = p.exerr.max() + 4*EPS*np.abs(U).max()
        wrong = []
        for i in range(p.N):
            sc = max(np.abs(U[:, i]).max(), abs(u[i]))
            tol = 30*EPS*p.n*max(p.scaleP or [1 + abs(p.z)])*sc + 4*max(p.scaleP or [1.])*back + 1e-300
            if not np.abs(U[0, i] - u[i]).max() <= tol:
                self.violation("value", op, f"step {i} does not start from the value of the step before")
                return
            for k in range(p.K):
                r = p.P[k] @ U[k + 1, i] - (u[i] + p.z*((p.Q - p.QDk[k]) @ U[k, i]))
                if not np.abs(r).max() <= tol:
                    wrong.append((i, k + 1))
            nxt = U[-1, i, -1] if p.w is None else u[i] + p.z*(p.w @ U[-1, i])
            if not abs(u[i + 1] - nxt) <= tol*(1 + (abs(p.z)*np.abs(p.w).sum() if p.w is not None else 0)):
                self.violation("value", op, f"step {i} does not end with the value the last sweep gives")
                return
            if "residuals" in M:
                r = u[i] + p.z*(U[:, i] @ p.Q.T) - U[:, i] - np.asarray(M["residuals"])[:, i]
                if not np.abs(r).max() <= tol*(1 + abs(p.z)*p.nQ):
                    self.violation("value", op, f"residuals of step {i} are not those of the iterates the errors describe")
                    return
        if len(wrong) > hits:
            self.violation("value", op, f"sweeps {wrong[:4]} do not solve their equation, the solver was wrong {hits} times")


class C11(Prop):
    id = "C11"
    runs = {"quick": 2500, "thorough": 80000}
    judge = {"value", "exception", "stuck", "swallowed", "input-modified"}
    Engine = SdcEngine
    rule = ("One case is 1 to 8 SDC runs (1 to 12 steps, 0 to 14 sweeps, constant or changing QDelta, with or without step update, any set of "
            "monitors, in 1 to 3 threads) with up to 6 wrong or failing answers of the linear solver at chosen solves, singular systems, "
            "interrupts. Solutions and monitors are compared with a model given the same perturbations, and "
            "every transition between monitored iterates is checked against the sweep equation. Non-trivial: at least one checked run; "
            "distinct: by history hash.")
    components = {"real": ["all of qmat from /repo", "numpy", "scipy", "CPython"],
                  "simulated": ["results and failures of numpy.linalg.solve", "choice of the running thread", "memory allocation, interrupts"]}
    assumptions = ["a perturbation of the solver is what the simulator added to its result", "rounding errors bounded by norms"]

    def nontrivial(self, plan, out):
        return out["checked"] >= 1

    def make_job(self, g):
        r = g.r
        spec = g.coll(n=r.choice([1, 2, 3, 3, 4, 5]))
        T = r.choice([1., .1, 2., 5., 1e-3, 50.])*r.choice([1, 1, 1, -1])
        N = r.choice([1, 1, 2, 3, 5, 12])
        z = r.choice([.01, .3, 1., 1., 3., 30.])
        lam = r.choice([complex(-z), complex(0, z), complex(z/4), complex(round(-z*r.random(), 4), round(z*r.uniform(-1, 1), 4)), 0j])/(abs(T)/N)
        j = {"spec": spec, "lam": [lam.real, lam.imag], "T": T, "N": N, "K": r.choice([0, 1, 2, 2, 3, 4, 4, 8, r.randint(9, 14)]),
             "u0": r.choice([[1, 0], [1, 0], [.5, -2], [1e-12, 0], [1e30, 1e30], [0, 0]]), "w": r.random() < .5}
        j["flat"] = j["K"] == 0 or r.random() < .5
        j["types"] = [g.kind_for(spec, 0) for _ in range(1 if j["flat"] else j["K"])]
        if r.random() < .06 and j["K"]:     # a system that is singular in exact arithmetic
            n = spec["n"]
            j["lam"], j["T"], j["singular"], j["u0"] = [2. if T > 0 else -2., 0.], float(N) if T > 0 else -float(N), True, [1, 0]
            D = [[0.]*n for _ in range(n)]
            for k in range(n):
                D[k][k] = .25
            D[r.randrange(n)] = [0.]*n
            d = r.randrange(n)
            D[d] = [.5 if c == d else 0. for c in range(n)]
            good = [[0.125 if a == b else 0. for b in range(n)] for a in range(n)]
            s = r.randrange(j["K"])
            j["flat"] = r.random() < .5
            j["qdraw"] = D if j["flat"] else [D if k == s else good for k in range(j["K"])]
        return j

    def make(self, rng, i, tier):
        r = rng
        g = G.Gen(r, heavy=0, intervals=False)
        jobs = [self.make_job(g) for _ in range(r.randint(1, 3))]

        def op():
            o = {"op": "sdc", "job": r.randrange(len(jobs))}
            if r.random() < .8:
                o["mon"] = r.choice([["residuals"], ["errors"], ["residuals", "errors"], ["errors", "residuals"], ["residuals", "errors"], []])
                if r.random() < .4:
                    o["mf"] = r.choice(["dict", "tuple"])
            if r.random() < .4:
                o["af"] = r.choice(["view", "rev", "ro", "F"])
            if r.random() < .5:
                o["fl"], o["fu"] = (r.choice(["np", "real", "npreal", "int", None]) for _ in range(2))
            return {k: v for k, v in o.items() if v is not None}
        plan = {"specs": [], "jobs": jobs, "setup": [op() for _ in range(r.randint(1, 5))]}
        if r.random() < .25:
            nt = r.choice([2, 2, 3])
            plan["threads"] = [[op() for _ in range(r.randint(1, 2))] for _ in range(nt)]
            plan["sched"] = sched_for(r)
            plan["gran"] = "opcode" if r.random() < .2 else "line"
            plan["fin"] = [r.randrange(12) for _ in range(nt + 1)]
        engine.number(plan)
        faults = []
        if r.random() < .85:
            lists = [(-1, o) for o in plan["setup"]] + [(t, o) for t, ops in enumerate(plan.get("threads", [])) for o in ops]
            # the same fault once with and once without monitors
            if r.random() < .4 and plan["setup"]:
                twin = {k: v for k, v in plan["setup"][-1].items() if k not in ("mon", "mf", "no")}
                twin["no"] = 1000
                plan["setup"].append(twin)
                lists.append((-1, twin))
            for t, o in lists:
                if r.random() < .3:
                    continue
                job = jobs[o["job"]]
                total = job["N"]*job["K"]
                if not total:
                    continue
                c = r.random()
                if c < .78:
                    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
                        faults.append({"t": t, "o": o["no"], "seam": True, "kind": "corrupt", "at": r.choice([1, total, r.randint(1, total)]),
                                       "how": r.choice(["add", "add", "scale", "zero", "last", "rhs", "roll", "conj", "tiny"]),
                                       "node": r.randrange(8), "mag": r.choice([1e-4, .1, 1., -3., 100., 1e6])})
                elif c < .92:
                    faults.append({"t": t, "o": o["no"], "seam": True, "kind": r.choice(["linalg", "linalg", "memory", "fpe", "value"]),
                                   "at": r.randint(1, total)})
                else:
                    faults.append({"t": t, "o": o["no"], "kind": r.choice(["interrupt", "memory"]), "frac": r.random()})
        plan["faults"] = faults
        return plan

    def shrink(self, plan):
        for j, job in enumerate(plan["jobs"]):
            for key, v in (("N", 1), ("N", 2), ("K", 1), ("w", False), ("u0", [1, 0]), ("T", 1.)):
                if job[key] != v and not (key == "K" and (not job.get("flat") or job["K"] < 1)) and not job.get("singular"):
                    yield dict(plan, jobs=plan["jobs"][:j] + [dict(job, **{key: v})] + plan["jobs"][j + 1:])
        for k, op in enumerate(plan.get("setup", [])):
            for x in ("af", "mf", "fl", "fu"):
                if op.get(x):
                    yield dict(plan, setup=plan["setup"][:k] + [{a: b for a, b in op.items() if a != x}] + plan["setup"][k + 1:])
