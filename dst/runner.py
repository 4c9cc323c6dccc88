"""Runs many simulated executions on all cores, minimises what fails, writes
replay files and evidence."""
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 60
BUDGET = {"quick": 420., "thorough": 6*3600.}


class Dead(Exception):
    """A run whose process hung or died"""


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ one run
class Zygote:
    """Lives in a process that imported the code and executed nothing else;
    every execution happens in a fork of it."""

    def __init__(self, prop):
        self.prop = prop
        prop.zygote()
        self.ctx = engine.Ctx()
        self.ctx.pristine.start()

    def fork(self, plan, timeout=None):
        ctx = self.ctx
        timeout = timeout or getattr(self.prop, "timeout", RUN_TIMEOUT)

        def run():
            ctx.new = {}
            out = self.prop.execute(plan, ctx)
            return out, ctx.new
        for attempt in (1, 2):
            kind, val = engine.in_fork(run, timeout*attempt)
            if kind == "dead":      # hung or crashed: once more, with fresh helpers
                ctx.pristine.kill()
                ctx.pristine = engine.Pristine()
                ctx.pristine.start()
                continue
            if kind == "err" and engine.in_code(val):
                return self.failed("exception", "what the run needs fails: " + val.strip().splitlines()[-1])
            if kind == "err":
                raise HarnessError(val)
            out, new = val
            ctx.cache.update(new)
            return out
        return self.failed("stuck", "the process hangs or dies: " + str(val))

    @staticmethod
    def failed(cls, detail):
        out = {k: 0 for k in ("hash", "events", "switches", "calls", "checked", "raised", "visited")}
        out.update(fired=[], probes={}, counts=[], info={}, viol=[{"cls": cls, "op": {"op": "process"}, "detail": detail[:600]}])
        return out

    def evaluate(self, plan):
        """Returns [(plan, outcome)]: the dry run first when there is one"""
        res = []
        if engine.relative(plan):
            dryplan = {k: v for k, v in plan.items() if k not in ("sched", "faults", "preempt", "fin", "nested")}
            dry = self.fork(dryplan)
            res.append((dryplan, dry))
            if dry["viol"]:
                return res
            plan = engine.resolve(plan, dry)
        res.append((plan, self.fork(plan)))
        return res

    def stop(self):
        self.ctx.pristine.kill()


# ------------------------------------------------------------------ workers
def worker(prop, tier, seed, rfd, wfd):
    z = Zygote(prop)
    engine._send(wfd, pickle.dumps(("ready", None)))
    while True:
        b = os.read(rfd, 4)
        if len(b) < 4:
            break
        i, = struct.unpack("<I", b)
        try:
            rng = prop.rng(seed, i)
            plan = prop.make(rng, i, tier)
            if rng.random() < .4:
                plan.setdefault("buf", True)
            plan["seed"] = f"{prop.id}:{seed}:{i}"
            engine.number(plan)
            out = z.evaluate(plan)
            msg = ("run", (i, out))
        except HarnessError as e:
            msg = ("error", (i, str(e)))
        except BaseException:
            msg = ("error", (i, traceback.format_exc()))
        engine._send(wfd, pickle.dumps(msg))
    z.stop()


def start_worker(prop, tier, seed, close=()):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            for fd in close:
                os.close(fd)
            os.close(w1), os.close(r2)
            worker(prop, tier, seed, r1, w2)
        except BaseException:
            try:
                engine._send(w2, pickle.dumps(("error", (-1, traceback.format_exc()))))
            except OSError:
                pass
        finally:
            os._exit(0)
    os.close(r1), os.close(w2)
    return pid, w1, r2


def batch(prop, tier, seed, runs, workers, budget, on_run, stop_on_violation=True):
    """Execute runs 0..runs-1; calls on_run(i, results). Returns (done, complete)"""
    ws = {}
    fds = []
    for _ in range(workers):
        pid, w, r = start_worker(prop, tier, seed, fds)
        ws[r] = [pid, w, 0]
        fds += [w, r]
    nxt, done, stop = 0, 0, False
    t0 = time.monotonic()
    errors = []
    try:
        active = set(ws)
        while active:
            ready, _, _ = select.select(list(active), [], [], 900)
            if not ready:
                raise HarnessError("no worker answers")
            for r in ready:
                try:
                    kind, val = pickle.loads(engine._recv(r))
                except EOFError:
                    raise HarnessError("a worker died")
                if kind == "error":
                    raise HarnessError(f"run {val[0]}: {val[1]}")
                if kind == "run":
                    done += 1
                    if on_run(*val) and stop_on_violation:
                        stop = True
                if time.monotonic() - t0 > budget:
                    stop = True
                if nxt < runs and not stop:
                    os.write(ws[r][1], struct.pack("<I", nxt))
                    nxt += 1
                else:
                    active.discard(r)
    finally:
        for r, (pid, w, _) in ws.items():
            os.close(w)
            os.close(r)
        for pid, _, _ in ws.values():
            try:
                for _ in range(200):
                    if os.waitpid(pid, os.WNOHANG)[0]:
                        break
                    time.sleep(.02)
                else:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
            except ChildProcessError:
                pass
    return done


# -------------------------------------------------------------- minimisation
def signature(v):
    return v["cls"]


def minimise(z, plan, cls, budget=60.):
    """Greedy delta debugging over operations, threads, faults, switches while
    a violation of the same class remains"""
    t0 = time.monotonic()
    tests = 0

    def fails(p):
        nonlocal tests
        if time.monotonic() - t0 > budget or tests > 600:
            return False
        tests += 1
        try:
            out = z.fork(p)
        except HarnessError:
            return False
        return any(signature(v) == cls for v in out["viol"])

    def ddmin(items, rebuild):
        n = 2
        items = list(items)
        while items:
            size = max(1, len(items)//n)
            for a in range(0, len(items), size):
                cand = items[:a] + items[a + size:]
                if fails(rebuild(cand)):
                    items, n = cand, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), 2*n)
        return items

    plan = json.loads(json.dumps(plan))
    for _ in range(3):
        before = json.dumps(plan)
        # faults, switches
        for key in ("faults", "preempt", "nested"):
            if plan.get(key):
                plan[key] = ddmin(plan[key], lambda c: dict(plan, **{key: c}))
        if plan.get("fin"):
            p = dict(plan, fin=[])
            plan = p if fails(p) else plan
        # whole threads, then operations
        if plan.get("threads"):
            for t in reversed(range(len(plan["threads"]))):
                p = dict(plan, threads=[[] if k == t else o for k, o in enumerate(plan["threads"])])
                if plan["threads"][t] and fails(p):
                    plan = p
            for t in range(len(plan["threads"])):
                plan["threads"][t] = ddmin(plan["threads"][t], lambda c: dict(
                    plan, threads=[c if k == t else o for k, o in enumerate(plan["threads"])]))
        for key in ("final", "setup"):
            if plan.get(key):
                plan[key] = ddmin(plan[key], lambda c: dict(plan, **{key: c}))
        again = True
        while again:
            again = False
            for extra in z.prop.shrink(plan):
                if fails(extra):
                    plan, again = extra, True
                    break
        if json.dumps(plan) == before:
            break
    return plan, tests


# ------------------------------------------------------------------- checks
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "open" and d["property"] == pid:
                    out.append(d)
    return out


def matches(finding, v):
    m = finding["match"]
    if m.get("cls") not in (None, v["cls"]):
        return False
    blob = json.dumps(v, sort_keys=True, default=str)
    return all(s in blob for s in m.get("contains", []))


def check(prop, tier, seed, runs=None, workers=None, budget=None):
    t0 = time.time()
    runs = runs or prop.runs[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    budget = budget or BUDGET[tier]
    st = Stats(prop)
    known = known_findings(prop.id)
    found = {}
    hits = {}

    def on_run(i, results):
        bad = False
        for plan, out in results:
            st.add(i, plan, out)
            left = []
            for v in out["viol"]:
                k = next((f for f in known if matches(f, v)), None)
                if k is not None:
                    hits[k["id"]] = k
                else:
                    left.append(v)
            if left and i not in found:
                found[i] = (plan, left)
                bad = True
        return bad

    try:
        done = batch(prop, tier, seed, runs, workers, budget, on_run)
    except HarnessError as e:
        print(f"ERROR of the check {prop.id}: {e}", file=sys.stderr)
        return 2
    wall = time.time() - t0
    for k in hits.values():
        print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    code = 0
    nviol = 0
    if found:
        nviol = len(found)
        for i in sorted(found)[:6]:
            if report(prop, seed, i, *found[i]) is not None:
                break
        else:
            print(f"ERROR of the check {prop.id}: run {i} does not reproduce: {found[i][1][0]}", file=sys.stderr)
            return 2
        code = 1
    elif done < min(runs, max(10, runs//4)):
        print(f"ERROR of the check {prop.id}: only {done} of {runs} runs within the time budget", file=sys.stderr)
        code = 2
    st.write(tier, seed, runs, done, workers, time.time() - t0, wall, nviol)
    if code == 0:
        print(f"{prop.id}: no violation in {done} simulated runs ({st.evaluations} executions, "
              f"{st.calls} calls, {len(st.hashes)} distinct histories, {sum(st.fired.values())} faults), {wall:.1f} s")
    return code


def report(prop, seed, i, plan, viol):
    """Minimise, store and verify a violation in a process of its own"""
    def work():
        z = Zygote(prop)
        cls = signature(viol[0])
        if viol[0]["op"] == {"op": "process"}:      # each attempt to simplify it would hang as long
            return {"property": prop.id, "seed": seed, "run": i, "plan": plan, "violation": viol[0], "hash": 0, "fired": [],
                    "minimisation_tests": 0}
        for _ in range(4):      # (code may depend on addresses of objects)
            first = z.fork(plan)
            if first["viol"]:
                break
        if not any(signature(v) == cls for v in first["viol"]):
            if not first["viol"]:
                return None
            cls = signature(first["viol"][0])
        small, tests = minimise(z, plan, cls)
        out = z.fork(small)
        if not any(signature(v) == cls for v in out["viol"]):
            small, out = plan, first
        z.stop()
        v = next(v for v in out["viol"] if signature(v) == cls)
        return {"property": prop.id, "seed": seed, "run": i, "plan": small, "violation": v,
                "hash": out["hash"], "fired": out["fired"], "minimisation_tests": tests,
                "ops_before": sum(1 for _ in engine.all_ops(plan)), "ops": sum(1 for _ in engine.all_ops(small))}
    kind, rep = engine.in_fork(work, 500)
    if kind != "ok":
        rep = {"property": prop.id, "seed": seed, "run": i, "plan": plan, "violation": viol[0],
               "hash": None, "note": str(rep)[:2000]}
    if rep is None:
        return None
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    v = rep["violation"]
    print(f"run {i} of seed {seed}: {v['cls']}: {json.dumps(v['op'], default=str)[:300]}\n  {v['detail']}")
    for x in rep.get("fired") or ():
        print("  fault:", x)
    print(f"VIOLATION property={prop.id} replay={os.path.relpath(path, VERIF)}")
    sys.stdout.flush()
    return path


def replay(path, props):
    rep = json.load(open(path))
    prop = props[rep["property"]]()

    def work():
        z = Zygote(prop)
        out = z.fork(rep["plan"])
        z.stop()
        return out
    kind, out = engine.in_fork(work, 400)
    if kind != "ok":
        print("ERROR", out, file=sys.stderr)
        return 2
    same = out["hash"] == rep["hash"]
    print(json.dumps({"violations": out["viol"], "hash": out["hash"], "same_history": same}, indent=1, default=str))
    if any(v["cls"] == rep["violation"]["cls"] for v in out["viol"]):
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    return 0


# ----------------------------------------------------------------- evidence
class Stats:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = self.calls = self.checked = self.raised = self.events = self.switches = 0
        self.fired, self.probes, self.sites = {}, {}, set()
        self.hashes, self.nontrivial = set(), set()
        self.samples = {}
        self.ticks = 0.
        self.threads = {}

    def add(self, i, plan, out):
        self.evaluations += 1
        for k in ("calls", "checked", "raised", "events", "switches"):
            setattr(self, k, getattr(self, k) + out[k])
        for f in out["fired"]:
            self.fired[f[2]] = self.fired.get(f[2], 0) + 1
            self.sites.add((f[2], f[3]))
        for k, v in out["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.ticks += out.get("info", {}).get("simtime", 0)
        n = len([t for t in plan.get("threads", []) if t])
        self.threads[n] = self.threads.get(n, 0) + 1
        self.hashes.add(out["hash"])
        if self.prop.nontrivial(plan, out):
            self.nontrivial.add(out["hash"])
            if i < 40 and len(self.samples) < 3 and i not in self.samples:
                self.samples[i] = (plan, out)

    def write(self, tier, seed, runs, done, workers, wall, search, nviol):
        p = self.prop
        samples = []
        for i, (plan, out) in sorted(self.samples.items()):
            ops = list(engine.all_ops(plan))
            samples.append({"run": i, "specs": plan.get("specs", [])[:4],
                            "operations": [short(o) for o in ops[:14]], "operations_total": len(ops),
                            "threads": len(plan.get("threads", [])), "faults": plan.get("faults", [])[:6],
                            "preemptions": len(plan.get("preempt", [])), "fired": out["fired"][:6],
                            "events": out["events"], "history_hash": out["hash"],
                            **({"info": out["info"]} if out.get("info") else {})})
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": p.rule,
               "samples": samples, "simulated_runs": done, "runs_planned": runs,
               "seeds_per_hour": round(done/max(search, .01)*3600), "executions_per_hour": round(self.evaluations/max(search, .01)*3600),
               "simulated_time": {"yield_events": self.events, **({"simulated_seconds": self.ticks} if self.ticks else {})},
               "public_calls": self.calls, "results_checked": self.checked, "calls_that_raised": self.raised,
               "context_switches": self.switches, "faults_fired": dict(sorted(self.fired.items())),
               "fault_sites": len(self.sites), "distinct_histories": len(self.hashes),
               "distinct_histories_measure": "rolling hash over operations, their outcome, every traced line (bytecode) event, switch and fault",
               "executions_by_thread_count": {str(k): v for k, v in sorted(self.threads.items())},
               "probes": dict(sorted(self.probes.items())), "components": p.components, "workers": workers}
        ev = {"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": p.assumptions, "wall_s": round(wall, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{p.id}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def short(op):
    return {k: v for k, v in op.items() if v is not None and k != "no"}
