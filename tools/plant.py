#!/usr/bin/env python3
"""usage: plant.py DEFS.py [ids...]: builds and verifies planted bugs (DEFS.py defines B) into /verif/seeded.
Each is kept only if the patched copy builds, passes the stable tests, and its demo fails there and passes on /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def script(name, repo):
    s = open(f"/opt/vp/{name}").read().replace("/repo", repo)
    p = f"{os.path.dirname(repo)}/{name}"
    open(p, "w").write(s)
    return p


def main():
    for b in runpy.run_path(sys.argv[1])["B"]:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        repo = d + "/repo"
        run(["cp", "-a", "/repo", repo])
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) < 1:
                print(b["id"], "EDIT NOT FOUND", f, old[:80])
                ok = False
            open(f"{repo}/{f}", "w").write(s.replace(old, new, 1))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = run(["git", "-C", repo, "diff"]).stdout
        demo = d + "/demo"
        os.mkdir(demo)
        open(demo + "/demo.py", "w").write(b["demo"].lstrip())
        open(demo + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                                           'PY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\nexec timeout 250 $PY "$(dirname "$0")/demo.py"\n')
        os.chmod(demo + "/demo.sh", 0o755)
        r0 = run(["bash", demo + "/demo.sh"], cwd="/repo")
        r1 = run(["bash", demo + "/demo.sh"], cwd=repo)
        msgs = [f"demo {r0.returncode}/{r1.returncode}"]
        good = r0.returncode == 0 and r1.returncode not in (0, 124)
        if not good:
            msgs.append((r0.stderr + r1.stderr)[-300:])
        else:
            env = dict(os.environ, PYTHONPATH=repo)
            rb = run(["bash", script("build.sh", repo)], env=env)
            rt = run(["bash", script("test.sh", repo), d + "/out.json"], env=env)
            out = json.load(open(d + "/out.json")) if os.path.exists(d + "/out.json") else {}
            passed = set(out.get("passed", out if isinstance(out, list) else []))
            missing = sorted(BASE - passed)
            msgs.append(f"build {rb.returncode} tests lost {len(missing)} {missing[:2]}")
            good = rb.returncode == 0 and not missing
        if good:
            t = f"{SEED}/{b['id']}"
            os.makedirs(t, exist_ok=True)
            open(t + "/patch.diff", "w").write(diff)
            shutil.copy(demo + "/demo.py", t)
            shutil.copy(demo + "/demo.sh", t)
            json.dump({"property": b["p"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
            det = []
            for c in [b["p"]]:
                r = run([os.path.dirname(SEED) + "/check", c], env=dict(os.environ, DST_REPO=repo))
                det.append(f"{c} rc {r.returncode} {(r.stdout + r.stderr).strip()[:150]}")
            msgs.append(" ".join(det))
        print(b["id"], "KEPT" if good else "DROPPED", " | ".join(msgs), flush=True)
        shutil.rmtree(d)


main()
