"""python -m dst check Cxx | replay FILE | selftest"""
import argparse
import os
import sys


def all_props():
    from . import props
    out = {}
    mods = [props]
    for name in ("p_ambient", "p_clock", "p_import", "p_registry", "p_integrate", "p_sdc", "p_more", "p_memory"):
        try:
            mods.append(__import__("dst." + name, fromlist=["x"]))
        except ModuleNotFoundError as e:
            if "dst." + name not in str(e):
                raise
    for m in mods:
        for k, v in vars(m).items():
            if isinstance(v, type) and issubclass(v, props.Prop) and v.id:
                out[v.id] = v
    return out


def main():
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    c.add_argument("--budget", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    s = sub.add_parser("hashes")
    s.add_argument("property")
    s.add_argument("--seed", type=int, default=1)
    s.add_argument("--runs", type=int, default=50)
    s.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    from . import runner
    P = all_props()
    if a.cmd == "check":
        return runner.check(P[a.property](), a.tier, a.seed, a.runs, a.workers, a.budget)
    if a.cmd == "replay":
        return runner.replay(a.file, P)
    out = {}

    def on_run(i, results):
        out[i] = [(o["hash"], o["events"], o["calls"], o["checked"], len(o["viol"])) for _, o in results]
    runner.batch(P[a.property](), "quick", a.seed, a.runs, a.workers, 1e9, on_run, False)
    for i in sorted(out):
        print(i, out[i])
    return 0


sys.exit(main())
