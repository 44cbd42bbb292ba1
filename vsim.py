#!/usr/bin/env python3
"""vsim.py check ID [--runs N] [--budget S] | replay FILE | selftest [IDs..] | one ID RUN"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core                                   # noqa: E402

core.setup_env(os.environ.get("VSIM_HASHSEED", "0"))


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--runs", type=int)
    c.add_argument("--budget", type=float)
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--jobs", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    s = sub.add_parser("selftest")
    s.add_argument("props", nargs="*")
    s.add_argument("-n", type=int, default=40)
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("run", type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.cmd == "check" else "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.cmd == "check":
        return core.run_check(a.prop, tier, seed, a.runs, a.budget, a.jobs)
    if a.cmd == "replay":
        return core.replay(a.file)
    if a.cmd == "selftest":
        props = a.props or sorted(f[:-3].upper() for f in os.listdir(os.path.join(core.VERIF, "checks"))
                                  if f.startswith("c") and f[1:-3].isdigit())
        return core.selftest(props, a.n, seed)
    if a.cmd == "one":
        import json
        import random
        check = core.load_check(a.prop)
        core.make_scratch()
        try:
            core.warm()
            if hasattr(check, "prepare"):
                check.prepare("quick")
            plan = check.gen(random.Random(core.run_seed(seed, a.prop, a.run)), "quick", a.run)
            wd = os.path.join(core.SCRATCH, "one")
            os.makedirs(wd)
            os.chdir(wd)
            res = core.execute(check, plan, wd)
            print(json.dumps(core.trim(plan), indent=1)[:6000])
            print(json.dumps(res, indent=1))
        finally:
            core.drop_scratch()
        return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        core.drop_scratch()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
