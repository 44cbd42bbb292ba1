#!/usr/bin/env python3
"""Try a planted bug in a scratch copy: tools/trybug.py [--notest] [--all] ID...
demo on clean and patched copy, stable tests, its property's check (or --all checks)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
notest = "--notest" in sys.argv
allc = "--all" in sys.argv
nocheck = "--nocheck" in sys.argv

def run(cmd, cwd, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout

for i in args:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    cp = tempfile.mkdtemp(prefix="pl-%s-" % i, dir="/tmp")
    try:
        repo = os.path.join(cp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        demo = os.path.join(cp, "demo"); shutil.copytree(d, demo)
        os.remove(os.path.join(demo, "patch.diff")); os.remove(os.path.join(demo, "meta.json"))
        a, oa = run(["bash", os.path.join(demo, "demo.sh")], repo)
        r, o = run(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if r: print(i, "PATCH FAILS", o); continue
        b, ob = run(["bash", os.path.join(demo, "demo.sh")], repo)
        t = "-"
        if not notest:
            s = open("/opt/vp/test.sh").read().replace("/repo", repo)
            sh = os.path.join(cp, "test.sh"); open(sh, "w").write(s)
            out = os.path.join(cp, "out.json")
            run(["bash", sh, out], repo, {"PYTHONPATH": repo})
            res = json.load(open(out)); base = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(res.get("passed") or [k for k, v in res["tests"].items() if v == "pass"])
            st = base.get("stable") or base.get("passed")
            t = sorted(set(st) - passed)
        checks = []
        if not nocheck:
            ids = [meta["property"]]
            if allc: ids = ["C%02d" % k for k in list(range(1, 18)) + [23]]
            for c in ids:
                k, ok = run([sys.executable, "vsim.py", "check", c], V, {"VSIM_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                line = [l for l in ok.splitlines() if "VIOLATION" in l]
                checks.append("%s:%d%s" % (c, k, "" if k in (0, 1) else ok[-300:]))
                if k == 1 and c == meta["property"]:
                    checks.append(" | ".join(l[:200] for l in ok.splitlines()[-6:]))
        print("%s prop=%s demo clean=%d patched=%d tests_broken=%s check=%s" % (i, meta["property"], a, b, t, checks))
        if a: print(oa[-1500:])
        if not b: print("DEMO PASSES WITH PATCH", ob[-500:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(cp)
