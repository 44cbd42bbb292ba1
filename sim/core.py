"""
Runner: seeds -> plans -> forked, isolated, exactly repeatable runs.

One run is a pure function of (plan, code).  A plan is a JSON document that
spells out everything the simulator decides: the workload, the generated data,
every fault and its position, every clock reading, every thread switch.  Plans
are generated from one integer (VERIF_SEED, property id, run index); the replay
file is the (minimised) plan itself.  Each run executes in a child forked from
one warmed-up parent, so no run can see what an earlier run left in memory.
"""
import collections
import errno
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import cov

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
SCRATCH = None            # per-process-tree scratch directory


class HarnessError(Exception):
    """The harness, not the code under test, went wrong."""


class SimCrash(BaseException):
    """The simulated process/machine stops here."""


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


# ---------------------------------------------------------------------------
# environment
# ---------------------------------------------------------------------------
def setup_env(hashseed="0"):
    """Re-exec once with a pinned interpreter environment."""
    want = {
        "PYTHONHASHSEED": hashseed,
        "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "GDAL_NUM_THREADS": "1",
        "MPLBACKEND": "Agg",
        "TQDM_DISABLE": "1",
        "TZ": "UTC",
        "PROJ_NETWORK": "OFF",
        "GDAL_PAM_ENABLED": "NO",
        "HDF5_USE_FILE_LOCKING": "FALSE",
    }
    if os.environ.get("VSIM_ENV") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["VSIM_ENV"] = "1"
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py] + sys.argv, env)


def make_scratch():
    global SCRATCH
    base = os.environ.get("VSIM_TMP") or tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix="vsim-", dir=base)
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    os.environ["TMPDIR"] = os.path.join(SCRATCH, "tmp")
    os.makedirs(os.environ["TMPDIR"], exist_ok=True)
    tempfile.tempdir = os.environ["TMPDIR"]
    return SCRATCH


def drop_scratch():
    global SCRATCH
    if SCRATCH and os.path.isdir(SCRATCH) and os.path.basename(SCRATCH).startswith("vsim-"):
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


_warm = False


def warm():
    """Import the code under test (from /repo's working tree) once."""
    global _warm
    if _warm:
        return
    import warnings
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    from . import locks
    locks.install(os.path.join(REPO, "meshiphi"))
    import meshiphi
    if not os.path.realpath(meshiphi.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError(f"meshiphi imported from {meshiphi.__file__}")
    import meshiphi.cli                                    # noqa: F401
    import meshiphi.mesh_generation.mesh_builder           # noqa: F401
    import meshiphi.mesh_generation.environment_mesh       # noqa: F401
    import meshiphi.dataloaders.factory                    # noqa: F401
    import xarray, netCDF4, pandas, geopandas, dask        # noqa: F401,E401
    import dask.config
    dask.config.set(scheduler="synchronous")               # no thread pool we do not own
    logging.disable(logging.CRITICAL)
    _warm = True


# ---------------------------------------------------------------------------
# runs
# ---------------------------------------------------------------------------
def run_seed(base, prop, i):
    h = hashlib.sha256(f"{base}/{prop}/{i}".encode()).digest()
    return int.from_bytes(h[:8], "big")


class Ctx:
    """Per-run context handed to a check's run()."""

    def __init__(self, plan, workdir):
        self.plan = plan
        self.dir = workdir
        self.stats = collections.Counter()
        self.log = []
        self.sim_seconds = 0.0

    def ev(self, *a):
        self.log.append(a)

    def count(self, k, n=1):
        self.stats[k] += n

    def state(self, *a):
        """Record a distinct-state signature component."""
        self.log.append(("state",) + a)


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def execute(check, plan, workdir):
    """Run one plan in this process.  -> result dict (JSON-able)."""
    ctx = Ctx(plan, workdir)
    res = {"violation": None, "error": None}
    try:
        check.run(plan, ctx)
    except Violation as v:
        res["violation"] = {"kind": v.kind, "detail": str(v.detail)[:4000]}
    except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, ZeroDivisionError, RecursionError) as e:
        # no run does this on a tree where the property holds: the system answered with something
        # the oracle cannot even read, or raised where nothing can go wrong
        res["violation"] = {"kind": "unexpected-exception",
                            "detail": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]}
    except BaseException as e:               # noqa: BLE001
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    res["stats"] = dict(ctx.stats)
    res["sim_seconds"] = ctx.sim_seconds
    res["digest"] = digest([ctx.log, res["violation"]])
    res["sig"] = digest([x for x in ctx.log if x and x[0] == "state"])
    return res


_HANG = 150.0


class Pool:
    """Forks one child per run; returns results in submission order-independent fashion."""

    def __init__(self, check, jobs=None):
        self.check = check
        self.jobs = jobs or int(os.environ.get("VSIM_JOBS", "0")) or min(8, os.cpu_count() or 2)
        self.kids = {}          # fd -> [pid, key, chunks, start, workdir]

    def _spawn(self, key, plan_fn):
        r, w = os.pipe()
        wd = os.path.join(SCRATCH, f"r{key}")
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                # stdout/stderr of the code under test are noise
                dn = os.open(os.devnull, os.O_WRONLY)
                keep = os.dup(2)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                plan = plan_fn()
                os.makedirs(wd, exist_ok=True)
                os.chdir(wd)
                seen = cov.start(REPO) if os.environ.get("VSIM_COV") else None
                out = execute(self.check, plan, wd)
                if seen is not None:
                    cov.stop(seen, os.environ["VSIM_COV"], f"{getattr(self.check, '__name__', 'x')}-{key}")
                out["plan"] = plan if (out["violation"] or out["error"] or os.environ.get("VSIM_KEEP")) else None
                out["size"] = len(json.dumps(plan))
                out["sample"] = plan if key in (0, 1) else None
                data = json.dumps(out, default=repr).encode()
                off = 0
                while off < len(data):
                    off += os.write(w, data[off:off + 65536])
                os.close(w)
                os.close(keep)
                code = 0
            except BaseException:            # noqa: BLE001
                try:
                    os.write(w, json.dumps({"violation": None, "error": traceback.format_exc()[-3000:], "stats": {},
                                            "sim_seconds": 0, "digest": "", "sig": "", "size": 0, "plan": None}).encode())
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.kids[r] = [pid, key, [], time.monotonic(), wd, plan_fn]

    def _reap(self, fd):
        pid, key, chunks, t0, wd, plan_fn = self.kids.pop(fd)
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(wd, ignore_errors=True)
        raw = b"".join(chunks)
        try:
            res = json.loads(raw)
        except Exception:
            res = {"violation": None, "error": f"child ended with status {st} and no result", "stats": {},
                   "sim_seconds": 0, "digest": "", "sig": "", "size": 0, "plan": None, "died": st}
        res["key"] = key
        res["wall"] = time.monotonic() - t0
        return res

    def map(self, items, deadline=None, stop=None):
        """items: iterable of (key, plan_fn).  Yields result dicts."""
        it = iter(items)
        more = True
        while more or self.kids:
            while more and len(self.kids) < self.jobs:
                if (deadline and time.monotonic() > deadline) or (stop and stop()):
                    more = False
                    break
                try:
                    key, fn = next(it)
                except StopIteration:
                    more = False
                    break
                self._spawn(key, fn)
            if not self.kids:
                continue
            rd, _, _ = select.select(list(self.kids), [], [], 1.0)
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if b:
                    self.kids[fd][2].append(b)
                else:
                    yield self._reap(fd)
            now = time.monotonic()
            for fd in list(self.kids):
                if now - self.kids[fd][3] > _HANG:
                    pid, key, _, t0, wd, plan_fn = self.kids[fd]
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    res = self._reap(fd)
                    res["error"] = None
                    res["hang"] = True
                    res["plan"] = plan_fn()
                    res["violation"] = {"kind": "no-progress",
                                        "detail": f"the run made no progress for {_HANG:.0f} s (normal: < 5 s)"}
                    yield res

    def close(self):
        for fd in list(self.kids):
            pid = self.kids[fd][0]
            for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                try:
                    k()
                except OSError:
                    pass
            try:
                self._reap(fd)
            except Exception:
                pass


def run_one(check, plan, key="x"):
    p = Pool(check, jobs=1)
    for r in p.map([(key, lambda: plan)]):
        return r


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------
def generic_shrinks(plan, keep=()):
    """Candidate plans: delete chunks of every list found under plan['shrink_lists']."""
    for path in plan.get("shrink_lists", []):
        node = plan
        parts = path.split("/")
        try:
            for p in parts[:-1]:
                node = node[int(p)] if isinstance(node, list) else node[p]
            lst = node[int(parts[-1])] if isinstance(node, list) else node[parts[-1]]
        except (KeyError, IndexError):
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                new = json.loads(json.dumps(plan))
                node = new
                for p in parts[:-1]:
                    node = node[int(p)] if isinstance(node, list) else node[p]
                tgt = node[int(parts[-1])] if isinstance(node, list) else node[parts[-1]]
                del tgt[i:i + size]
                yield new
            size //= 2


def minimise(check, plan, violation, budget_s=60, jobs=None):
    """Greedy parallel shrink keeping the violation class."""
    t_end = time.monotonic() + budget_s
    cur = plan
    tried = 0
    if violation["kind"] == "no-progress":
        return cur, 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        cands = list(generic_shrinks(cur))
        if hasattr(check, "shrink"):
            cands += list(check.shrink(cur))
        cands = [c for c in cands if c != cur]
        cands.sort(key=lambda c: len(json.dumps(c)))
        pool = Pool(check, jobs)
        best = None
        try:
            def gen():
                for i, c in enumerate(cands):
                    yield i, (lambda c=c: c)
            found = []
            for r in pool.map(gen(), deadline=t_end, stop=lambda: bool(found)):
                tried += 1
                v = r["violation"]
                if v and v["kind"] == violation["kind"]:
                    found.append(r["key"])
            if found:
                best = cands[min(found)]
        finally:
            pool.close()
        if best is not None:
            cur = best
            progress = True
    return cur, tried


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


def match_known(prop, violation):
    for k in known_findings(prop):
        if k["kind"] == violation["kind"] and all(s in violation["detail"] for s in k.get("detail_contains", [])):
            return k
    return None


# ---------------------------------------------------------------------------
# a whole check
# ---------------------------------------------------------------------------
def load_check(prop):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module(f"checks.{prop.lower()}")


def evidence_dir():
    return os.environ.get("VSIM_EVIDENCE") or os.path.join(VERIF, "evidence")


def out_dir(prop):
    d = os.path.join(evidence_dir(), "replays")
    os.makedirs(d, exist_ok=True)
    return d


def run_check(prop, tier, seed, runs=None, budget=None, jobs=None):
    check = load_check(prop)
    t0 = time.monotonic()
    cfg = check.TIERS[tier]
    runs = runs or cfg["runs"]
    budget = budget or cfg["budget"]
    min_runs = cfg.get("min_runs", max(20, runs // 20))
    print(f"{prop} tier={tier} VERIF_SEED={seed} runs={runs} wall-cap={budget}s", flush=True)
    make_scratch()
    try:
        return _run_check(check, prop, tier, seed, runs, budget, min_runs, jobs, t0)
    finally:
        drop_scratch()


def _run_check(check, prop, tier, seed, runs, budget, min_runs, jobs, t0):
    warm()
    if hasattr(check, "prepare"):
        check.prepare(tier)
    pool = Pool(check, jobs)
    stats = collections.Counter()
    sigs = set()
    samples = []
    errors = []
    viols = []
    known = {}
    done = 0
    nontrivial = 0
    sim_s = 0.0
    deadline = t0 + budget
    hard = t0 + budget * 2.5

    def plan_for(i):
        return check.gen(random.Random(run_seed(seed, prop, i)), tier, i)

    def items():
        for i in range(runs):
            if time.monotonic() > deadline and done >= min_runs:
                return
            if time.monotonic() > hard:
                return
            yield i, (lambda i=i: plan_for(i))

    try:
        for r in pool.map(items(), stop=lambda: len(viols) >= 1 or len(errors) >= 3):
            done += 1
            for k, v in r["stats"].items():
                stats[k] += v
            sim_s += r.get("sim_seconds") or 0
            if r["sig"]:
                if r["sig"] not in sigs and r["stats"].get("nontrivial"):
                    nontrivial += 1
                sigs.add(r["sig"])
            if r.get("sample") is not None and len(samples) < 2:
                samples.append({"run": r["key"], "plan": trim(r["sample"])})
            if r["violation"]:
                k = match_known(prop, r["violation"])
                if k:
                    known.setdefault(k["id"], (k, r))
                else:
                    viols.append(r)
            elif r["error"]:
                errors.append(r)
    finally:
        pool.close()

    wall = time.monotonic() - t0
    rc = 0
    lines = []
    # a listed finding is announced on every run on which it is present
    for k in known_findings(prop):
        if k["id"] not in known and k.get("replay"):
            p = os.path.join(VERIF, k["replay"])
            if os.path.exists(p):
                with open(p) as f:
                    rep = json.load(f)
                r = run_one(check, rep["plan"], key="kf")
                if r and r["violation"] and match_known(prop, r["violation"]):
                    known[k["id"]] = (k, r)
    for k, r in known.values():
        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")

    if viols:
        rc = 1
        v = min(viols, key=lambda r: r["size"] or 1 << 30)
        print(f"violation in run {v['key']}: {v['violation']['kind']}: {v['violation']['detail'][:600]}", flush=True)
        small, tried = v["plan"], 0
        if not os.environ.get("VSIM_NOSHRINK"):
            small, tried = minimise(check, v["plan"], v["violation"], budget_s=min(60, budget))
        fin = run_one(check, small, key="fin")
        if not (fin and fin["violation"] and fin["violation"]["kind"] == v["violation"]["kind"]):
            small, fin = v["plan"], v
        path = os.path.join(out_dir(prop), f"{prop}-{seed}-{v['key']}.json")
        rep = {"property": prop, "seed": seed, "run": v["key"], "violation": fin["violation"],
               "digest": fin["digest"], "plan": small, "original_plan_bytes": len(json.dumps(v["plan"])),
               "minimised_plan_bytes": len(json.dumps(small)), "shrink_runs": tried,
               "replay_cmd": f"python3 vsim.py replay {path}"}
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print(f"minimised: {rep['original_plan_bytes']} -> {rep['minimised_plan_bytes']} bytes of plan, "
              f"{fin['violation']['kind']}: {fin['violation']['detail'][:1500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    elif errors:
        rc = 2
        for e in errors[:3]:
            print(f"HARNESS ERROR in run {e['key']}:\n{e['error']}", flush=True)
    elif done < min(min_runs, runs):
        rc = 2
        print(f"HARNESS ERROR: only {done} of at least {min_runs} runs finished in time")

    # probes: rare conditions that must have been reached
    missing = [p for p in getattr(check, "PROBES", []) if not stats.get(p)]
    if rc == 0 and missing and done >= runs:
        print("note: probes never reached in this run:", ", ".join(missing))

    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontrivial,
            "rule": check.RULE,
            "samples": samples or [{"note": "no sample kept"}],
            "runs_per_hour": round(done / wall * 3600) if wall else 0,
            "seeds": {"base": seed, "derived": done, "derivation": "sha256(VERIF_SEED/property/run)"},
            "simulated_seconds": round(sim_s, 3),
            "faults_injected": faults,
            "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
            "distinct_states": len(sigs),
            "distinct_states_measure": check.STATE_MEASURE,
            "components_real": check.REAL,
            "components_stubbed": check.STUB,
            "probes_unreached": missing,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(evidence_dir(), exist_ok=True)
    with open(os.path.join(evidence_dir(), f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {done} runs, {nontrivial} distinct non-trivial, {len(sigs)} states, "
          f"{sum(faults.values())} faults fired, {wall:.1f}s")
    for ln in lines:
        print(ln, flush=True)
    return rc


def trim(o, depth=0):
    """Shorten a plan for the evidence file."""
    if isinstance(o, dict):
        return {k: trim(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) > 8:
            return [trim(x, depth + 1) for x in o[:6]] + [f"... {len(o) - 6} more"]
        return [trim(x, depth + 1) for x in o]
    if isinstance(o, str) and len(o) > 200:
        return o[:160] + f"... {len(o) - 160} more characters"
    return o


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    check = load_check(rep["property"])
    make_scratch()
    try:
        warm()
        if hasattr(check, "prepare"):
            check.prepare("quick")
        r = run_one(check, rep["plan"], key="replay")
    finally:
        drop_scratch()
    print("replayed:", json.dumps(r["violation"] or r["error"], indent=1))
    same = r["violation"] == rep["violation"] and r["digest"] == rep["digest"]
    print("identical to the recorded failure:", same)
    if r["violation"]:
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    return 2 if r["error"] else 0


def selftest(props, n, seed):
    """Determinism: every plan twice, at two worker counts; prints digests for cross-process diffing."""
    make_scratch()
    bad = 0
    try:
        warm()
        for prop in props:
            check = load_check(prop)
            if hasattr(check, "prepare"):
                check.prepare("quick")
            out = []
            for jobs in (8, 3):
                d = {}
                pool = Pool(check, jobs)
                items = ((i, (lambda i=i: check.gen(random.Random(run_seed(seed, prop, i)), "quick", i)))
                         for i in range(n))
                for r in pool.map(items):
                    d[r["key"]] = (r["digest"], (r["violation"] or {}).get("kind"), bool(r["error"]))
                out.append(d)
            diff = [k for k in out[0] if out[0][k] != out[1][k]]
            bad += len(diff)
            print(prop, "runs", n, "divergent", diff[:10],
                  "all", digest(sorted(out[0].items())), flush=True)
    finally:
        drop_scratch()
    return 1 if bad else 0
