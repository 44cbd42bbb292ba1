"""C06: the same configuration and data always give the same mesh."""
import json
import os
import random
import subprocess
import sys

from sim import core, disk, gen as G, nc, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 600, "budget": 150, "min_runs": 40}, "thorough": {"runs": 20000, "budget": 1800}}
LEVEL = "exploration"
RULE = "counts a run whose (loaders, files per source, entry point, environment changes between the builds) signature is new and in which the mesh was built in at least two environments"
STATE_MEASURE = "distinct (loaders, via, files, entry, listing orders, prior activity, variation) signatures"
REAL = ["MeshBuilder and every loader of DataLoaderFactory except modis, visual_iced, oras5_currents", "create_mesh_cli, rebuild_mesh_cli",
        "a second interpreter with another hash seed, time zone and locale (one run in twelve)"]
STUB = ["directory listing order, file times", "state of random and numpy.random"]
ASSUMPTIONS = ["random fields carry an explicit seed (without one a fresh field is asked for)", "netCDF reads single-threaded (dask synchronous)"]
LOADERS = nc.FILE_LOADERS + nc.MADE_LOADERS
PRIOR = ["consume", "reseed", "other_build", "same_build", "failed_build", "load_split", "merge", "seterr", "other_first"]
PROBES = ["prior:" + p for p in PRIOR] + ["rebuild", "replaced", "interpreter", "cwd", "same_object", "copied", "fault:listing_order"] + ["loader:" + x for x in LOADERS]


def gen_spec(rng, i, first=None):
    lds = [first or LOADERS[i % len(LOADERS)]] + [rng.choice(LOADERS) for _ in range(rng.choice([0, 1, 1, 2]))]
    plain = set(lds) - {"scalar_csv", "vector_csv", "density", "thickness"}
    r = G.region(rng, rng.choice(["plain", "rect"]) if plain else None, max_cells=4)
    a = rng.randint(4, 12)
    window = [f"2020-01-{a:02d}", f"2020-01-{rng.randint(a + 1, 20):02d}"]
    src = []
    for k, ld in enumerate(lds):
        s = nc.any_source(rng, ld, r, k, window)
        if not any(set(o["name"].split(",")) & set(s["name"].split(",")) for o in src):
            src.append(s)
    return {"region": r, "sources": src, "window": window, "depth": rng.choice([0, 1, 2]), "min_dp": rng.choice([1, 3])}


def gen(rng, tier, i):
    if i % 12 == 7:
        return {"mode": "interpreter", "specs": [gen_spec(rng, i * 5 + k) for k in range(5)], "hash": rng.choice([1, 7, 42, 1234, 99999]),
                "tz": rng.choice(["UTC", "America/New_York", "Asia/Tokyo", "Pacific/Auckland"]), "lang": rng.choice(["C", "C.UTF-8", "POSIX"]),
                "shrink_lists": ["specs"]}
    sp = gen_spec(rng, i)
    envs = []
    for _ in range(rng.choice([1, 1, 2])):
        envs.append({"list_seed": rng.randint(1, 10 ** 6), "np": rng.randint(0, 10 ** 6), "py": rng.randint(0, 10 ** 6),
                     "prior": [{"what": rng.choice(PRIOR), "n": rng.randint(1, 50)} for _ in range(rng.choice([0, 1, 1, 2]))],
                     "cwd": rng.choice(["", "", "elsewhere", "a/b/c"]), "copied": rng.random() < 0.3, "same_object": rng.random() < 0.25,
                     "bufsize": rng.choice([512, 8192, 65536])})
    other = gen_spec(rng, rng.randint(0, 99), first=rng.choice([s["loader"] if s["loader"] in LOADERS else "shape" for s in sp["sources"]]))
    # the other mesh uses its own files, but the same layer names
    for s in other["sources"]:
        for f in s["files"]:
            f["path"] = "other/" + f["path"]
    return {"mode": "env", "spec": sp, "other": other, "list_seed": rng.randint(0, 10 ** 6), "envs": envs, "entry": rng.choice(["api", "api", "cli"]),
            "rebuild": rng.random() < 0.5, "replaced": rng.random() < 0.3, "abs": any(e["cwd"] for e in envs) or rng.random() < 0.2, "shrink_lists": ["envs", "spec/sources", "other/sources"]}


def config(sp, base=""):
    cfg = G.config(sp)
    for s in cfg["data_sources"]:
        p = s["params"]
        for k in ("file", "folder"):
            if k in p and base:
                p[k] = os.path.join(base, p[k])
        if "files" in p and base:
            p["files"] = [os.path.join(base, x) for x in p["files"]]
    return cfg


def run(plan, ctx):
    if plan["mode"] == "interpreter":
        return run_interpreter(plan, ctx)
    sp = plan["spec"]
    top = os.getcwd()
    nc.write_all(sp)
    nc.write_all(plan["other"])
    if plan.get("replaced"):
        G.same_times([f["path"] for s in sp["sources"] for f in s["files"]])
    for s in sp["sources"]:
        ctx.count("loader:" + (s["loader"] if s["loader"] in LOADERS else "vector_shape" if s["loader"].startswith("vector_") else "shape"))
    base = top if plan["abs"] else ""
    cfg = config(sp, base)
    world.dump("config.json", cfg)
    what = f"a mesh of {[(s['loader'], len(s['files']), s['via']) for s in sp['sources']]}"
    obj = G.clone(cfg)
    want = build(plan, ctx, {"list_seed": plan["list_seed"], "bufsize": 8192}, cfg, top, "ref.json", what)
    if want is None:
        for e in plan["envs"]:
            with disk.SimDisk(top, ctx, list_seed=e["list_seed"]):
                o = world.attempt(world.build, cfg)
            if o.ok:
                raise Violation("not-reproducible", f"building {what} failed at first and succeeded later without any change")
        return
    for n, e in enumerate(plan["envs"]):
        for p in e["prior"]:
            prior(plan, p, ctx)
            ctx.count("prior:" + p["what"])
        if e["copied"]:
            recreate(sp, e["list_seed"])
            ctx.count("copied")
        random.seed(e["py"])
        import numpy as np
        np.random.seed(e["np"])
        wd = os.path.join(top, e["cwd"]) if base and e["cwd"] else top
        os.makedirs(wd, exist_ok=True)
        if wd != top:
            ctx.count("cwd")
        c = cfg
        if e["same_object"] and plan["entry"] == "api":
            c = obj
            ctx.count("same_object")
        os.chdir(wd)
        try:
            got = build(plan, ctx, e, c, top, f"out{n}.json", what)
        finally:
            os.chdir(top)
        diff = differs(got, want)
        if diff:
            raise Violation("not-reproducible", f"{what} built again with {describe(e)} differs: {diff}")
    if plan["rebuild"]:
        ctx.count("rebuild")
        world.dump("m.json", want)
        random.seed(5)
        with disk.SimDisk(top, ctx, list_seed=plan["list_seed"] + 1):
            o = world.cli("rebuild_mesh_cli", "m.json", "-o", "re.json")
        if not o.ok:
            raise Violation("unexpected-error", f"rebuilding {what} from its own record failed: {o!r}")
        got, why = world.read_json("re.json")
        diff = oracle.same_mesh(got, want) if got is not None else why
        if diff:
            raise Violation("rebuild-differs", f"{what} rebuilt from its recorded configuration differs: {diff}")
    if plan.get("replaced") and any(s["files"] for s in sp["sources"]):
        replaced(plan, ctx, cfg, top, what)
    ctx.count("fault:listing_order", 1 + len(plan["envs"]))
    ctx.state(sorted((s["loader"], s["via"], len(s["files"])) for s in sp["sources"]), plan["entry"], plan["rebuild"],
              [(sorted(p["what"] for p in e["prior"]), e["cwd"], e["copied"], e["same_object"]) for e in plan["envs"]])
    ctx.count("nontrivial")


def replaced(plan, ctx, cfg, top, what):
    """Other contents at the same paths (same size and times where possible): the mesh is that of the new contents."""
    v = G.vary(plan["spec"])
    paths = [f["path"] for s in v["sources"] for f in s["files"]]
    nc.write_all(v)
    G.same_times(paths)
    nc.write_all(v, "alt")
    with disk.SimDisk(top, ctx, list_seed=plan["list_seed"] + 2):
        a = world.attempt(lambda: G.clone(world.build(cfg).to_json()))
        b = world.attempt(lambda: G.clone(world.build(config(v, os.path.join(top, "alt"))).to_json()))
    if a.ok != b.ok:
        raise Violation("not-reproducible", f"{what}, with new contents in its files: {a!r}; the same contents elsewhere: {b!r}")
    if a.ok:
        ctx.count("replaced")
        diff = oracle.same_mesh(a.value, b.value, config=False)
        if diff:
            raise Violation("not-reproducible", f"{what}: after its files got new contents, the mesh is not that of the same contents elsewhere: {diff}")


def differs(got, want):
    d = oracle.same_mesh(got, want)
    if d:
        return d
    a, b = json.dumps(got), json.dumps(want)
    if a != b:
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"the documents differ from character {k}: ...{a[max(0, k - 60):k + 60]}... vs ...{b[max(0, k - 60):k + 60]}..."


def describe(e):
    return {k: e[k] for k in ("list_seed", "prior", "cwd", "copied", "same_object") if e.get(k)}


def rng_states():
    import numpy as np
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tolist(), *s[2:])


def build(plan, ctx, e, cfg, top, out, what):
    before = rng_states()
    d = disk.SimDisk(top, ctx, list_seed=e["list_seed"], bufsize=e["bufsize"])
    with d:
        if plan["entry"] == "api":
            from meshiphi.mesh_generation.mesh_builder import MeshBuilder
            use = cfg if e.get("same_object") else G.clone(cfg)
            o = world.attempt(lambda: G.clone(MeshBuilder(use).build_environmental_mesh().to_json()))
        else:
            o = world.cli("create_mesh_cli", os.path.join(top, "config.json"), "-o", os.path.join(top, out))
    if not o.ok:
        if out == "ref.json":
            ctx.count("refused")
            return None                    # then it has to be refused every time
        raise Violation("not-reproducible", f"building {what} failed where it succeeded before: {o!r} ({describe(e)})")
    if rng_states() != before:
        raise Violation("global-random-state", f"building {what} changed the process's global random-generator state")
    if plan["entry"] == "api":
        return o.value
    js, why = world.read_json(os.path.join(top, out))
    if js is None:
        raise Violation("incomplete-output", why)
    return js


def recreate(sp, seed):
    """The same files and bytes, created anew in another order and with other times."""
    files = [f["path"] for s in sp["sources"] for f in s["files"]]
    more = []
    for d in sorted({os.path.dirname(f) for f in files}):
        more += [os.path.join(d, x) for x in sorted(os.listdir(d))]
    files = sorted(set(more))
    random.Random(seed).shuffle(files)
    for k, f in enumerate(files):
        with disk.real_open(f, "rb") as h:
            b = h.read()
        os.remove(f)
        with disk.real_open(f, "wb") as h:
            h.write(b)
        os.utime(f, (10 ** 9 - k * 1000, 10 ** 9 - k * 1000))


def prior(plan, p, ctx):
    """Activity in the process before the build.  Whatever it is, it must not matter."""
    import numpy as np
    w = p["what"]
    if w == "consume":
        for _ in range(p["n"]):
            random.random()
        np.random.rand(p["n"])
    elif w == "reseed":
        random.seed(p["n"])
        np.random.seed(p["n"])
    elif w in ("other_build", "same_build", "other_first"):
        sp = plan["spec"] if w == "same_build" else plan["other"]
        o = world.attempt(world.build, config(sp, os.getcwd() if plan["abs"] else ""))
        if w == "other_first" and o.ok:
            o.value.to_json()
    elif w == "failed_build":
        cfg = config(plan["spec"])
        cfg["data_sources"].append({"loader": "scalar_csv", "params": {"data_name": "nope", "files": ["does/not/exist.csv"]}})
        o = world.attempt(world.build, cfg)
        if o.ok:
            raise Violation("silently-left-out", "a build with a missing file succeeded")
        cfg = config(plan["spec"])
        cfg["splitting"] = {}
        world.attempt(world.build, cfg)
    elif w in ("load_split", "merge"):
        o = world.attempt(world.build, config(plan["other"]))
        if not o.ok:
            return
        js = G.clone(o.value.to_json())
        m = world.load(js)
        if w == "load_split":
            world.attempt(m.split_and_replace, m.agg_cellboxes[p["n"] % len(m.agg_cellboxes)])
            world.attempt(lambda: G.clone(m.to_geojson()))
        else:
            world.attempt(m.merge_mesh, world.load(js))
    elif w == "seterr":
        np.seterr(all=["ignore", "warn"][p["n"] % 2])


def run_interpreter(plan, ctx):
    """The same builds by create_mesh in another interpreter: other hash seed, time zone and locale."""
    wants = []
    for k, sp in enumerate(plan["specs"]):
        nc.write_all(sp, str(k))
        cfg = config(sp, str(k))
        world.dump(f"c{k}.json", cfg)
        o = world.attempt(world.build, cfg)
        wants.append(G.clone(o.value.to_json()) if o.ok else None)
    env = dict(os.environ, PYTHONHASHSEED=str(plan["hash"]), TZ=plan["tz"], LANG=plan["lang"], LC_ALL=plan["lang"])
    prog = ("import sys,warnings;warnings.simplefilter('ignore');sys.path.insert(0,%r)\n"
            "import dask.config;dask.config.set(scheduler='synchronous')\n"
            "import meshiphi.cli as m\n"
            "for k in range(%d):\n"
            " sys.argv=['create_mesh','c%%d.json'%%k,'-o','o%%d.json'%%k]\n"
            " try:\n"
            "  m.create_mesh_cli()\n"
            " except Exception as e:\n"
            "  print(k, type(e).__name__, e, file=sys.stderr)\n") % (core.REPO, len(plan["specs"]))
    r = subprocess.run([sys.executable, "-c", prog], env=env, capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Violation("unexpected-error", f"building in another interpreter (hash seed {plan['hash']}, {plan['tz']}, {plan['lang']}) failed: {r.stderr[-600:]}")
    for k, want in enumerate(wants):
        got, why = world.read_json(f"o{k}.json")
        if want is None and got is None:
            continue
        diff = differs(got, want) if got is not None and want is not None else f"built here: {want is not None}, built there: {got is not None} {r.stderr[-300:]}"
        if diff:
            raise Violation("not-reproducible", f"a mesh of {[s['loader'] for s in plan['specs'][k]['sources']]} built by another interpreter "
                                                f"(hash seed {plan['hash']}, {plan['tz']}, {plan['lang']}) differs: {diff}")
    ctx.count("fault:other_interpreter")
    ctx.count("interpreter")
    ctx.state("interpreter", plan["hash"], plan["tz"], [sorted(s["loader"] for s in sp["sources"]) for sp in plan["specs"]])
    ctx.count("nontrivial")


def shrink(plan):
    if plan["mode"] != "env":
        return
    for i, e in enumerate(plan["envs"]):
        for k, v in (("prior", []), ("cwd", ""), ("copied", False), ("same_object", False)):
            if e[k] != v:
                n = json.loads(json.dumps(plan))
                n["envs"][i][k] = v
                yield n
    if plan.get("replaced"):
        n = json.loads(json.dumps(plan))
        n["replaced"] = False
        yield n
    if plan["spec"]["depth"]:
        n = json.loads(json.dumps(plan))
        n["spec"]["depth"] = 0
        yield n
