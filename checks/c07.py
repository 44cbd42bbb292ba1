"""C07: concurrent mesh work in one process does not interfere."""
import json
import os

from sim import gen as G, nc, oracle, sched, world
from sim.core import Violation

TIERS = {"quick": {"runs": 700, "budget": 150, "min_runs": 40}, "thorough": {"runs": 20000, "budget": 1800}}
LEVEL = "exploration"
RULE = "counts a run whose (jobs, schedule of pre-empted lines) signature is new and in which at least one thread was pre-empted inside the code under test"
STATE_MEASURE = "distinct sequences of (thread pre-empted, thread resumed, source line), together with the jobs"
REAL = ["MeshBuilder, EnvironmentMesh, all loaders used, run by real Python threads of which exactly one runs at a time"]
STUB = ["thread scheduler: a seeded plan pre-empts at chosen lines (or bytecodes) of the code under test", "dask scheduler synchronous"]
ASSUMPTIONS = ["pre-emption inside numpy/pandas/xarray/shapely calls is not simulated: only lines and bytecodes of meshiphi are switch points"]
JOBS = ["build", "build", "build", "build_again", "load", "split", "points", "merge", "save", "geojson", "update", "fail"]
READS = ["layer", "to_json", "to_geojson", "save", "save_geo", "query", "inside", "cells", "graph", "get"]
PROBES = ["job:" + j for j in set(JOBS)] + ["read:" + r for r in READS] + ["fault:preemption", "solo_after", "mode:own", "mode:shared", "grain:opcode", "three", "twins"]
LOADERS = nc.MADE_LOADERS * 2 + nc.FILE_LOADERS


def gen_spec(rng, k, lds=None):
    lds = lds or [rng.choice(LOADERS) for _ in range(rng.choice([1, 1, 2]))]
    plain = set(lds) - {"scalar_csv", "vector_csv", "density"}
    r = G.region(rng, rng.choice(["plain", "rect"]) if plain else None, max_cells=4)
    a = rng.randint(4, 12)
    window = [f"2020-01-{a:02d}", f"2020-01-{rng.randint(a + 1, 20):02d}"]
    src = []
    for n, ld in enumerate(lds):
        s = nc.any_source(rng, ld, r, n, window)
        if not any(set(o["name"].split(",")) & set(s["name"].split(",")) for o in src):
            src.append(s)
    for s in src:
        for f in s["files"]:
            f["path"] = f"t{k}/" + f["path"]
    return {"region": r, "sources": src, "window": window, "depth": rng.choice([0, 1, 2]), "min_dp": rng.choice([1, 3])}


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3])
    p = {"n": n, "grain": "opcode" if rng.random() < 0.15 else "line", "solo": rng.choice(["before", "after"]), "threads": []}
    if i % 5 == 4:
        p["mode"] = "shared"
        p["spec"] = gen_spec(rng, 0, ["scalar_csv", "vector_csv", "density"][:rng.randint(1, 3)])
        p["fresh"] = rng.random() < 0.5
        twin = rng.choice(READS) if rng.random() < 0.4 else None
        for k in range(n):
            p["threads"].append([{"read": twin if twin and rng.random() < 0.7 else rng.choice(READS), "pick": rng.random(),
                                  "pts": [list(G.point_in(rng, p["spec"]["region"])) if rng.random() < 0.7 else
                                          [round(rng.uniform(-89, 89), 4), round(rng.uniform(-179, 179), 4)] for _ in range(3)]}
                                 for _ in range(rng.randint(1, 4))])
    else:
        p["mode"] = "own"
        same = [rng.choice(LOADERS) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.6 else None
        twin = rng.choice(["save", "geojson", "merge", "split", "points", "update", "build_again"]) if rng.random() < 0.35 else None
        for k in range(n):
            job = twin or ("build" if same and rng.random() < 0.5 else rng.choice(JOBS))
            sp = gen_spec(rng, k, same)
            if k and rng.random() < 0.2:
                sp = G.clone(p["threads"][0]["spec"])          # the very same configuration and files
            p["threads"].append({"job": job, "spec": sp, "pick": rng.random(), "pts": [list(G.point_in(rng, sp["region"])) for _ in range(2)]})
    p["switches"] = schedule(rng, 12 if p["grain"] == "opcode" else 1)
    p["shrink_lists"] = ["switches", "threads"]
    return p


def schedule(rng, big):
    kind = rng.choice(["few", "many", "lockstep", "lockstep", "mixed", "mixed"])
    if kind == "lockstep":                               # change threads at (nearly) every line not seen before
        k = rng.choice([1, 1, 2, 3])
        return [[k, rng.randint(0, 5), "n"] for _ in range(rng.choice([200, 600]))]
    if kind == "few":
        return [[max(1, int(10 ** rng.uniform(0, 3.4) * big)), rng.randint(0, 5), "s"] for _ in range(rng.choice([1, 2, 3, 5]))]
    if kind == "many":
        return [[max(1, int(10 ** rng.uniform(0, 2.4) * big)), rng.randint(0, 5), "s"] for _ in range(rng.choice([30, 100, 300]))]
    return [[rng.randint(1, 80), rng.randint(0, 5), "n"] if rng.random() < 0.7 else [max(1, int(10 ** rng.uniform(0, 3) * big)), rng.randint(0, 5), "s"]
            for _ in range(rng.choice([5, 10, 30]))]


def job(t, k, tag):
    """-> zero-argument callable returning a JSON-able result.  Everything it needs is its own."""
    kind = t["job"]
    cfg = G.config(t["spec"])
    base = "outs"                                        # one directory, every thread its own file
    os.makedirs(base, exist_ok=True)
    js = t.get("js")

    def build():
        return G.clone(world.build(cfg).to_json())

    def build_again():
        world.build(cfg)
        return build()

    def load():
        return G.clone(world.load(js).to_json())

    def split():
        m = world.load(js)
        for _ in range(2):
            m.split_and_replace(m.agg_cellboxes[int(t["pick"] * len(m.agg_cellboxes))].get_id())
        return G.clone(m.to_json())

    def points():
        m = world.load(js)
        m.split_points([tuple(p) for p in t["pts"]])
        return G.clone(m.to_json())

    def merge():
        m = world.load(js)
        m.merge_mesh(world.load(js))
        return G.clone(m.to_json())

    def update():
        m = world.load(js)
        m.update_cellbox(int(t["pick"] * len(m.agg_cellboxes)), {"speed": k + 1.5})
        return G.clone(m.to_json())

    def save():
        m = world.load(js)
        m.save(f"{base}/m{k}.json")
        return world.read_json(f"{base}/m{k}.json")[0]

    def geojson():
        m = world.load(js)
        m.save(f"{base}/g{k}.json", "GEOJSON")
        return world.read_json(f"{base}/g{k}.json")[0]

    def fail():
        c = G.clone(cfg)
        c["data_sources"].append({"loader": "scalar_csv", "params": {"data_name": "nope", "files": [f"missing{k}.csv"]}})
        world.build(c)
        return "a build with a missing file succeeded"
    return locals()[kind]


def reader(m, ops, base):
    def f():
        out = []
        os.makedirs(os.path.dirname(base), exist_ok=True)
        for n, o in enumerate(ops):
            r = o["read"]
            if r == "to_json":
                out.append(G.clone(m.to_json()))
            elif r == "to_geojson":
                out.append(json.loads(json.dumps(m.to_geojson())))
            elif r == "layer":
                names = sorted(m.agg_cellboxes[0].get_agg_data())
                world.dump(f"{base}{n}p.json", {"data_name": names[int(o["pick"] * len(names))]})
                out.append(json.loads(json.dumps(m.to_geojson(f"{base}{n}p.json"))))
            elif r == "save":
                m.save(f"{base}{n}.json")
                out.append(world.read_json(f"{base}{n}.json")[0])
            elif r == "save_geo":
                m.save(f"{base}{n}.json", "GEOJSON")
                out.append(world.read_json(f"{base}{n}.json")[0])
            elif r == "query":
                out.append([m.query_index(tuple(p)) if m.query_inside_mesh(tuple(p)) else None for p in o["pts"]])
            elif r == "inside":
                out.append([bool(m.query_inside_mesh(tuple(p))) for p in o["pts"]])
            elif r == "cells":
                out.append(G.clone(m.cellboxes_to_json()))
            elif r == "graph":
                out.append(G.clone({str(k): {str(d): [str(x) for x in v] for d, v in e.items()} for k, e in m.neighbour_graph.get_graph().items()}))
            elif r == "get":
                ids = sorted(str(c.get_id()) for c in m.agg_cellboxes)
                c = m.get_cellbox(ids[int(o["pick"] * len(ids))])
                out.append([str(c.get_id()), repr(c.get_agg_data())])
        return json.loads(json.dumps(out, default=str))
    return f


def outcome(r):
    if r[0] == "ok":
        return ["ok", r[1]]
    if r[0] == "error" and isinstance(r[1], Violation):
        raise r[1]
    return ["error", type(r[1]).__name__]


def compare(got, want):
    if got[0] != want[0]:
        return f"{got[0]} {got[1] if got[0] == 'error' else ''} instead of {want[0]} {want[1] if want[0] == 'error' else ''}"
    if got[0] == "error":
        return None
    a, b = got[1], want[1]
    if isinstance(b, dict) and "cellboxes" in b:
        return oracle.same_mesh(a, b)
    return None if oracle.same_value(a, b) else f"answers differ: {oracle.first_diff(a, b)[:600]}"


def run(plan, ctx):
    world.own_temp()
    if plan["mode"] == "own":
        run_own(plan, ctx)
    else:
        run_shared(plan, ctx)


def finish(plan, ctx, s, what):
    ctx.ev("schedule", s.trace_log)
    ctx.state(what, s.trace_log[:60])
    ctx.count("grain:" + plan["grain"])
    ctx.count("nontrivial", int(bool(s.trace_log)))
    ctx.count("steps", s.steps)


def run_own(plan, ctx):
    ts = [dict(t) for t in plan["threads"]]
    if not ts:
        return
    for k, t in enumerate(ts):
        nc.write_all(t["spec"])
        if t["job"] not in ("build", "build_again", "fail"):
            o = world.attempt(world.build, G.config(t["spec"]))
            if not o.ok:
                t["job"] = "build"
                continue
            t["js"] = G.clone(o.value.to_json())

    def solo():
        out = []
        for k, t in enumerate(ts):
            try:
                out.append(["ok", job(t, k, "s")()])
            except Exception as e:                       # noqa: BLE001
                out.append(["error", type(e).__name__])
        return out
    wants = solo() if plan["solo"] == "before" else None
    s = sched.Sched(ctx, plan["switches"], opcodes=plan["grain"] == "opcode")
    res = s.run([job(t, k, "c") for k, t in enumerate(ts)])
    if wants is None:
        ctx.count("solo_after")
        wants = solo()
    for k, (t, r, w) in enumerate(zip(ts, res, wants)):
        ctx.count("job:" + t["job"])
        diff = compare(outcome(r), w)
        if diff:
            raise Violation("interference", f"thread {k} ({t['job']} of {[x['loader'] for x in t['spec']['sources']]}) next to {[x['job'] for x in ts]} "
                                            f"differs from the same work alone: {diff}")
    ctx.count("mode:own")
    ctx.count("three", int(len(ts) == 3))
    ctx.count("twins", int(len(ts) > 1 and len({t["job"] for t in ts}) == 1))
    finish(plan, ctx, s, [(t["job"], sorted(x["loader"] for x in t["spec"]["sources"])) for t in ts])


def run_shared(plan, ctx):
    nc.write_all(plan["spec"])
    cfg = G.config(plan["spec"])
    o = world.attempt(world.build, cfg)
    if not o.ok or not plan["threads"]:
        return
    js = G.clone(o.value.to_json())

    def make():
        return world.build(cfg) if plan["fresh"] else world.load(js)
    m = make()
    wants = None

    def solo():
        return [["ok", reader(make(), ops, f"solo/{k}_")()] for k, ops in enumerate(plan["threads"])]
    if plan["solo"] == "before":
        wants = solo()
    before = G.clone(make().to_json())
    s = sched.Sched(ctx, plan["switches"], opcodes=plan["grain"] == "opcode")
    res = s.run([reader(m, ops, f"shared/{k}_") for k, ops in enumerate(plan["threads"])])
    wants = wants or solo()
    for k, (ops, r, w) in enumerate(zip(plan["threads"], res, wants)):
        for x in ops:
            ctx.count("read:" + x["read"])
        diff = compare(outcome(r), w)
        if diff:
            raise Violation("interference", f"thread {k} reading {[x['read'] for x in ops]} from a shared mesh got different answers: {diff}")
    diff = oracle.same_mesh(G.clone(m.to_json()), before)
    if diff:
        raise Violation("reading-modifies", f"reading a mesh from several threads changed it: {diff}")
    ctx.count("mode:shared")
    finish(plan, ctx, s, [[x["read"] for x in ops] for ops in plan["threads"]])


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))
    for i, w in enumerate(plan["switches"]):
        if w[0] > 1:
            n = cp()
            n["switches"][i][0] = w[0] // 2
            yield n
    if plan["mode"] == "own":
        for i, t in enumerate(plan["threads"]):
            for j in range(len(t["spec"]["sources"])):
                n = cp()
                del n["threads"][i]["spec"]["sources"][j]
                yield n
            if t["spec"]["depth"]:
                n = cp()
                n["threads"][i]["spec"]["depth"] = 0
                yield n
    else:
        for i, t in enumerate(plan["threads"]):
            for j in range(len(t)):
                n = cp()
                del n["threads"][i][j]
                yield n
