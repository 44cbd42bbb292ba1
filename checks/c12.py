"""C12: save/load round trip at any point of the history is invisible; GeoJSON is faithful."""
import os

from sim import disk, history, oracle, world
from sim.core import Violation

from checks.c08 import LEVEL, REAL, STUB                        # noqa: F401
from checks.c08 import ASSUMPTIONS as _A

TIERS = {"quick": {"runs": 500, "budget": 90, "min_runs": 40}, "thorough": {"runs": 30000, "budget": 1800}}
RULE = ("counts a run whose (region kind, operation sequence, reload positions) signature is new and in which at least one "
        "save/reload was inserted and one operation performed after the build")
STATE_MEASURE = "distinct (region kind, operation sequence with cell counts, reload positions) signatures"
ASSUMPTIONS = _A + ["GeoJSON is compared for numeric, boolean and list values (lists are exported as their mean)"]
PROBES = ["reloads", "op:merge", "op:export", "op:layer", "fault:read:short", "layer_exports"]


def gen(rng, tier, i):
    p = history.gen_history(rng, tier, {"crash": 0, "reload": 0, "export": 4, "save": 2, "update": 3, "layer": 4})
    p["fresh"] = rng.random() < 0.5
    n = len(p["ops"])
    p["reloads"] = sorted(rng.sample(range(n + 1), rng.randint(1, min(3, n + 1))))
    p["how"] = rng.choice(["file", "file", "memory"])
    p["read_faults"] = [{"op": "read", "on": "work/rt*", "nth": rng.randint(0, 5), "kind": rng.choice(["short", "eintr"]),
                         "arg": rng.choice([1, 100])} for _ in range(rng.choice([0, 1, 2]))]
    p["layer"] = rng.random() < 0.4
    return p


def reload_all(h, plan, ctx):
    for i in range(len(h.meshes)):
        before = h.js(i)
        if plan["how"] == "memory":
            h.meshes[i] = world.must(world.load, before, what="loading a mesh")
        else:
            f = f"work/rt{i}.json"
            with disk.SimDisk(os.getcwd(), ctx, plan["read_faults"]):
                world.must(h.meshes[i].save, f, what="saving a mesh")
                h.meshes[i] = world.must(world.load_file, f, what="loading a mesh")[0]
        d = oracle.same_mesh(h.js(i), before)
        if d:
            raise Violation("reload-differs", f"loading a saved mesh gives another mesh: {d}")
        a, b = h.js(i), before
        if [c["id"] for c in a["cellboxes"]] != [c["id"] for c in b["cellboxes"]]:
            raise Violation("reload-differs", "loading a saved mesh changes the order of its cells, which indexed updates rely on")
        if i == 0:
            history.check_remarks(before, "loading a mesh")
        ctx.count("reloads")


def run(plan, ctx):
    focus = {"geojson", "reload"}
    a = history.Hist(plan, ctx, focus)
    b = history.Hist(dict(plan, fresh=False), ctx, focus)
    a.start()
    b.start()
    shape = []
    for n, op in enumerate(plan["ops"] + [None]):
        if n in plan["reloads"]:
            reload_all(b, plan, ctx)
        if op is None:
            break
        on = op["on"] if op["on"] < len(a.meshes) else 0
        name = f"op {n} ({op['op']})"
        ra = getattr(a, "do_" + op["op"])(op, on, [a.js(i) for i in range(len(a.meshes))], name)
        rb = getattr(b, "do_" + op["op"])(op, on, [b.js(i) for i in range(len(b.meshes))], name + " on the reloaded mesh")
        if (ra is False) != (rb is False):
            raise Violation("reload-differs", f"{name} possible on only one of the original and the reloaded mesh")
        if ra is not False:
            ctx.count("op:" + op["op"])
        for i in range(len(a.meshes)):
            d = oracle.same_mesh(a.js(i), b.js(i))
            if d:
                raise Violation("reload-differs", f"after {name} the mesh that was saved and reloaded differs from the one that "
                                                  f"was not: {d}")
        shape.append([op["op"], on, len(a.js(0)["cellboxes"])])
        ctx.ev("op", n, op["op"], len(a.js(0)["cellboxes"]))
    if plan["layer"] and a.geojsonable(a.js(0)):
        keys = sorted(history.all_keys(a.js(0)) - {"id"})
        if keys:
            key = keys[int(plan["spec"]["region"]["cell_width"] * 7 + len(shape)) % len(keys)]
            world.dump("work/layer.json", {"data_name": key})
            g = world.must(a.meshes[0].to_geojson, "work/layer.json", what="exporting one layer")
            history.check_geojson(g, a.js(0), layer=key)
            ctx.count("layer_exports")
    ctx.state(plan["spec"]["region"]["kind"], shape, plan["reloads"], plan["how"], plan["fresh"])
    if shape:
        ctx.count("nontrivial")


def shrink(plan):
    yield from history.shrink(plan)
    for i in range(len(plan["reloads"])):
        if len(plan["reloads"]) > 1:
            n = history.gen.clone(plan)
            del n["reloads"][i]
            yield n
