"""C15: merging a directory = merging its files one at a time in name order; a bad file fails the whole command."""
import json
import os

from sim import cmds, disk, gen as G, oracle, world
from sim.core import Violation
from checks.c03 import bad_part

TIERS = {"quick": {"runs": 900, "budget": 120, "min_runs": 40}, "thorough": {"runs": 30000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (number of files, overlap of their regions, listing order, bad file kind and position, outcome) signature is new and "
        "whose directory had at least one mesh")
STATE_MEASURE = "distinct (files, order-dependent?, listing permutation, trouble kind and position, subdirectories, outcome) signatures"
REAL = ["merge_mesh_cli", "EnvironmentMesh.load_from_json/merge_mesh/to_json", "MeshBuilder (to make the inputs)"]
STUB = ["raw file layer (SimDisk): listing order, listing/stat/open/read errors, files vanishing"]
ASSUMPTIONS = ["the result of merging one mesh is taken from EnvironmentMesh.merge_mesh (its own correctness is C11)"]
PROBES = ["order_matters", "fault:listing_order", "trouble:none", "trouble:incompatible", "trouble:garbage", "trouble:truncate", "trouble:read", "trouble:vanish",
          "trouble:stat", "trouble:listdir", "trouble:dangling", "subdirs", "base_inside", "output_inside", "same_mesh_twice", "refused", "merged_ok"]

NAMES = ["a.json", "b.json", "B.json", "A1.json", "part10.json", "part9.json", "part09.json", "z", "mesh", "_x.json", "x y.json", "9.json", "10.json",
         "m.json.bak", "é.json", "~a.json", "Z.json", ".hidden.json"]


def gen(rng, tier, i):
    r = G.region(rng, rng.choice(["plain", "plain", "rect", "antimeridian", "global"]), max_cells=9)
    base = G.spec(rng, r, sources=[G.scalar_csv(rng, r)] if rng.random() < 0.4 else [], depth=rng.choice([0, 1, 2]))
    n = rng.choice([0, 1, 2, 2, 3, 3, 4])
    parts = []
    for k, nm in enumerate(rng.sample(NAMES, n)):
        sub = cmds.sub_region(rng, r)
        if parts and rng.random() < 0.5:                 # same or overlapping region as an earlier part: order matters
            sub = dict(parts[-1]["spec"]["region"])
            if rng.random() < 0.5:
                sub["cell_width"] /= 2
                sub["cell_height"] /= 2
        s2 = {"region": sub, "window": ["2020-01-05", "2020-01-20"], "depth": rng.choice([0, 1, 1, 2]), "min_dp": 1,
              "sources": [G.scalar_csv(rng, sub, "SIC", 0, nfiles=1, nrows=rng.randint(3, 10))] if rng.random() < 0.7 else []}
        for s in s2["sources"]:
            for f in s["files"]:
                f["path"] = f["path"].replace("data/", f"data{k + 2}/")
        parts.append({"name": nm, "spec": s2})
    trouble = "none" if rng.random() < 0.4 or not n else rng.choice(["incompatible", "garbage", "truncate", "empty", "notmesh", "open", "read", "vanish", "stat",
                                                                      "listdir", "dangling", "text"])
    return {"spec": base, "parts": parts, "trouble": trouble, "pos": rng.random(), "frac": rng.randrange(1000) / 1000, "list_seed": rng.randint(0, 10 ** 6),
            "subdirs": rng.randint(0, 2), "slash": rng.choice(["", "", "/"]), "existing": rng.random() < 0.5, "out_in": rng.random() < 0.1, "out_over": rng.random() < 0.12,
            "base_in": rng.choice(NAMES) if rng.random() < 0.12 else "", "same": rng.choice(["", "", "", "", "", "copy", "symlink", "hardlink"]),
            "errno": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]), "shrink_lists": ["parts", "spec/sources"]}


def run(plan, ctx):
    G.materialise(plan["spec"])
    base = world.must(world.build, G.config(plan["spec"]), what="building the mesh").to_json()
    world.dump("m1.json", base)
    os.makedirs("parts")
    docs = {}
    for p in plan["parts"]:
        G.materialise(p["spec"])
        docs[p["name"]] = world.must(world.build, G.config(p["spec"]), what="building a mesh to merge").to_json()
        world.dump("parts/" + p["name"], docs[p["name"]])
    for k in range(plan["subdirs"]):
        os.makedirs(f"parts/sub{k}.json")
        world.dump(f"parts/sub{k}.json/inner.json", base)
        ctx.count("subdirs")
    base_at = "m1.json"
    if plan["base_in"] and plan["base_in"] not in docs:           # the mesh merged into lies in the directory itself
        base_at = "parts/" + plan["base_in"]
        docs[plan["base_in"]] = base
        world.dump(base_at, base)
        ctx.count("base_inside")
    if plan["same"] and plan["parts"]:                            # one mesh under two names
        nm, other = plan["parts"][0]["name"], "q_" + plan["parts"][-1]["name"]
        docs[other] = docs[nm]
        if plan["same"] == "symlink":
            os.symlink(nm, "parts/" + other)
        elif plan["same"] == "hardlink":
            os.link("parts/" + nm, "parts/" + other)
        else:
            world.dump("parts/" + other, docs[nm])
        ctx.count("same_mesh_twice")
    names = sorted(docs)
    trouble = plan["trouble"] if names else "none"

    def one_at_a_time(order):
        m = world.load(base)
        for nm in order:
            o = world.attempt(lambda nm=nm: m.merge_mesh(world.load(docs[nm])))
            if not o.ok:
                return None, o
        return json.loads(json.dumps(m.to_json())), None

    want, why = one_at_a_time(names)
    if want is not None and len(names) > 1:
        rev, _ = one_at_a_time(names[::-1])
        if rev is None or oracle.same_mesh(want, rev, config=False):
            ctx.count("order_matters")
    faults = []
    victims = [p["name"] for p in plan["parts"]] if base_at != "m1.json" or plan["same"] else names
    victim = sorted(victims)[int(plan["pos"] * len(victims))] if victims else None
    if not victims:
        trouble = "none"
    if trouble == "incompatible":
        b = bad_part({"spec": plan["spec"]})
        docs[victim] = world.must(world.build, G.config(b), what="building an unaligned mesh").to_json()
        world.dump("parts/" + victim, docs[victim])
        want, why = one_at_a_time(names)
    elif trouble in ("garbage", "truncate", "empty", "notmesh", "text"):
        raw = json.dumps(docs[victim], indent=4).encode()
        k = int(plan["frac"] * (len(raw) - 2))
        raw = {"garbage": raw[:k] + b"\x00\xff\xfe{{" + raw[k + 5:], "truncate": raw[:k], "empty": b"", "notmesh": b'{"a": 1}', "text": b"read me\n"}[trouble]
        G.write("parts/" + victim, raw)
        want = None
    elif trouble == "dangling":
        os.remove("parts/" + victim)
        os.symlink("nowhere", "parts/" + victim)
        want = None
    elif trouble in ("open", "read", "stat"):
        faults = [{"op": {"open": "open_r", "read": "read", "stat": "stat"}[trouble], "on": "parts/" + victim, "nth": 0, "kind": "error",
                   "errno": plan["errno"], "sticky": True}]
    elif trouble == "vanish":
        faults = [{"op": "listdir", "on": "parts", "nth": 0, "kind": "late"}]
    elif trouble == "listdir":
        faults = [{"op": "listdir", "on": "parts", "nth": 0, "kind": "error", "errno": plan["errno"], "arg": int(plan["frac"] * (len(names) + 1))}]
    out = "parts/zz_out.json" if plan["out_in"] and not plan["existing"] else "out.json"
    if plan["out_over"] and not plan["same"] and names and trouble in ("none", "incompatible", "listdir"):
        out = "parts/" + names[int(plan["frac"] * len(names))]    # the output replaces one of the meshes merged
        ctx.count("output_inside")
    elif plan["existing"]:
        G.write(out, "precious")
    before = disk.tree(".")
    d = disk.SimDisk(os.getcwd(), ctx, faults, list_seed=plan["list_seed"])
    if trouble == "vanish":
        real_order = d._order

        def order(ns, path):
            r = real_order(ns, path)
            if d.rel(path) == "parts" and os.path.lexists("parts/" + victim):
                disk._real["remove"]("parts/" + victim)
                ctx.count("fault:vanish")
            return r
        d._order = order
        d.faults = []
    with d:
        o = world.cli("merge_mesh_cli", base_at, "parts" + plan["slash"], "-d", "-o", out)
    after = disk.tree(".")
    ctx.count("trouble:" + trouble)
    ctx.ev("outcome", repr(o))
    what = f"merging directory of {names} (trouble: {trouble}{' in ' + victim if victim and trouble != 'none' else ''})"
    got, bad = world.read_json(out) if os.path.exists(out) else (None, "absent")
    if o.ok:
        ctx.count("merged_ok")
        if want is None:
            raise Violation("bad-file-ignored", f"{what} succeeded, but one at a time it fails: {why!r}")
        if got is None:
            raise Violation("incomplete-output", f"{what} succeeded but the output is {bad}")
        diff = oracle.same_mesh(got, want)
        if diff:
            raise Violation("wrong-merge", f"{what}: differs from merging the files one at a time in name order: {diff}")
    else:
        ctx.count("refused")
        if trouble == "none" and want is not None:
            raise Violation("unexpected-error", f"{what} failed: {o!r}")
        if out in before and after.get(out) != before[out]:
            raise Violation("output-destroyed", f"{what} failed ({o!r}) and changed the existing output")
        if out not in before and out in after:
            raise Violation("output-left", f"{what} failed ({o!r}) and left an output of {len(after[out])} bytes")
    for p, b in before.items():
        if p != out and after.get(p) != b and not (trouble == "vanish" and p == "parts/" + victim):
            raise Violation("file-changed", f"{what}: {p} changed")
    ctx.state(len(names), trouble, int(plan["pos"] * 4), plan["subdirs"], plan["list_seed"] % 24, o.ok, want is None, plan["spec"]["region"]["kind"])
    if names:
        ctx.count("nontrivial")


def shrink(plan):
    yield from G.shrink_spec(plan)
    for i in range(len(plan["parts"])):
        for w in G.shrink_spec(plan["parts"][i], "spec"):
            n = G.clone(plan)
            n["parts"][i] = w
            yield n
