"""C03: inputs and bystanders are never altered; a run that fails before writing leaves existing outputs alone."""
import json
import os

from sim import cmds, disk, gen as G, interrupt, world
from sim.core import Violation

TIERS = {"quick": {"runs": 600, "budget": 90, "min_runs": 40}, "thorough": {"runs": 25000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (command, output placement, failure cause and position, outcome) signature is new and in which either a cause "
        "of failure took effect or the command succeeded next to existing files")
STATE_MEASURE = "distinct (command, output placement, cause, target file kind, position decile, outcome) signatures"
REAL = ["all CLI entry points except meshiphi_test", "MeshBuilder, EnvironmentMesh incl. save/export", "csv/GRF loaders"]
STUB = ["raw file layer (SimDisk)"]
ASSUMPTIONS = ["TIF and PNG export are C23", "a write that fails part way may leave a partial output (that is C01/C02), so only "
               "files other than the output are checked for those"]
PROBES = ["cause:read", "cause:corrupt", "cause:missing", "cause:incompatible", "cause:unrepresentable", "cause:none", "cause:write", "cause:alloc", "fault:alloc",
          "out:input", "out:existing", "failed", "succeeded", "kept_existing"]

CAUSES = ["read", "corrupt", "missing", "incompatible", "unrepresentable", "none", "write", "badconfig", "alloc"]


def gen(rng, tier, i):
    w = cmds.gen_world(rng, kind=cmds.KINDS[i % len(cmds.KINDS)], small=tier == "quick")
    w["bufsize"] = rng.choice([64, 512, 8192])
    w["chunk"] = rng.choice([64, 1024, 8192])
    cause = rng.choices(CAUSES, [4, 4, 3, 2, 3, 2, 2, 2, 2])[0]
    p = {"world": w, "cause": cause, "out": rng.choice(["existing", "existing", "fresh", "input", "default"]),
         "pick": rng.random(), "frac": rng.choice([0, 0.999, rng.randrange(1000) / 1000]),
         "how": rng.choice(["truncate", "garbage", "empty", "notjson", "wrongtype", "dropkey"]),
         "errno": rng.choice(["EIO", "EACCES", "EMFILE", "EISDIR"]), "op": rng.choice(["open_r", "read", "read"]),
         "content": rng.choice(["text", "mesh", "empty", "big"]), "shrink_lists": ["world/parts", "world/spec/sources"]}
    return p


def corrupt(path, how, frac):
    with disk.real_open(path, "rb") as f:
        b = f.read()
    if how == "truncate":
        b = b[:int(len(b) * frac)]
    elif how == "garbage":
        k = int(len(b) * frac)
        b = b[:k] + b"\x00\xff\xfe{{" + b[k + 5:]
    elif how == "empty":
        b = b""
    elif how == "notjson":
        b = b"lat;long;nothing here\n"
    elif how == "wrongtype":
        b = b"[1, 2, 3]" if path.endswith(".json") else b"a,b\n1,2\n"
    elif how == "dropkey":
        if path.endswith(".json"):
            d = json.loads(b)
            ks = sorted(d)
            d.pop(ks[int(frac * len(ks)) % len(ks)])
            b = json.dumps(d).encode()
        else:
            b = b.replace(b"lat", b"latt", 1)
    with disk.real_open(path, "wb") as f:
        f.write(b)


def bad_part(w):
    """A mesh the merge has to refuse: finer-grained base grid that does not fit."""
    r = w["spec"]["region"]
    reg = dict(r, kind="bad", cell_width=r["cell_width"], cell_height=r["cell_height"])
    reg["long_min"] = r["long_min"] + r["cell_width"] / 2 if r["kind"] in ("plain", "rect") else r["long_min"]
    reg["long_max"] = reg["long_min"] + r["cell_width"]
    if r["kind"] not in ("plain", "rect"):
        reg["long_max"] = G.wrap(reg["long_max"])
        reg["lat_min"] = r["lat_min"] + r["cell_height"] / 2
    reg["lat_max"] = reg["lat_min"] + r["cell_height"]
    return {"region": reg, "sources": [], "window": ["2020-01-01", "2020-01-02"], "depth": 0, "min_dp": 1}


def scratch(w, ctx, arg, out):
    """Put files of the user's where the command keeps scratch files of its own, unless their names are derived from the output's."""
    saved = disk.tree(".")
    d = disk.SimDisk(os.getcwd(), ctx)
    with d:
        cmds.run(w, arg)
    now = disk.tree(".")
    for p in set(now) | set(saved):
        if p not in saved:
            os.remove(p)
        elif now.get(p) != saved[p]:
            with disk.real_open(p, "wb") as f:
                f.write(saved[p])
    stem = os.path.basename(out).split(".")[0]
    for p in sorted(set(d.opened_w)):
        p = os.path.normpath(p)
        if p != os.path.normpath(out) and p not in saved and stem not in os.path.basename(p) and not os.path.isabs(p) and not p.startswith(".."):
            G.write(p, "precious\n")
            ctx.count("scratch_name_taken")


def run(plan, ctx):
    w = plan["world"]
    k = w["cmd"]
    if k in ("merge", "merged") and not w["parts"]:
        return
    world.own_temp()
    cmds.setup(w, ctx)
    cause = plan["cause"]
    prewrite = cause not in ("none", "write")
    ins = cmds.inputs(w)
    mesh = None
    d0 = None
    if cause in ("read", "write"):
        _, d0 = cmds.reference(w, ctx)
    effective = True
    at = None
    if cause == "alloc":
        cnt = interrupt.Allocs(ctx)
        with cnt:
            o = cmds.run(w, "work/ref.json")
        if not o.ok:
            raise Violation("unexpected-error", f"{k} failed without any injected fault: {o!r}")
        os.remove("work/ref.json")
        at = 1 + int(plan["frac"] * cnt.n)
    if cause == "corrupt":
        corrupt(ins[int(plan["pick"] * len(ins))], plan["how"], plan["frac"])
    elif cause == "missing":
        p = ins[int(plan["pick"] * len(ins))]
        os.remove(p)
        ins.remove(p)
        if p.startswith("data"):
            os.makedirs(os.path.dirname(p), exist_ok=True)
    elif cause == "incompatible":
        if k == "merge":
            m = world.must(world.build, G.config(bad_part(w)), what="building an unaligned mesh").to_json()
            world.dump("parts/" + w["parts"][0]["name"], m)
        elif k == "merged":
            m = world.must(world.build, G.config(bad_part(w)), what="building an unaligned mesh").to_json()
            world.dump("parts/" + w["parts"][int(plan["pick"] * len(w["parts"]))]["name"], m)
        else:
            effective = False
    elif cause == "unrepresentable":
        if k in ("save_json", "save_geojson"):
            mesh = world.load_file("m1.json")[0]
            mesh.update_cellbox(int(plan["pick"] * len(mesh.agg_cellboxes)), {"odd": object() if k == "save_json" else "text"})
        elif k == "export_geojson":
            _, js = world.load_file("m1.json")
            js["cellboxes"][int(plan["pick"] * len(js["cellboxes"]))]["geometry"] = "POLYGON EMPTY ???"
            world.dump("m1.json", js)
        else:
            effective = False
    elif cause == "badconfig":
        if k in ("create", "rebuild"):
            path = "config.json" if k == "create" else "m1.json"
            doc = json.load(disk.real_open(path))
            cfg = doc if k == "create" else doc["config"]["mesh_info"]
            how = int(plan["pick"] * 6)
            if how == 0:
                cfg["region"]["start_time"] = "yesterday"
            elif how == 1:
                cfg["region"]["cell_width"] = cfg["region"]["cell_width"] * 0.77
            elif how == 2:
                cfg["data_sources"] = cfg.get("data_sources", []) + [{"loader": "no_such_loader", "params": {}}]
            elif how == 3:
                cfg["region"]["lat_min"], cfg["region"]["lat_max"] = cfg["region"]["lat_max"], cfg["region"]["lat_min"]
            elif how == 4:
                cfg["data_sources"] = cfg.get("data_sources", []) + [{"loader": "scalar_csv", "params": {"files": ["no/such.csv"], "data_name": "q"}}]
            else:
                cfg["region"]["long_max"] = 999
            world.dump(path, doc)
        elif k == "export_geojson":
            w = dict(w, layer=True)
            if plan["pick"] < 0.5 and os.path.exists("params.json"):
                os.remove("params.json")
            elif plan["pick"] >= 0.5:
                world.dump("params.json", {"nothing": 1})
        else:
            effective = False
    # where the output goes
    out = {"existing": "work/out.json", "fresh": "work/out.json", "default": cmds.DEFAULT_OUT.get(k, "work/out.json"),
           "input": None}[plan["out"]]
    if out is None:
        js = [p for p in ins if p.endswith(".json")]
        out = js[int(plan["pick"] * 7919 % 1 * len(js))] if js else "work/out.json"
    if plan["out"] in ("existing", "default"):
        c = {"text": "precious\n", "empty": "", "big": "z" * 300000,
             "mesh": json.dumps({"config": 1, "cellboxes": [], "neighbour_graph": {}})}[plan["content"]]
        G.write(out, c)
    world.dump("bystander.json", {"keep": "me"})
    arg = None if plan["out"] == "default" and k in cmds.DEFAULT_OUT else out
    if cause == "none":
        scratch(w, ctx, arg, out)
    os.makedirs("work/sub", exist_ok=True)
    G.write("work/out.json.bak", "backup")
    G.write("work/sub/x.json", "[]")
    before = disk.tree(".")
    faults = []
    if cause == "read":
        faults = cmds.resolve([{"op": plan["op"], "on": "*", "count": "*", "frac": plan["frac"], "kind": "error", "errno": plan["errno"]}], d0.counts)
    elif cause == "write":
        faults = cmds.resolve([{"op": "write", "on": "*", "count": "work/ref.json", "frac": plan["frac"], "kind": "error", "errno": "ENOSPC"}], d0.counts)
    d = disk.SimDisk(os.getcwd(), ctx, faults, w["bufsize"], w["chunk"])
    al = interrupt.Allocs(ctx, at, d)
    with d:
        if at is None:
            o = cmds.run(w, arg, mesh)
        else:
            with al:
                o = cmds.run(w, arg, mesh)
    if d.wrote_before_fault or al.wrote_before_fault:
        prewrite = False
    after = disk.tree(".")
    ctx.count("cause:" + cause)
    ctx.count("out:" + plan["out"])
    ctx.count("succeeded" if o.ok else "failed")
    ctx.ev("outcome", repr(o))
    what = f"{k} -> {out} ({'succeeded' if o.ok else f'failed: {o!r}'}; cause: {cause})"
    for p, b in before.items():
        if p == out:
            continue
        if p not in after:
            raise Violation("file-removed", f"{what}: {p} is gone")
        if after[p] != b:
            raise Violation("file-changed", f"{what}: {p} was modified")
    new = sorted(p for p in set(after) - set(before) - {out} if not p.startswith("tmp/"))
    if new and cause not in ("write", "alloc"):
        raise Violation("stray-file", f"{what}: new files {new}")
    if not o.ok and prewrite:
        if out in before:
            if after.get(out) != before[out]:
                raise Violation("output-destroyed", f"{what}: the existing output was "
                                + ("removed" if out not in after else f"changed from {len(before[out])} to {len(after[out])} bytes"))
            ctx.count("kept_existing")
        elif out in after:
            raise Violation("output-left", f"{what}: a new file of {len(after[out])} bytes was left at the output path")
    if not o.ok and cause == "none":
        raise Violation("unexpected-error", f"{what}")
    ctx.state(k, plan["out"], cause, plan["how"] if cause == "corrupt" else plan["op"] if cause == "read" else "",
              int(plan["pick"] * 6), int(plan["frac"] * 10), o.ok)
    if (effective and not o.ok) or o.ok:
        ctx.count("nontrivial")


def shrink(plan):
    for w in G.shrink_spec(plan["world"], "spec"):
        n = G.clone(plan)
        n["world"] = w
        yield n
