"""C04: a file that cannot be read completely is never silently left out."""
import os

from sim import cmds, disk, gen as G, nc, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 1400, "budget": 150, "min_runs": 40}, "thorough": {"runs": 30000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (command or loader set, fault kind, victim file, position, outcome) signature is new and in which the fault took effect")
STATE_MEASURE = "distinct (command, loaders, via, number of files, trouble, victim index, outcome) signatures"
REAL = ["all file-based loaders of DataLoaderFactory", "create/rebuild/merge/export commands, EnvironmentMesh"]
STUB = ["raw file layer (SimDisk) for CSV/JSON; xarray.open_dataset and geopandas.read_file calls for netCDF/GeoJSON/shapefile; dask scheduler synchronous"]
ASSUMPTIONS = ["a text file cut exactly between two records is indistinguishable from a shorter one and is not injected",
               "I/O errors inside the netCDF C library appear as truncated or vanished files"]
LOADERS = (["scalar_csv", "vector_csv", "lut_csv", "lut_geojson", "lut_shapefile", "scotland_ncmpa", "amsr", "visual_iced", "icenet", "ecmwf_sig_wave_height", "duacs_currents"]
           + nc.TILED + ["baltic_sic", "baltic_currents", "northsea_currents"] + list(nc.ERA5))
TROUBLES = ["open", "open", "read", "missing", "missing", "vanish", "nofolder", "listdir", "partial", "vanish", "truncate", "cut_midway", "gone_midway", "zero", "stat",
            "garbled", "badbyte"]
CYCLE = LOADERS + ["scalar_csv", "vector_csv", "lut_csv", "lut_geojson", "scalar_csv", "gebco", "amsr", "scalar_csv", "vector_csv"]
PROBES = ["trouble:" + t for t in set(TROUBLES)] + ["fault:listing_breaks_off", "trouble:cut", "mode:build", "mode:cmd", "failed", "unaffected"] + ["loader:" + x for x in LOADERS]


def gen_source(rng, ld, r, k, window):
    if ld == "scalar_csv":
        return G.scalar_csv(rng, r, "csv%d" % k, k, dates=rng.choice([None, G.DATES]), nfiles=rng.randint(1, 4), nrows=rng.randint(5, 60))
    if ld == "vector_csv":
        return G.vector_csv(rng, r, k, dates=rng.choice([None, G.DATES]), nfiles=rng.randint(1, 3), nrows=rng.randint(5, 60), names=("a%d" % k, "b%d" % k))
    n = rng.randint(1, 3)
    return nc.source(rng, ld, r, k, window, nfiles=n, cover=rng.random() < 0.8)


def gen(rng, tier, i):
    p = {"trouble": rng.choice(TROUBLES), "pick": rng.random(), "frac": rng.randrange(1000) / 1000, "errno": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE"]),
         "list_seed": rng.randint(0, 9999), "bufsize": rng.choice([64, 512, 8192])}
    if i % 5 == 4:
        w = cmds.gen_world(rng, kind=rng.choice(["rebuild", "merge", "merged", "merged", "export_json", "export_geojson", "create"]), small=True)
        p.update(mode="cmd", world=w, trouble=rng.choice(["open", "read", "read", "read", "missing", "stat", "listdir", "vanish", "cut", "zero"]), shrink_lists=["world/parts", "world/spec/sources"])
        return p
    r = G.region(rng, rng.choice(["plain", "rect"]), max_cells=4)
    a = rng.randint(4, 12)
    window = [f"2020-01-{a:02d}", f"2020-01-{rng.randint(a + 1, 20):02d}"]
    lds = [CYCLE[(i - i // 5) % len(CYCLE)]] + ([rng.choice(LOADERS)] if rng.random() < 0.25 else [])
    src = []
    for k, ld in enumerate(lds):
        s = gen_source(rng, ld, r, k, window)
        if not any(o["name"] == s["name"] for o in src):
            src.append(s)
    p.update(mode="build", spec={"region": r, "sources": src, "window": window, "depth": rng.choice([0, 1]), "min_dp": 1},
             entry=rng.choice(["api", "cli", "rebuild"]), used=rng.random() < 0.75, shrink_lists=["spec/sources"] + [f"spec/sources/{k}/files" for k in range(len(src))])
    return p


def materialise(sp):
    for s in sp["sources"]:
        for f in s["files"]:
            if "rows" in f:
                G.write(f["path"], G.csv_text(f["cols"], f["rows"]))
            else:
                nc.write_file(s["loader"], f)


def binary(path):
    return path.endswith((".nc", ".grib2", ".shp"))


def go(plan, sp, out):
    """-> (Outcome, mesh json)"""
    if plan["entry"] == "api":
        o = world.attempt(world.build, G.config(sp))
        return o, (G.clone(o.value.to_json()) if o.ok else None)
    if plan["entry"] == "cli":
        o = world.cli("create_mesh_cli", "config.json", "-o", out)
    else:
        o = world.cli("rebuild_mesh_cli", "m0.json", "-o", out)
    if not o.ok:
        return o, None
    js, why = world.read_json(out)
    if js is None:
        raise Violation("incomplete-output", f"the command succeeded but its output is {why}")
    return o, js


def run(plan, ctx):
    (run_build if plan["mode"] == "build" else run_cmd)(plan, ctx)


def run_build(plan, ctx):
    sp = plan["spec"]
    files = [(s, f["path"]) for s in sp["sources"] for f in s["files"]]
    if not files:
        return
    materialise(sp)
    world.dump("config.json", G.config(sp))
    for s in sp["sources"]:
        ctx.count("loader:" + s["loader"])
    if plan["entry"] == "rebuild":
        # the earlier mesh records the configuration as given, files and folders included
        world.dump("m0.json", {"config": {"mesh_info": G.config(sp)}})
    d0 = disk.SimDisk(os.getcwd(), ctx, bufsize=plan["bufsize"], list_seed=plan["list_seed"])
    with d0:
        o, want = go(plan, sp, "ref.json")
    if not o.ok:
        raise Violation("unexpected-error", f"building from {[s['loader'] for s in sp['sources']]} failed without any injected fault: {o!r}")
    if plan.get("used"):
        # a file that matters: one the undisturbed build opened
        opened = {rel for (op, rel) in d0.counts if op in ("ncopen", "open_r")}
        files = [f for f in files if f[1] in opened] or files
    src, victim = files[int(plan["pick"] * len(files))]
    folder = os.path.dirname(victim)
    t = plan["trouble"]
    # shapefiles are several files; hit the main one
    faults = []
    effective = True
    err = {"kind": "error", "errno": plan["errno"]}
    if t == "read" and binary(victim):
        t = "cut_midway"
    if src["via"] != "folder" and t in ("nofolder", "listdir", "partial", "vanish"):
        t = "missing"
    if t == "missing" and src["via"] == "folder":
        t = "vanish"
    if t in ("truncate", "cut_midway") and not binary(victim):
        t = "read" if not victim.endswith("geojson") else "open"
    rows = next((f.get("rows") for f in src["files"] if f["path"] == victim), None)
    if t in ("garbled", "badbyte") and (not rows or len(rows) < 3):
        t = "zero"
    if t == "garbled":
        # a lost line break: a record with too many fields (never the first one, which would define the columns)
        lines = disk.real_open(victim, "rb").read().split(b"\n")
        k = 2 + int(plan["frac"] * (len(rows) - 2))
        lines[k:k + 2] = [lines[k] + b"," + lines[k + 1]]
        G.write(victim, b"\n".join(lines))
    elif t == "badbyte":
        # a byte in a record that is no text in any encoding the file could have
        raw = disk.real_open(victim, "rb").read()
        digits = [j for j in range(raw.index(b"\n"), len(raw)) if raw[j:j + 1].isdigit()]
        k = digits[int(plan["frac"] * len(digits))]
        G.write(victim, raw[:k] + b"\xff" + raw[k:])
    elif t == "open":
        faults = [dict(err, op=op, on=victim, nth=0, sticky=True) for op in ("open_r", "ncopen")]
    elif t == "read":
        n = d0.counts[("read", victim)]
        if not n:
            faults = [dict(err, op="ncopen", on=victim, nth=0, sticky=True)]
        else:
            faults = [dict(err, op="read", on=victim, nth=int(plan["frac"] * n), sticky=True)]
    elif t == "stat":
        faults = [dict(err, op="stat", on=victim, nth=0, sticky=True)]
    elif t == "missing":
        os.remove(victim)
    elif t == "nofolder":
        os.rename(folder, folder + "_elsewhere")
    elif t == "listdir":
        faults = [dict(err, op="listdir", on=folder, nth=0, sticky=True)]
    elif t == "partial":
        k = len([1 for s, f in files if os.path.dirname(f) == folder])
        faults = [dict(err, op="listdir", on=folder, nth=0, sticky=True, arg=1 + int(plan["frac"] * k))]
        ctx.count("fault:listing_breaks_off")
    elif t == "vanish":
        faults = []
    elif t == "truncate":
        cut(victim, plan["frac"])
    elif t == "zero":
        G.write(victim, b"")
    elif t in ("cut_midway", "gone_midway"):
        # after the n-th file has been opened, another one disappears or shrinks
        # (a netCDF file cut while it is open reads as zeros inside the HDF5 library: only files not yet open are cut)
        # only once its own source is being read: a file gone before its folder is listed was never there
        mine = {f["path"] for f in src["files"]}
        opens = [rel for (op, rel), n in d0.counts.items() if op in ("ncopen", "open_r") and rel in mine]
        if t == "cut_midway" and victim in opens:
            opens = opens[:opens.index(victim) + 1]
        at = opens[int(plan["frac"] * len(opens))] if opens else victim
        how = {"cut_midway": "truncate", "gone_midway": "delete"}[t]
        faults = [{"op": op, "on": at, "nth": 0, "kind": "mutate", "target": victim, "how": how, "frac": plan["frac"]} for op in ("open_r", "ncopen")]
    ctx.count("fault:" + t)
    d = disk.SimDisk(os.getcwd(), ctx, faults, bufsize=plan["bufsize"], list_seed=plan["list_seed"])
    if t == "vanish":
        vanish_after_listing(d, folder, victim)
    with d:
        o, got = go(plan, sp, "out.json")
    verdict(plan, ctx, o, got, want, t, victim, f"building from {[(s['loader'], len(s['files']), s['via']) for s in sp['sources']]} by {plan['entry']}", oracle.same_mesh)
    ctx.state(sorted((s["loader"], s["via"], len(s["files"])) for s in sp["sources"]), t, int(plan["pick"] * 4), int(plan["frac"] * 4), o.ok, plan["entry"])
    ctx.count("nontrivial", int(effective))
    ctx.count("mode:build")


def cut(path, frac):
    sz = os.path.getsize(path)
    with disk.real_open(path, "r+b") as h:
        h.truncate(int(sz * frac))


def vanish_after_listing(d, folder, victim):
    real = d._order

    def order(names, path):
        r = real(names, path)
        if d.rel(path) == folder and os.path.lexists(victim):
            disk._real["remove"](victim)
        return r
    d._order = order


def verdict(plan, ctx, o, got, want, t, victim, what, same):
    ctx.count("trouble:" + t)
    ctx.ev("outcome", repr(o))
    if not o.ok:
        ctx.count("failed")
        return
    ctx.count("unaffected")
    diff = same(got, want)
    if diff:
        raise Violation("silently-left-out", f"{what} succeeded although {victim} could not be read ({t}), and the result differs: {diff}")


def run_cmd(plan, ctx):
    w = dict(plan["world"], bufsize=plan["bufsize"], chunk=plan["bufsize"])
    if w["cmd"] in ("merge", "merged") and not w["parts"]:
        return
    cmds.setup(w, ctx)
    want, d0 = cmds.reference(w, ctx)
    ins = cmds.inputs(w)
    victim = ins[int(plan["pick"] * len(ins))]
    t = plan["trouble"]
    err = {"kind": "error", "errno": plan["errno"]}
    faults = []
    listed = [rel for (op, rel) in d0.counts if op == "listdir"]
    if t in ("listdir", "vanish") and not listed:
        t = "open"
    if t == "open":
        faults = [dict(err, op="open_r", on=victim, nth=0, sticky=True)]
    elif t == "read":
        n = d0.counts[("read", victim)]
        faults = [dict(err, op="read", on=victim, nth=int(plan["frac"] * n), sticky=True)]
    elif t == "stat":
        faults = [dict(err, op="stat", on=victim, nth=0, sticky=True)]
    elif t == "listdir":
        faults = [dict(err, op="listdir", on=sorted(listed)[0], nth=0, sticky=True, arg=int(plan["frac"] * 3))]
    elif t == "missing":
        if victim.startswith(("parts", "data")) and (w["cmd"] == "merged" or listed):
            return                                   # not there at all: nothing to be left out
        os.remove(victim)
    elif t in ("cut", "zero"):
        if not victim.endswith(".json"):
            return
        raw = disk.real_open(victim, "rb").read()
        G.write(victim, raw[:int(plan["frac"] * (len(raw.rstrip()) - 1))] if t == "cut" else b"")
    d = disk.SimDisk(os.getcwd(), ctx, faults, plan["bufsize"], plan["bufsize"], list_seed=plan["list_seed"])
    if t == "vanish":
        inside = [p for p in ins if os.path.dirname(p) in listed]
        if not inside:
            return
        victim = inside[int(plan["pick"] * len(inside))]
        vanish_after_listing(d, os.path.dirname(victim), victim)
    with d:
        o = cmds.run(w, "work/out.json")
    got = None
    if o.ok:
        got, why = world.read_json("work/out.json")
        if got is None:
            raise Violation("incomplete-output", f"{w['cmd']} succeeded but its output is {why}")
    verdict(plan, ctx, o, got, want, t, victim, w["cmd"], lambda a, b: cmds.compare(w, a, b))
    ctx.state(w["cmd"], t, victim.split("/")[0], int(plan["frac"] * 5), o.ok, len(w["parts"]))
    ctx.count("nontrivial")
    ctx.count("mode:cmd")


def shrink(plan):
    if plan["mode"] == "cmd":
        for w in G.shrink_spec(plan["world"], "spec"):
            n = G.clone(plan)
            n["world"] = w
            yield n
    elif all("rows" in f for s in plan["spec"]["sources"] for f in s["files"]):
        yield from G.shrink_spec(plan)
