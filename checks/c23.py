"""C23: an image export shows the exported mesh, completely, and touches nothing else."""
import json
import os
import pickle
import resource
import stat
import tempfile

from sim import disk, gen as G, history, oracle, sched, world
from sim.core import Violation
from checks import c07

TIERS = {"quick": {"runs": 500, "budget": 100, "min_runs": 40}, "thorough": {"runs": 20000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (mode, formats, resolutions, region kinds, fault, bystanders, schedule prefix) signature is new and in which at least one "
        "image was written or a fault took effect")
STATE_MEASURE = "distinct (mode, formats with parameters, region kinds, fault and outcome, schedule prefix) signatures"
REAL = ["EnvironmentMesh.save/to_tif/to_png, MeshPlotter, export_mesh_cli", "GDAL, matplotlib, cartopy"]
STUB = ["raw file layer (SimDisk)", "file size limit (RLIMIT_FSIZE) as full disk below GDAL", "thread scheduler"]
ASSUMPTIONS = ["pixel centres on the border of two cells are not judged", "values are whole numbers listed in the given colour table, so that no colour is interpolated",
               "reprojected images and default colours are compared with the same export done alone", "PNG exports are not made of meshes more than twice as wide as high"]
PROBES = ["fmt:TIF", "fmt:PNG", "mode:threads", "mode:interleave", "pixels", "png_cells", "fault:rlimit", "fault:write:error:ENOSPC", "cause:table", "cause:params",
          "cause:format", "cause:nodir", "fault:preemption", "region:antimeridian", "png_over_line"]

VALS = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90]
NOVAL = (1, 2, 3)
COLOURS = {v: (255 - 2 * v, (v * 7) % 256, 20 + v) for v in VALS + [1]}
COLOURS.update({1000: (9, 200, 7), 4000: (11, 13, 210)})
BYSTANDERS = ["grid_data", "grid_data.aux.xml", "work/grid_data", "work/grid_data.aux.xml", "work/grid_data.tif", "work/other.tif", "colours.txt", "tmp/note.txt"]


def prepare(tier=None):
    """Imports only: a thread is not to be pre-empted while it holds an import lock."""
    from osgeo import gdal, ogr, osr                       # noqa: F401
    import meshiphi.mesh_plotting.mesh_plotter             # noqa: F401
    import PIL.Image                                       # noqa: F401
    import PIL.PngImagePlugin                              # noqa: F401


def gen_mesh(rng, k, kinds):
    while True:
        r = G.region(rng, rng.choice(kinds), max_cells=4)
        if "global" in kinds or 0.4 < G.width(r) / (r["lat_max"] - r["lat_min"]) < 2.1:      # a plot is as wide as its mesh
            break
    if "global" in kinds and rng.random() < 0.1:           # most of the world, over the antimeridian
        w, n = rng.choice([(45, 5), (30, 7), (60, 4), (60, 5)])
        x0 = 180 - w * rng.choice([1, 2, 2.5])
        r.update(kind="antimeridian", cell_width=w, cell_height=10, long_min=x0, long_max=x0 + n * w - 360, lat_max=r["lat_min"] + 10 * rng.choice([1, 2]))
    sp = G.spec(rng, r, sources=[], depth=0)
    return {"spec": sp, "splits": [rng.randrange(10000) / 10000 for _ in range(rng.choice([0, 1, 1, 2]))],
            "seed": rng.randrange(10 ** 6), "holes": rng.random() < 0.3, "lists": rng.random() < 0.3,
            "big": rng.random() < 0.3, "ints": rng.random() < 0.3}


def kin(rng, m, first, fmt):
    """Give mesh m the same corner (or all) of the first mesh's region."""
    r = G.clone(first)
    how = rng.choice(["same", "taller", "wider", "coarser"])
    if how == "taller":
        r["lat_max"] += r["cell_height"] * rng.choice([1, 2])
    elif how == "wider" and r["kind"] != "global":
        r["long_max"] = G.wrap(r["long_max"] + r["cell_width"] * rng.choice([1, 2]))
    elif how == "coarser":
        r["cell_height"] /= 2
    if r["lat_max"] > 85 or (fmt == "PNG" and (r["kind"] == "global"
                                               or not 0.4 < G.width(r) / (r["lat_max"] - r["lat_min"]) < 2.1)):
        return
    if r["long_max"] < r["long_min"] and r["kind"] in ("plain", "rect"):
        r["kind"] = "antimeridian"
    m["spec"]["region"] = r


def gen(rng, tier, i):
    mode = rng.choices(["seq", "threads", "interleave"], [5, 3, 1])[0]
    n = rng.choice([1, 1, 2, 3]) if mode == "seq" else 2
    p = {"mode": mode, "meshes": [], "exports": [], "by": sorted(rng.sample(BYSTANDERS, rng.choice([0, 2, 4, 8]))),
         "pre": rng.random() < 0.4, "fault": None, "switches": [], "shrink_lists": ["exports", "by", "switches"]}
    for k in range(n):
        fmt = "PNG" if mode == "interleave" or rng.random() < 0.3 else "TIF"
        p["meshes"].append(gen_mesh(rng, k, ["plain", "rect", "antimeridian"] if fmt == "PNG" else ["plain", "rect", "antimeridian", "global"]))
        if fmt == "PNG":
            p["meshes"][k].update(holes=False, lists=False, big=False)
        if k and rng.random() < 0.4:                      # like the first mesh, but not the same
            kin(rng, p["meshes"][k], p["meshes"][0]["spec"]["region"], fmt)
        e = {"fmt": rng.choice([fmt, fmt.lower()]), "mesh": k, "out": rng.choice([f"o{k}", f"work/o{k}", f"work/a b{k}", f"work/x;y{k}"]) + "." + fmt.lower(),
             "via": "api" if mode != "seq" else rng.choice(["api", "cli"])}
        if fmt == "TIF":
            e["res"] = [rng.randint(1, 12), rng.randint(1, 12)]
            if rng.random() < 0.3:
                e["res"][1] = e["res"][0]
            if k and "res" in p["exports"][0] and rng.random() < 0.5:
                e["res"] = list(p["exports"][0]["res"])
            e["proj"] = rng.choices([None, "4326", "3857"], [5, 1, 2])[0]
            e["table"] = rng.random() < 0.8
            e["flag"] = rng.random() < 0.2
        else:
            e["cmap"] = rng.choice(["viridis", "Blues", "magma"])
            e["flag"] = rng.random() < 0.3
            e["again"] = rng.random() < 0.3
        p["exports"].append(e)
    if mode == "seq" and rng.random() < 0.5:
        p["fault"] = {"at": rng.randrange(n), "kind": rng.choice(["write", "write", "rlimit", "rlimit", "params", "badparams", "table", "nodir", "format"]),
                      "frac": rng.choice([0, 0.5, 0.9, 0.999, rng.randrange(1000) / 1000]), "op": rng.choice(["write", "write", "close", "open_w"]),
                      "errno": rng.choice(["ENOSPC", "EIO"])}
    if mode == "threads":
        if rng.random() < 0.35:
            for e in p["exports"]:
                e.update(table=False)                     # both with colours of their own
        p["switches"] = c07.schedule(rng, 1.0)
    return p


def make(m):
    import random
    rng = random.Random(m["seed"])
    em = world.must(world.load, world.must(world.build, G.config(m["spec"]), what="building").to_json(), what="loading")
    for f in m["splits"]:
        ids = sorted((int(c.get_id()) for c in em.agg_cellboxes))
        em.split_and_replace(str(ids[int(f * len(ids))]))
    for i in range(len(em.agg_cellboxes)):
        v = rng.choice(VALS)
        if m.get("big") and rng.random() < 0.4:
            v = rng.choice([1000, 4000])
        if m["lists"] and rng.random() < 0.4 and v >= 10 and v != 90:
            v = [v - 10.0, v + 10.0]
        elif m["lists"] and rng.random() < 0.1:
            v = [float("inf"), 10.0]
        d = {"flag": rng.random() < 0.5}
        if m.get("ints"):
            d["flag"] = int(d["flag"])
        if not (m["holes"] and rng.random() < 0.3):
            d["risk"] = v
        em.update_cellbox(i, d)
    return em


def params(e, k):
    """Write the parameter file of export k; -> its path."""
    if e["fmt"].upper() == "TIF":
        d = {"data_name": "flag" if e["flag"] else "risk", "sampling_resolution": e["res"]}
        if e["proj"]:
            d["projection"] = e["proj"]
        if e["table"]:
            d["colour_conf"] = f"table{k}.txt"
            with disk.real_open(f"table{k}.txt", "w") as f:
                for v in sorted(COLOURS):
                    f.write(f"{v} {' '.join(map(str, COLOURS[v]))}\n")
                f.write(f"nan {' '.join(map(str, NOVAL))}\n")
    else:
        d = {"cmaps": [{"data_name": "risk", "cmap": e["cmap"]}], "bools": [{"data_name": "flag", "colour": "red"}] if e["flag"] else []}
    world.dump(f"params{k}.json", d)
    return f"params{k}.json"


def image(path, fmt):
    """-> (array, placement) or raises OSError."""
    if fmt.upper() == "TIF":
        from osgeo import gdal
        d = gdal.Open(path)
        if d is None:
            raise OSError(f"{path} is not a readable GeoTIFF")
        gdal.ErrorReset()
        a = d.ReadAsArray()
        if a is None or gdal.GetLastErrorType() >= gdal.CE_Failure:
            raise OSError(f"{path}: {gdal.GetLastErrorMsg()}")
        return a.tolist(), [list(d.GetGeoTransform()), d.GetProjection()]
    from PIL import Image
    with disk.real_open(path, "rb") as f:
        im = Image.open(f)
        im.load()
        return [im.size, im.convert("RGBA").tobytes()], None


def export(em, e, k, out=None, fmt=None):
    out, fmt = out or e["out"], fmt or e["fmt"]
    if e["via"] == "cli":
        return world.cli("export_mesh_cli", f"mesh{k}.json", fmt, "-f", f"params{k}.json", "-o", out)
    return world.attempt(em.save, out, fmt, f"params{k}.json")


def alone(em, e, k):
    """The export done by a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.makedirs("alone", exist_ok=True)
            o = export(em, e, k, f"alone/{k}.{e['fmt'].lower()}")
            try:
                res = (o.ok, repr(o), image(f"alone/{k}.{e['fmt'].lower()}", e["fmt"]) if o.ok else None)
            except Exception as x:                       # noqa: BLE001
                res = (True, f"{type(x).__name__}: {x}", None)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    import shutil
    shutil.rmtree("alone", ignore_errors=True)
    if not b:
        raise Violation("export-died", f"exporting as {e['fmt']} killed the process")
    return pickle.loads(b)


def judge(em, m, e, got, ctx, name):
    """Absolute check of one image against the mesh's own JSON."""
    a, place = got
    js = em.to_json()
    cells = oracle.cells_of(js)
    r = m["spec"]["region"]
    if e["fmt"].upper() == "PNG":
        if not m["holes"] and not m["lists"]:
            judge_png(a, cells, r, e, ctx, name)
        return
    if not e["table"] or e["proj"] not in (None, "4326"):
        return
    L, C = e["res"]
    if len(a) != 3 or len(a[0]) != L or len(a[0][0]) != C:
        raise Violation("image-size", f"{name}: asked for {L} lines x {C} columns, got {len(a)} bands of {len(a[0])} x {len(a[0][0])}")
    w, h = G.width(r), r["lat_max"] - r["lat_min"]
    want = [r["long_min"], w / C, 0, r["lat_max"], 0, -h / L]
    if any(abs(x - y) > 1e-9 for x, y in zip(place[0], want)):
        raise Violation("image-place", f"{name}: image placed at {place[0]}, mesh is at {want}")
    layer = "flag" if e["flag"] else "risk"
    for i, j, lat, lon, c, v in pixels(cells, r, e):
        colour = NOVAL if v is None else COLOURS[int(v)]
        have = (a[0][i][j], a[1][i][j], a[2][i][j])
        if have != colour:
            raise Violation("wrong-pixel", f"{name}: pixel at line {i} column {j} ({lat}, {lon}) is {have}; cell {c} has {layer} {v!r}, colour {colour}")
        ctx.count("pixels")


def pixels(cells, r, e):
    """(line, column, lat, long, cell, value) of every pixel whose centre is clearly inside one cell."""
    L, C = e["res"]
    w, h = G.width(r), r["lat_max"] - r["lat_min"]
    for i in range(L):
        for j in range(C):
            lat, lon = r["lat_max"] - (i + 0.5) * h / L, G.wrap(r["long_min"] + (j + 0.5) * w / C)
            inside = [x for x, (b, _) in cells.items() if history.point_in_box(b, lat, lon, True)]
            if any(history.on_border(b, lat, lon) for b, _ in cells.values()) or near(cells, lat, lon) or not inside:
                continue
            v = cells[inside[0]][1].get("flag" if e["flag"] else "risk")
            if isinstance(v, list):
                v = sum(v) / len(v)
                v = None if v == float("inf") else v
            yield i, j, lat, lon, inside[0], v


def near(cells, lat, lon):
    for b, _ in cells.values():
        if min(abs(lat - b[0]), abs(lat - b[1])) < 1e-9:
            return True
        for x in (b[2], b[2] + b[3]):
            d = (lon - x) % 360
            if min(d, 360 - d) < 1e-9:
                return True
    return False


def judge_png(a, cells, r, e, ctx, name):
    import matplotlib
    (W, H), px = a
    vals = [v["risk"] for _, v in cells.values()]
    lo, hi = min(vals), max(vals)
    if lo == hi:
        return
    cm = matplotlib.colormaps[e["cmap"]]
    wd, ht = G.width(r), r["lat_max"] - r["lat_min"]
    # position of the map: found from its colours, not assumed - the bounding box of what is not page background
    xs, ys = [], []
    white = b"\xff\xff\xff\xff"
    row = W * 4
    for y in range(0, H):
        line = px[y * row:(y + 1) * row]
        if line != white * W:
            ys.append(y)
            first = next(x for x in range(W) if line[4 * x:4 * x + 4] != white)
            last = next(x for x in range(W - 1, -1, -1) if line[4 * x:4 * x + 4] != white)
            xs += [first, last]
    if not xs:
        raise Violation("empty-image", f"{name}: nothing is drawn")
    x0, x1, y0, y1 = min(xs), max(xs) + 1, min(ys), max(ys) + 1
    for i, (b, v) in cells.items():
        want = [round(255 * c) for c in cm((v["risk"] - lo) / (hi - lo))[:3]]
        if e["flag"] and v["flag"]:
            want = [255, 0, 0]
            ctx.count("png_flags")
        cy = y0 + (r["lat_max"] - (b[0] + b[1]) / 2) / ht * (y1 - y0)
        for f in (1 / 6, 5 / 6):                         # not at the centre: a cell in two parts has an edge there
            cx = x0 + ((b[2] - r["long_min"]) % 360 + b[3] * f) / wd * (x1 - x0)
            o = int(cy) * row + int(cx) * 4
            if any(abs(p - q) > 3 for p, q in zip(px[o:o + 3], want)):
                raise Violation("wrong-colour", f"{name}: cell {i} with value {v['risk']} {'and flag ' + str(v['flag']) if e['flag'] else ''} is drawn {list(px[o:o + 3])}, its colour is {want}")
        ctx.count("png_cells")


def same(a, b):
    return a == b


def run(plan, ctx):
    if not plan["exports"]:
        return
    prepare()
    for d in ("work", "tmp", "bin"):
        os.makedirs(d, exist_ok=True)
    os.environ["TMPDIR"] = os.path.abspath("tmp")
    tempfile.tempdir = os.path.abspath("tmp")
    ms = [make(m) for m in plan["meshes"]]
    ex = plan["exports"]
    for k, e in enumerate(ex):
        params(e, k)
        world.dump(f"mesh{k}.json", ms[e["mesh"]].to_json())
        ctx.count("region:" + plan["meshes"][e["mesh"]]["spec"]["region"]["kind"])
        ctx.count("fmt:" + e["fmt"].upper())
        ctx.count("png_over_line", int(e["fmt"].upper() == "PNG" and plan["meshes"][e["mesh"]]["spec"]["region"]["kind"] == "antimeridian"))
    before = [ms[e["mesh"]].to_json() for e in ex]
    before = [json.loads(json.dumps(b)) for b in before]
    first = disk.tree(".")
    refs = [alone(ms[e["mesh"]], e, k) for k, e in enumerate(ex)]
    for x, b in sorted(disk.tree(".").items()):
        if first.get(x) != b and not x.startswith("alone"):
            raise Violation("other-file-touched", f"exporting {[e['fmt'] for e in ex]} {'changed' if x in first else 'created'} {x}")
    for k, (e, (ok, why, im)) in enumerate(zip(ex, refs)):
        blank = e["fmt"].upper() == "TIF" and not any(
            x[5] is not None for x in pixels(oracle.cells_of(before[k]), plan["meshes"][e["mesh"]]["spec"]["region"], e))
        if not ok:
            if not (blank or e.get("proj")):         # GDAL may refuse a reprojection
                raise Violation("unexpected-error", f"exporting as {e['fmt']} ({e}) failed without any fault: {why}")
            ctx.count("refused")
        elif im is None:
            raise Violation("incomplete-output", f"exporting as {e['fmt']} reported success but its output is unreadable: {why}")
        else:
            judge(ms[e["mesh"]], plan["meshes"][e["mesh"]], e, im, ctx, f"export {k} ({e['fmt']})")
            ctx.count("nontrivial")
    for b in plan["by"]:
        os.makedirs(os.path.dirname(b) or ".", exist_ok=True)
        with disk.real_open(b, "w") as f:
            f.write("mine " + b)
    if plan["pre"]:
        for e in ex:
            with disk.real_open(e["out"], "w") as f:
                f.write("older image")
    snap = disk.tree(".")
    fault = plan["fault"]
    outcomes = []
    if plan["mode"] == "threads":
        s = sched.Sched(ctx, plan["switches"])
        res = s.run([(lambda k=k, e=e: export(ms[e["mesh"]], e, k)) for k, e in enumerate(ex)])
        for r in res:
            if r[0] != "ok":
                raise r[1] if isinstance(r[1], Violation) else Violation("interference", f"a concurrent export raised {r[1]!r}")
            outcomes.append(r[1])
        ctx.ev("schedule", s.trace_log)
        ctx.state("sched", s.trace_log[:40])
    elif plan["mode"] == "interleave":
        outcomes = interleave(ms, ex)
    else:
        for k, e in enumerate(ex):
            if fault and fault["at"] == k:
                outcomes.append(faulty(ms[e["mesh"]], e, k, fault, refs[k], ctx, snap))
                snap.update({x: y for x, y in disk.tree(".").items() if x.startswith(("params", "table", "bin"))})
            else:
                outcomes.append(export(ms[e["mesh"]], e, k))
    ctx.count("mode:" + plan["mode"])
    for k, (e, o, (ok, why, im)) in enumerate(zip(ex, outcomes, refs)):
        name = f"export {k} ({e['fmt']} to {e['out']!r} via {e['via']}, mode {plan['mode']})"
        hit = fault and fault["at"] == k and plan["mode"] == "seq"
        if not o.ok:
            if ok and not hit:
                raise Violation("export-failed", f"{name} failed ({o!r}), done alone it works")
            continue
        if not ok:
            raise Violation("export-differs", f"{name} succeeded, done alone it fails: {why}")
        try:
            got = image(e["out"], e["fmt"])
        except Exception as x:                           # noqa: BLE001
            raise Violation("incomplete-output", f"{name} reported success but the image is unreadable: {x}")
        if not same(got, im):
            raise Violation("export-differs", f"{name}: the image differs from the one exported alone" + (f" (fault {fault})" if hit else ""))
    # nothing else was touched
    after = disk.tree(".")
    outs = {os.path.normpath(e["out"]) for e in ex}
    for x in sorted(set(snap) | set(after)):
        if os.path.normpath(x) in outs:
            continue
        if snap.get(x) != after.get(x):
            what = "created" if x not in snap else "removed" if x not in after else "changed"
            raise Violation("other-file-touched", f"exporting {[e['fmt'] for e in ex]} {what} {x}")
    for k, e in enumerate(ex):
        d = oracle.same_mesh(json.loads(json.dumps(ms[e["mesh"]].to_json())), before[k])
        if d:
            raise Violation("export-changed-mesh", f"exporting as {e['fmt']} changed the mesh: {d}")
    ctx.state(plan["mode"], [[e["fmt"].upper(), e.get("res"), e.get("proj"), e.get("table"), e["via"]] for e in ex],
              [m["spec"]["region"]["kind"] for m in plan["meshes"]], [fault["kind"], int(fault["frac"] * 10)] if fault else None,
              [o.ok for o in outcomes], plan["by"])


def interleave(ms, ex):
    """Two plots of the same process prepared side by side, then saved."""
    from meshiphi.mesh_plotting.mesh_plotter import MeshPlotter

    def prep(e):
        p = MeshPlotter(ms[e["mesh"]].to_json())
        p.plot_cmap("risk", e["cmap"])
        if e["flag"]:
            p.plot_bool("flag", "red")
        return p
    ps = [world.attempt(prep, e) for e in ex]
    out = []
    for e, p in zip(ex, ps):
        out.append(world.attempt(p.value.save, e["out"]) if p.ok else p)
    return out


def faulty(em, e, k, f, ref, ctx, snap):
    kind = f["kind"]
    out = e["out"]
    if kind == "write":
        d0 = disk.SimDisk(os.getcwd(), ctx)
        with d0:
            export(em, e, k, f"work/dry.{e['fmt'].lower()}")
        n = sum(v for (op, rel), v in d0.counts.items() if op == f["op"] and rel.startswith("work/dry."))
        os.remove(f"work/dry.{e['fmt'].lower()}") if os.path.exists(f"work/dry.{e['fmt'].lower()}") else None
        d = disk.SimDisk(os.getcwd(), ctx, [{"op": f["op"], "on": out, "nth": min(max(0, n - 1), int(f["frac"] * n)), "kind": "error",
                                             "errno": f["errno"], "arg": 0}])
        with d:
            o = export(em, e, k)
        if not d.hard_fired and not o.ok and ref[0]:
            raise Violation("unexpected-error", f"export failed without a fault: {o!r}")
        return o
    if kind == "rlimit":
        o = export(em, e, k, "work/dry." + e["fmt"].lower())
        size = os.path.getsize("work/dry." + e["fmt"].lower()) if o.ok else 100
        if os.path.exists("work/dry." + e["fmt"].lower()):
            os.remove("work/dry." + e["fmt"].lower())
        lim = int(f["frac"] * size)
        with disk.real_open("bin/gdaldem", "w") as g:     # the same limit for a helper process, whose SIGXFSZ is reset to fatal
            g.write(f"#!/usr/bin/python3\nimport os,sys,signal,resource\nsignal.signal(signal.SIGXFSZ, signal.SIG_IGN)\n"
                    f"resource.setrlimit(resource.RLIMIT_FSIZE, ({lim}, -1))\nos.execv('/usr/bin/gdaldem', ['gdaldem'] + sys.argv[1:])\n")
        os.chmod("bin/gdaldem", stat.S_IRWXU)
        old = os.environ["PATH"]
        os.environ["PATH"] = os.path.abspath("bin") + ":" + old
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
        try:
            o = export(em, e, k)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            os.environ["PATH"] = old
        ctx.count("fault:rlimit")
        return o
    had = disk.tree(".").get(os.path.normpath(out))
    fmt = None
    path = None
    if kind == "params":
        os.remove(f"params{k}.json")
    elif kind == "badparams":
        with disk.real_open(f"params{k}.json", "w") as g:
            g.write('{"data_name": ')
    elif kind == "table":
        if not (e["fmt"].upper() == "TIF" and e["table"]):
            kind = "none"
        else:
            os.remove(f"table{k}.txt")
    elif kind == "nodir":
        path = "work/none/x." + e["fmt"].lower()
    elif kind == "format":
        fmt = "BMPX"
    ctx.count("cause:" + f["kind"])
    o = export(em, e, k, path, fmt)
    for x in (f"params{k}.json", f"table{k}.txt"):
        snap.pop(x, None)
    if kind == "none":
        return o
    if o.ok:
        raise Violation("failure-not-reported", f"export as {fmt or e['fmt']} with {kind} fault reported success")
    if disk.tree(".").get(os.path.normpath(out)) != had:
        raise Violation("failed-export-touched-output", f"export as {e['fmt']} failed on its parameters ({kind}) but changed {out}")
    return o


def shrink(plan):
    for i, m in enumerate(plan["meshes"]):
        for j in range(len(m["splits"])):
            n = G.clone(plan)
            del n["meshes"][i]["splits"][j]
            yield n
    if plan["pre"]:
        n = G.clone(plan)
        n["pre"] = False
        yield n
    for i, e in enumerate(plan["exports"]):
        for q in (0, 1):
            if e.get("res", [0, 0])[q] > 1:
                n = G.clone(plan)
                n["exports"][i]["res"][q] //= 2
                yield n
