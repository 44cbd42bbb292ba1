"""The user-visible operations that read a few files and produce one output file."""
import contextlib
import fnmatch
import os

from . import clock, disk, gen, oracle, world
from .core import Violation

KINDS = ["create", "rebuild", "merge", "merged", "export_json", "export_geojson", "save_json", "save_geojson"]
DEFAULT_OUT = {"create": "create_mesh.output.json", "rebuild": "rebuild_mesh.output.json",
               "merge": "merged_mesh.output.json", "merged": "merged_mesh.output.json",
               "export_json": "mesh.json", "export_geojson": "mesh_geo.json"}


def sub_region(rng, r, finer=True):
    """A region aligned with r's base grid and inside it."""
    nx, ny = gen.grid(r)
    mx = max(1, min(nx, int(120 // r["cell_width"])))
    cx = rng.randint(1, mx)
    cy = rng.randint(1, ny)
    ox, oy = rng.randint(0, nx - cx), rng.randint(0, ny - cy)
    if cx == nx and cy == ny and nx * ny > 1 and rng.random() < 0.7:
        if nx > 1:
            cx, ox = cx - 1, rng.randint(0, 1)
        else:
            cy, oy = cy - 1, rng.randint(0, 1)
    w, h = r["cell_width"], r["cell_height"]
    x0 = gen.wrap(r["long_min"] + ox * w)
    if x0 == 180:
        x0 = -180
    x1 = x0 + cx * w
    if x1 > 180:
        x1 -= 360
    f = rng.choice([1, 1, 2]) if finer else 1
    g = rng.choice([f, f, 1, 2, 4]) if finer else 1
    return dict(kind="sub", long_min=x0, long_max=x1, lat_min=r["lat_min"] + oy * h,
                lat_max=r["lat_min"] + (oy + cy) * h, cell_width=w / f if f > 1 else w,
                cell_height=h / g if g > 1 else h)


def gen_world(rng, kinds=KINDS, kind=None, region_kind=None, small=True):
    kind = kind or rng.choice(kinds)
    r = gen.region(rng, region_kind, max_cells=6 if small else 12)
    sp = gen.spec(rng, r)
    w = {"cmd": kind, "spec": sp, "parts": []}
    if kind in ("merge", "merged"):
        n = 1 if kind == "merge" else rng.randint(1, 3)
        for i in range(n):
            s2 = gen.spec(rng, sub_region(rng, r), depth=rng.choice([0, 1, 1]))
            for s in s2["sources"]:
                for f in s["files"]:
                    f["path"] = f["path"].replace("data/", f"data{i + 2}/")
            w["parts"].append({"name": f"{rng.choice('abxyzMNT01')}{rng.randint(0, 99)}_{i}.json", "spec": s2})
    if kind == "export_geojson":
        w["layer"] = rng.random() < 0.3
    w["order"] = rng.choice(["name", "reverse"])
    if rng.random() < (0.3 if kind == "create" else 0.2):
        sp["window"] = [rng.choice(["TODAY", "TODAY - 3", "TODAY-20"]), rng.choice(["TODAY", "TODAY + 2", "TODAY+30"])]
        w["now"] = rng.choice(["2020-01-05T12:00:00", "2020-02-29T23:59:58", "2019-12-31T08:00:00"])
    return w


_ctx = None


def clocked(w):
    """The time of day a world with relative dates lives in."""
    return clock.Clock(_ctx, w["now"]) if w.get("now") else contextlib.nullcontext()


def setup(w, ctx):
    """Write all input files (unshimmed, fault free)."""
    global _ctx
    _ctx = ctx
    with clocked(w):
        _setup(w, ctx)


def _setup(w, ctx):
    gen.materialise(w["spec"])
    cfg = gen.config(w["spec"])
    world.dump("config.json", cfg)
    if w["cmd"] != "create":
        m1 = world.must(world.build, cfg, what="building the input mesh").to_json()
        world.dump("m1.json", m1)
    if w["parts"]:
        os.makedirs("parts", exist_ok=True)
    for p in w["parts"]:
        gen.materialise(p["spec"])
        m = world.must(world.build, gen.config(p["spec"]), what="building the second mesh").to_json()
        world.dump(os.path.join("parts", p["name"]), m)
    if w.get("layer"):
        names = [s["name"] for s in w["spec"]["sources"] if "," not in s["name"]]
        world.dump("params.json", {"data_name": names[0] if names else "SIC"})
    os.makedirs("work", exist_ok=True)


def inputs(w):
    """Files the command reads."""
    out = []
    if w["cmd"] == "create":
        out.append("config.json")
    else:
        out.append("m1.json")
    if w["cmd"] in ("create", "rebuild"):
        out += [f["path"] for s in w["spec"]["sources"] for f in s["files"]]
    out += ["parts/" + p["name"] for p in w["parts"]]
    if w.get("layer"):
        out.append("params.json")
    return out


def run(w, out, mesh=None):
    """Execute the command -> Outcome.  out: path, or None for the default output name."""
    with clocked(w):
        return _run(w, out, mesh)


def _run(w, out, mesh):
    k = w["cmd"]
    o = ["-o", out] if out else []
    if k == "create":
        return world.cli("create_mesh_cli", "config.json", *o)
    if k == "rebuild":
        return world.cli("rebuild_mesh_cli", "m1.json", *o)
    if k == "merge":
        return world.cli("merge_mesh_cli", "m1.json", "parts/" + w["parts"][0]["name"], *o)
    if k == "merged":
        return world.cli("merge_mesh_cli", "m1.json", "parts", "-d", *o)
    if k == "export_json":
        return world.cli("export_mesh_cli", "m1.json", "json", *o)
    if k == "export_geojson":
        extra = ["-f", "params.json"] if w.get("layer") else []
        return world.cli("export_mesh_cli", "m1.json", "geojson", *extra, *o)
    if k in ("save_json", "save_geojson"):
        fmt = "JSON" if k == "save_json" else "GEOJSON"
        if mesh is None:
            m = world.attempt(lambda: world.load_file("m1.json")[0])
            if not m.ok:
                return m
            mesh = m.value
        return world.attempt(mesh.save, out, fmt)
    raise ValueError(k)


def compare(w, got, want):
    """None if two outputs of the command denote the same result."""
    if w["cmd"].endswith("geojson"):
        return same_geojson(got, want)
    try:
        return oracle.same_mesh(got, want)
    except (KeyError, TypeError, AttributeError) as e:
        return f"not a mesh: {type(e).__name__} {e}"


def alike(mesh):
    """The same mesh with other values, so that its file has the same length and layout."""
    m = gen.clone(mesh)
    cells = [f["properties"] for f in m["features"]] if "features" in m else m["cellboxes"]
    for c in cells:
        for k in c:
            if k not in ("geometry", "cx", "cy", "dcx", "dcy", "id"):
                c[k] = gen.alike_value(c[k])
    return m


def same_geojson(a, b):
    try:
        fa = {str(f["properties"].get("id", f.get("id"))): f for f in a["features"]}
        fb = {str(f["properties"].get("id", f.get("id"))): f for f in b["features"]}
        if a["type"] != b["type"] or len(a["features"]) != len(b["features"]):
            return f"{len(a['features'])} vs {len(b['features'])} features"
    except (KeyError, TypeError, AttributeError) as e:
        return f"not a GeoJSON feature collection: {e}"
    for k in fb:
        if k not in fa:
            return f"feature {k} missing"
        if fa[k]["geometry"] != fb[k]["geometry"] or not oracle.same_value(fa[k]["properties"], fb[k]["properties"]):
            return f"feature {k} differs: {fa[k]} vs {fb[k]}"
    return None


def reference(w, ctx, out="work/ref.json"):
    """The fault-free result of the command, and how many file events it takes."""
    d = disk.SimDisk(os.getcwd(), ctx, bufsize=w.get("bufsize", 8192), chunk=w.get("chunk", 8192))
    with d:
        o = run(w, out)
    if not o.ok:
        raise Violation("unexpected-error", f"{w['cmd']} failed without any injected fault: {o!r}")
    want, why = world.read_json(out)
    if want is None:
        raise Violation("incomplete-output", f"{w['cmd']} reported success but its output is {why}")
    os.remove(out)
    return want, d


def indirect(counts, out="work/ref.json"):
    """Does the command write its output under another name first?"""
    return not any(op == "write" and rel == out for op, rel in counts) and any(op == "write" for op, _ in counts)


def resolve(faults, counts):
    """Turn fractional positions into event numbers: frac of the events of that op seen fault-free."""
    out = []
    aside = indirect(counts)
    for f in faults:
        f = dict(f)
        if aside and f["op"] in ("write", "close", "open_w"):
            f["on"] = f["count"] = "*"
        if "frac" in f and "nth" not in f:
            n = sum(v for (op, rel), v in counts.items() if op == f["op"] and fnmatch.fnmatch(rel, f.get("count", "*")))
            f["nth"] = min(max(0, n - 1), int(f["frac"] * n))
        out.append(f)
    return out
