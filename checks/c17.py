"""C17: a build divides exactly the cells that the delivered data and the splitting conditions call for."""
import math
import os

from checks import c13
from sim import disk, gen as G, nc, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 1500, "budget": 120, "min_runs": 40}, "thorough": {"runs": 40000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (region kind, sources with loaders and conditions, cells at each depth) signature is new and in which at least one cell was "
        "divided and at least one above the depth limit was not")
STATE_MEASURE = "distinct (region kind, per source: loader, files, conditions, locks; way of delivery; cells at each depth) signatures"
REAL = ["MeshBuilder, CellBox, Metadata, DataLoaderFactory", "scalar_csv, vector_csv, gebco, bsose_sic, bsose_depth, baltic_sic, sose, lut_csv, lut_geojson loaders and their abstract bases"]
STUB = ["raw file layer (SimDisk): short reads, listing order, buffer sizes"]
ASSUMPTIONS = ["records on the 180 degree meridian are given as 180; no polygon edges along cell borders; a blank value counts as a record for the minimum but not for the share; vectors have no blank components",
               "a source added to a builder after a build is combined with unlocked conditions only",
               "vector conditions: dmag only (curl needs an interpretation of the grid that the documentation does not give)"]
PROBES = ["divided", "kept:lock", "kept:few_records", "kept:lower", "kept:upper", "kept:depth", "kept:tie", "late_source", "two_conditions", "dmag", "lut", "at_world_edge", "grid", "blank_values",
          "fault:listing_order", "fault:read:short", "divided_over_antimeridian"]
BOUNDS = [(0, 1), (0, 0.5), (0.125, 0.875), (0.25, 0.75), (0.5, 1), (0, 0.75), (0.25, 0.5)]


def cond(rng, thr, lock=True):
    lo, hi = rng.choice(BOUNDS)
    c = {"threshold": thr, "lower_bound": lo, "upper_bound": hi}
    x = rng.random()
    if lock and x < 0.3:
        c["split_lock"] = True
    elif x < 0.4:
        c["split_lock"] = False
    return c


def gen(rng, tier, i):
    kind = ["plain", "antimeridian", "global", "rect", "plain", "plain"][i % 6]
    r = G.region(rng, kind, max_cells=6)
    if kind in ("plain", "rect") and rng.random() < 0.3:       # up to a pole or the antimeridian
        h, w = r["lat_max"] - r["lat_min"], r["long_max"] - r["long_min"]
        edge = rng.choice(["north", "south", "east", "west", "corner"])
        if edge in ("north", "corner"):
            r.update(lat_min=90 - h, lat_max=90)
        elif edge == "south":
            r.update(lat_min=-90, lat_max=h - 90)
        if edge in ("east", "corner"):
            r.update(long_min=180 - w, long_max=180)
        elif edge == "west":
            r.update(long_min=-180, long_max=w - 180)
    a = rng.randint(1, 20)
    window = [f"2020-01-{a:02d}", f"2020-01-{rng.randint(a, 28):02d}"]
    late = rng.random() < 0.15
    lock = not late
    sources = []
    for k in range(rng.choice([1, 2, 2, 3])):
        dd = rng.choice([None, G.DATES])
        c = rng.random()
        if c < 0.55:
            name = ["SIC", "elevation", "depth"][k]
            s = G.scalar_csv(rng, r, name, k, dates=dd, nfiles=rng.choice([1, 2, 3]), nrows=rng.choice([None, 8, 60]))
            whole = rng.random() < 0.5
            vals = []
            for f in s["files"]:
                f["rows"] += c13.border_rows(rng, r, rng.choice([0, 0, 3, 8]), lambda g: ([g.choice(dd)] if dd else []) + [round(g.uniform(0, 100), 2)])
                blank = rng.choice([0, 0, 0, 0.1, 0.5])
                odd = rng.choice([0, 0, 0, 0, 0, 0.2])
                for row in f["rows"]:
                    if whole:
                        row[-1] = int(row[-1]) // 10 * 10
                    vals.append(row[-1])
                    if rng.random() < blank:
                        row[-1] = ""
                    elif rng.random() < odd:
                        row[-1] = rng.choice(["inf", "inf", "-inf"])
            s["params"].pop("splitting_conditions", None)
            if rng.random() < 0.85:
                s["params"]["splitting_conditions"] = [
                    {name: cond(rng, rng.choice([rng.choice(vals), round(rng.uniform(20, 80), 1)]), lock)} for _ in range(rng.choice([1, 1, 2]))]
        elif c < 0.75:
            s = G.vector_csv(rng, r, k, dates=dd, nfiles=rng.choice([1, 2, 3]), nrows=rng.choice([None, 40]))
            if rng.random() < 0.85:
                s["params"]["splitting_conditions"] = [{s["name"]: {"dmag": cond(rng, round(rng.uniform(1, 9), 3), lock)}} for _ in range(rng.choice([1, 1, 2]))]
        elif kind in ("plain", "rect") and rng.random() < 0.5:
            s = nc.source(rng, rng.choice(["lut_csv", "lut_geojson"]), r, k, window)
            s["params"]["splitting_conditions"] = [{s["name"]: {"boundary": rng.random() < 0.85, "split_lock": False}}]
        else:
            ld = rng.choice(["gebco", "gebco", "bsose_sic", "bsose_depth", "baltic_sic", "sose"])
            s = nc.source(rng, ld, r, k, window, nodes=ld in c13.NODES and rng.random() < 0.4)
            lo, hi, scale, _ = c13.GRIDS[ld]
            if ld == "sose":
                s["params"]["splitting_conditions"] = [{s["name"]: {"dmag": cond(rng, round(rng.uniform(1, 5), 3), lock)}}]
            else:
                s["params"]["splitting_conditions"] = [{s["name"]: cond(rng, round(scale * rng.uniform(lo + (hi - lo) / 5, hi - (hi - lo) / 5), 4), lock)}]
                if rng.random() < 0.3:
                    for f in s["files"]:
                        f["gaps"] = rng.choice([0.1, 0.5])
        if any(o["name"] == s["name"] for o in sources):
            continue
        for f in s["files"]:
            if "rows" in f:
                rng.shuffle(f["rows"])
        if rng.random() < 0.4:
            rng.shuffle(s["files"])
        sources.append(s)
    late = late and len(sources) > 1 and sources[-1]["loader"] in ("scalar_csv", "vector_csv")
    if late:
        sources[-1]["via"] = "files"
    sp = {"region": r, "sources": sources, "window": window, "depth": rng.choice([0, 1, 2, 3, 3, 4]), "min_dp": rng.choice([0, 1, 2, 3, 5, 5, 8])}
    faults = [{"op": "read", "nth": rng.randint(0, 6), "on": "data*", "kind": "short", "arg": rng.randint(1, 40)} for _ in range(rng.randint(0, 3))]
    return {"spec": sp, "faults": faults, "list_seed": rng.randint(0, 9999), "bufsize": rng.choice([64, 512, 8192]), "late": late,
            "shrink_lists": ["faults", "spec/sources"]}


# -- reference model ---------------------------------------------------------
class Unsettled(Exception):
    """A comparison too close to call in floating point."""


def verdict(src, c, recs, box, min_dp, ctx):
    """'mixed', 'locked' or 'same' for one splitting condition of one source in one cell."""
    if "boundary" in c:
        if not c["boundary"]:
            return "same"
        ctx.count("lut")
        for f in src["files"]:
            for (y0, y1, x0, x1), _ in f["polys"]:
                x = box[2]
                inside = y0 < box[0] and box[1] < y1 and x0 < x and x + box[3] < x1
                apart = box[1] < y0 or y1 < box[0] or x + box[3] < x0 or x1 < x
                if not inside and not apart:
                    return "mixed"
                if box[1] == 90 or box[0] == -90 or x == -180 or x + box[3] == 180:
                    ctx.count("at_world_edge")
        return "same"
    vals = [v for y, x, v in recs if c13.inside(box, y, x)]
    if "dmag" in c:
        c = c["dmag"]
        ctx.count("dmag")
        if vals and len(vals) >= min_dp:
            m = [math.fsum(v[j] for v in vals) / len(vals) for j in (0, 1)]
            vals = [math.hypot(v[0] - m[0], v[1] - m[1]) for v in vals]
            if any(abs(v - c["threshold"]) < 1e-9 for v in vals):
                raise Unsettled
    else:
        vals = [v[0] for v in vals]
    if len(vals) < min_dp or not vals:
        ctx.count("kept:few_records")
        return "same"
    if None in vals:
        ctx.count("blank_values")
        vals = [v for v in vals if v is not None]
        if not vals:
            return "same"
    if any(v != c["threshold"] and abs(v - c["threshold"]) < 1e-9 * max(1, abs(v)) for v in vals):
        raise Unsettled
    share = sum(v > c["threshold"] for v in vals) / len(vals)
    if share in (c["lower_bound"], c["upper_bound"]) and share not in (0, 1):
        ctx.count("kept:tie")
    if share <= c["lower_bound"]:
        ctx.count("kept:lower")
        return "same"
    if share >= c["upper_bound"]:
        ctx.count("kept:upper")
        return "locked" if c.get("split_lock") else "same"
    return "mixed"


def quarters(b):
    y0, y1, x0, w = b
    m = (y0 + y1) / 2
    return [oracle.norm(p, q, x, w / 2) for p, q in ((y0, m), (m, y1)) for x in (x0, x0 + w / 2)]


def refine(leaves, sources, data, depth, min_dp, ctx):
    """leaves: {box: depth} -> {box: depth} after one build with these sources."""
    memo = {}

    def look(k, j, c, b):
        if (k, j, b) not in memo:
            memo[k, j, b] = verdict(sources[k], c, data[k], b, min_dp, ctx)
        return memo[k, j, b]
    conds = [[list(c.values())[0] for c in s["params"].get("splitting_conditions", [])] for s in sources]
    for k in range(len(sources)):
        if not conds[k]:
            continue
        todo = list(leaves.items())
        leaves = {}
        while todo:
            b, d = todo.pop()
            seen = [look(q, j, c, b) for q in range(k + 1) for j, c in enumerate(conds[q])]
            if "mixed" in seen and "locked" not in seen and d < depth:
                todo += [(q, d + 1) for q in quarters(b)]
                ctx.count("divided")
                if b[2] + b[3] > 180:
                    ctx.count("divided_over_antimeridian")
            else:
                leaves[b] = d
                if "mixed" in seen:
                    ctx.count("kept:lock" if "locked" in seen else "kept:depth")
    return leaves


def initial(r):
    nx, ny = G.grid(r)
    w, h = float(r["cell_width"]), float(r["cell_height"])
    return {oracle.norm(r["lat_min"] + j * h, r["lat_min"] + (j + 1) * h, r["long_min"] + i * w, w): 0 for i in range(nx) for j in range(ny)}


def run(plan, ctx):
    sp = plan["spec"]
    r = sp["region"]
    c13.materialise(sp)
    cfg = G.config(sp)
    late = c13.is_late(plan)
    d = disk.SimDisk(os.getcwd(), ctx, plan["faults"], bufsize=plan["bufsize"], list_seed=plan["list_seed"])
    with d:
        if late:
            ctx.count("late_source")
            last = cfg["data_sources"].pop()
            m = world.must(world.build_late, cfg, last, sp["min_dp"], what="building the mesh, adding a data source and building again")
        else:
            m = world.must(world.build, cfg, what="building the mesh")
    js = world.must(m.to_json, what="converting the mesh")
    got = [b for b, _ in oracle.cells_of(js).values()]
    data = [[] if "polys" in s["files"][0] else c13.records(s, sp["window"]) for s in sp["sources"]]
    for s in sp["sources"]:
        if s["loader"] in c13.GRIDS:
            ctx.count("grid")
        if len(s["params"].get("splitting_conditions", [])) > 1:
            ctx.count("two_conditions")
    try:
        leaves = initial(r)
        if late:
            leaves = refine(leaves, sp["sources"][:-1], data[:-1], sp["depth"], sp["min_dp"], ctx)
        leaves = refine(leaves, sp["sources"], data, sp["depth"], sp["min_dp"], ctx)
    except Unsettled:
        ctx.count("unsettled")
        return
    if sorted(got) != sorted(leaves):
        over = sorted(set(got) - set(leaves))
        missing = sorted(set(leaves) - set(got))
        for b in missing:
            if any(oracle.contains(b, g) for g in over):
                raise Violation("divided-without-cause", f"cell {b} (depth {leaves[b]}) was divided: {explain(sp, data, b)}")
        for g in over:
            if any(oracle.contains(g, b) for b in missing):
                raise Violation("not-divided", f"cell {g} was not divided although the data calls for it: {explain(sp, data, g)}; "
                                f"depth limit {sp['depth']}, minimum {sp['min_dp']}")
        raise Violation("other-cells", f"cells {over[:3]} instead of {missing[:3]}")
    hist = {}
    for b, dp in leaves.items():
        hist[dp] = hist.get(dp, 0) + 1
    ctx.ev("mesh", oracle.canon(js))
    ctx.state(r["kind"], late, sorted((s["loader"], len(s["files"]), s["via"], str(s["params"].get("splitting_conditions"))) for s in sp["sources"]), sorted(hist.items()))
    if len(hist) > 1 and any(dp < sp["depth"] for dp in hist):
        ctx.count("nontrivial")


class _Mute:
    def count(self, *a):
        pass


def explain(sp, data, b):
    out = []
    for s, recs in zip(sp["sources"], data):
        for c in s["params"].get("splitting_conditions", []):
            v = list(c.values())[0]
            ins = [x for y, q, x in recs if c13.inside(b, y, q)]
            out.append(f"{s['name']} ({s['loader']}) {v}: {verdict(s, v, recs, b, sp['min_dp'], _Mute())} with {len(ins)} records {ins[:8]}")
    return "; ".join(out)


def shrink(plan):
    if all("rows" in f for s in plan["spec"]["sources"] for f in s["files"]):
        yield from G.shrink_spec(plan)
