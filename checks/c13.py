"""C13: every cell holds the requested aggregate of exactly the records inside it."""
import math
import os
import statistics

from sim import disk, gen as G, nc, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 2000, "budget": 120, "min_runs": 40}, "thorough": {"runs": 40000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (region kind, loader kinds, aggregates, fill rules, file partition, emptiness) signature is new and in which at "
        "least one cell had records and was compared with the reference aggregation")
STATE_MEASURE = "distinct (region kind, per source: loader, aggregate, fill, number of files, via, dated; cells at each depth, empty cells) signatures"
REAL = ["MeshBuilder, CellBox, Metadata, DataLoaderFactory", "scalar_csv, vector_csv, gebco, modis, bsose_sic, bsose_depth, baltic_sic, sose, oras5_currents, northsea_currents, baltic_currents, era5 wave and wind, duacs_currents, lut_csv, lut_geojson, lut_shapefile, scotland_ncmpa loaders and their abstract bases"]
STUB = ["raw file layer (SimDisk): short reads, listing order, buffer sizes"]
ASSUMPTIONS = ["which cells a build splits into is taken from its result (that rule is not part of this property)",
               "records exactly on the 180 degree meridian are given as 180, not as -180", "gridded sources: MIN, MAX, MEAN, MEDIAN only"]
PROBES = ["empty_cells", "filled_from_parent", "filled_with_value", "cells_over_antimeridian", "border_records", "fault:listing_order", "fault:read:short",
          "agg:MIN", "agg:MAX", "agg:MEAN", "agg:MEDIAN", "agg:STD", "agg:COUNT", "vector_cells", "blank_values", "grid_cells", "grid_gaps", "grid_over_antimeridian", "late_source", "earlier_contents", "fill_given_as_text", "same_quantity_twice", "lut_cells", "lut_gaps"]


# gridded sources: range of the stored values, factor to the delivered ones, factor of the second component
GRIDS = {"gebco": (-100, 100, 1, 0), "modis": (0, 100, 1, 0), "bsose_sic": (0, 1, 100, 0), "bsose_depth": (0, 1000, -1, 0), "baltic_sic": (0, 100, 1, 0),
         "sose": (0.1, 5, 1, 2), "oras5_currents": (0.1, 5, 1, 2), "northsea_currents": (0.1, 5, 1, 2), "baltic_currents": (0.1, 5, 1, 2),
         "era5_sig_wave_height": (0.5, 60, 1, 0), "era5_max_wave_height": (0.5, 60, 1, 0), "era5_wave_dir": (0.5, 60, 1, 0), "era5_wave_period": (0.5, 60, 1, 0),
         "era5_wind": (0.5, 60, 1, 2), "duacs_currents": (0.1, 5, 1, 2)}
NODES = ("gebco", "modis", "sose", "oras5_currents", "baltic_sic")         # positions are used as they are in the file


def border_rows(rng, r, n, rest):
    """Records exactly on cell borders (never on the antimeridian)."""
    nx, ny = G.grid(r)
    out = []
    for _ in range(n):
        d = 2 ** rng.randint(0, 2)
        y, x = G.point_in(rng, r)
        if rng.random() < 0.6:
            y = r["lat_min"] + r["cell_height"] / d * rng.randint(0, ny * d)
        if rng.random() < 0.6:
            x = G.wrap(r["long_min"] + r["cell_width"] / d * rng.randint(0, nx * d))
        if x == -180 or abs(y) > 90:
            continue
        if rng.random() < 0.25:                          # a hair off the border
            y, x = y + rng.choice([-1e-6, 1e-6, 0]), x + rng.choice([-1e-6, 1e-6, 0])
            if abs(y) > 90 or abs(x) > 180:
                continue
        out.append([float(y), float(x)] + rest(rng))
    return out


def lut_source(rng, r, k, window):
    """Polygons with values: boxes anywhere, all of one cell, or all of the region."""
    s = nc.source(rng, rng.choice(["lut_csv", "lut_csv", "lut_geojson", "lut_shapefile", "scotland_ncmpa"]), r, k, window, cover=rng.random() < 0.4)
    if rng.random() < 0.6:
        for f in rng.sample(s["files"], rng.choice([1, len(s["files"])])):
            f["polys"].insert(rng.randint(0, len(f["polys"])), [[max(-90, r["lat_min"] - 1.01), min(90, r["lat_max"] + 1.01), r["long_min"] - 1.01, r["long_max"] + 1.01],
                                                                rng.choice([5.5, round(rng.uniform(1, 9), 1)])])
    aggs = ["MIN", "MAX"]
    if "value" in s["params"] and rng.random() < 0.5:
        s["params"]["value"] = rng.choice([True, False])
    elif s["loader"] != "scotland_ncmpa":
        aggs += ["MEAN", "STD", "MEDIAN"]
    s["params"]["aggregate_type"] = rng.choice(aggs)
    if rng.random() < 0.7:
        s["params"]["splitting_conditions"] = [{s["name"]: {"boundary": True, "split_lock": False}}]
    return s


def gen(rng, tier, i):
    kind = ["plain", "antimeridian", "global", "rect", "antimeridian", "plain"][i % 6]
    r = G.region(rng, kind, max_cells=8)
    dates = rng.choice([None, G.DATES, G.DATES])
    a = rng.randint(1, 20)
    window = [f"2020-01-{a:02d}", f"2020-01-{rng.randint(a, 28):02d}"]
    sources = []
    for k in range(rng.choice([1, 1, 2])):
        fill = rng.choice([None, None, "parent", 0.0, -7.5, "parent", rng.choice([0, 3, "0.0", "-7.5", "nan", "zero", "parent"])])
        dd = dates if rng.random() < 0.8 else None
        if dd and rng.random() < 0.3:                    # with a time of day; a window ends at the start of its last day
            dd = [x if rng.random() < 0.4 else f"{x} {rng.randint(0, 23):02d}:{rng.choice(['00', '30'])}:00" for x in dd]
        c = rng.random()
        if c < 0.5 or (k and c < 0.75 and any("," in s["name"] for s in sources)):
            s = G.scalar_csv(rng, r, ["SIC", "SIC" if rng.random() < 0.3 else "elevation"][k], k, dates=dd, nfiles=rng.choice([1, 2, 3, 4]), agg=rng.choice(G.AGGS), fill=fill)
            for f in s["files"]:
                f["rows"] += border_rows(rng, r, rng.choice([0, 0, 3, 8]), lambda g: ([g.choice(dd)] if dd else []) + [round(g.uniform(0, 100), 2)])
                if rng.random() < 0.15:
                    for row in f["rows"]:
                        if rng.random() < 0.2:
                            row[-1] = ""
                elif rng.random() < 0.15:
                    for row in f["rows"]:
                        row[-1] = int(row[-1])
        elif c < 0.75:
            s = G.vector_csv(rng, r, k, dates=dd, nfiles=rng.choice([1, 2, 3]), agg=rng.choice(["MIN", "MAX", "MEAN", "STD", "COUNT"]), fill=fill)
            whole = rng.random() < 0.2
            blanks = rng.choice([(0.25, 0.25), (0.7, 0.7), (0.9, 0.1), (0, 0.8)]) if not whole and s["params"]["aggregate_type"] != "COUNT" and rng.random() < 0.3 else None
            for f in s["files"]:
                f["rows"] += border_rows(rng, r, rng.choice([0, 0, 3, 8]),
                                         lambda g: ([g.choice(dd)] if dd else []) + [round(g.uniform(-9, 9), 2), round(g.uniform(-9, 9), 2)])
                for row in f["rows"]:
                    if whole:
                        row[-2:] = [int(row[-2]), int(row[-1])]
                    if blanks:
                        for j in (-2, -1):
                            if rng.random() < blanks[j]:
                                row[j] = ""
        elif r["kind"] != "antimeridian" and c < 0.85:
            s = lut_source(rng, r, k, window)
            if fill is not None:
                s["params"]["value_fill_types"] = fill
        else:
            ld = rng.choice(list(GRIDS))
            s = nc.source(rng, ld, r, k, window, nodes=ld in NODES and rng.random() < 0.5)
            s["params"]["aggregate_type"] = rng.choice(["MIN", "MAX", "MEAN"] + (["MEDIAN"] if "," not in s["name"] else []))
            s["params"]["value_fill_types"] = rng.choice(["parent", "parent", -7.5, "nan"])
            if "," not in s["name"]:
                if ld != "modis" and rng.random() < 0.3:
                    for f in s["files"]:
                        f["gaps"] = rng.choice([0.1, 0.5, 0.95])
                if rng.random() < 0.7:
                    lo, hi, a, b = GRIDS[ld]
                    s["params"]["splitting_conditions"] = [{s["name"]: {"threshold": (a * lo + a * hi) / 2, "lower_bound": 0.1, "upper_bound": 0.9}}]
        if any(o["name"] == s["name"] for o in sources) and "," in s["name"]:
            continue
        for f in s["files"]:
            if "rows" in f:
                if rng.random() < 0.4:
                    order = list(range(len(f["cols"])))
                    rng.shuffle(order)
                    if "," in s["name"]:               # component columns are taken in file order
                        order.sort(key=lambda j: (f["cols"][j] in s["name"].split(","), j if f["cols"][j] in s["name"].split(",") else 0))
                    f["cols"] = [f["cols"][j] for j in order]
                    f["rows"] = [[row[j] for j in order] for row in f["rows"]]
                if f["rows"] and rng.random() < 0.3:           # records given twice, and several at one place
                    ix = {c: j for j, c in enumerate(f["cols"])}
                    for _ in range(rng.randint(1, 6)):
                        row = list(rng.choice(f["rows"]))
                        if rng.random() < 0.5:
                            other = rng.choice(f["rows"])
                            row[ix["lat"]], row[ix["long"]] = other[ix["lat"]], other[ix["long"]]
                        rng.choice(s["files"])["rows"].append(row) if all(g["cols"] == f["cols"] for g in s["files"]) else f["rows"].append(row)
                rng.shuffle(f["rows"])
        if s["loader"] == "scalar_csv" and s["params"]["aggregate_type"] != "COUNT" and rng.random() < 0.2:
            how = rng.choice(["negative", "tiny", "huge", "zeros"])
            for f in s["files"]:
                j = f["cols"].index(s["name"])
                for row in f["rows"]:
                    if isinstance(row[j], float):
                        row[j] = {"negative": -row[j], "tiny": row[j] * 1e-3, "huge": 1e6 + row[j], "zeros": 0.0 if rng.random() < 0.5 else row[j]}[how]
        if rng.random() < 0.4:
            rng.shuffle(s["files"])
        sources.append(s)
    sp = {"region": r, "sources": sources, "window": window, "depth": rng.choice([0, 1, 2, 2, 3]), "min_dp": rng.choice([1, 2, 3, 5])}
    late = len(sources) > 1 and sources[-1]["loader"] in ("scalar_csv", "vector_csv") and rng.random() < 0.25
    if late:
        sources[-1]["via"] = "files"
    faults = [{"op": "read", "nth": rng.randint(0, 6), "on": "data*", "kind": "short", "arg": rng.randint(1, 40)} for _ in range(rng.randint(0, 4))]
    return {"spec": sp, "faults": faults, "list_seed": rng.randint(0, 9999), "bufsize": rng.choice([64, 512, 8192]), "late": late,
            "before": rng.random() < 0.2, "shrink_lists": ["faults", "spec/sources"]}


# -- reference model ---------------------------------------------------------
def records(src, window):
    """[(lat, long, (values...))] of a source inside the time window; blank values are None."""
    names = src["name"].split(",")
    out = []
    for f in src["files"]:
        if "polys" in f:
            continue
        if "rows" in f:
            ix = {c: j for j, c in enumerate(f["cols"])}
            for row in f["rows"]:
                if "time" in ix and not (window[0] <= row[ix["time"]] <= window[1]):
                    continue
                out.append((row[ix["lat"]], row[ix["long"]], tuple(None if row[ix[n]] == "" else float(row[ix[n]]) for n in names)))
        else:
            lo, hi, scale, second = GRIDS[src["loader"]]
            lat, lon = f["lat"], f["lon"]
            if "times" in f:
                ts = [window[0] <= t[:10] <= window[1] for t in f["times"]]
                v = nc._vals(f, (len(ts), 1, len(lat), len(lon)) if src["loader"] == "baltic_currents" else (len(ts), len(lat), len(lon)), lo, hi)
                v = [w for w, t in zip(v, ts) if t]
                if src["loader"] == "baltic_currents":               # averaged over the window, see below
                    v = [w[0] for w in v]
                if src["loader"] == "baltic_sic" or src["loader"].startswith("era5"):
                    lat = lat[::-1]
            else:
                v = [nc._vals(f, (len(lat), len(lon)), lo, hi)]
            hidden = nc.cloud(f) if src["loader"] == "modis" else None
            for w in v:
                for a, y in enumerate(lat):
                    for b, x in enumerate(lon):
                        x0 = float(w[a][b]) * scale
                        if math.isnan(x0) or (hidden is not None and hidden[a][b]):
                            x0 = None
                        out.append((y, x, (x0,) if len(names) == 1 else (x0, x0 * second)))
    if src["loader"] == "baltic_currents":
        at = {}
        for y, x, v in out:
            at.setdefault((y, x), []).append(v)
        out = [(y, x, tuple(statistics.fmean(q) for q in zip(*v))) for (y, x), v in at.items()]
    return out


def inside(b, y, x):
    """On a border the record belongs to the cell whose northern / eastern border it is."""
    if not b[0] < y <= b[1]:
        return False
    off = (x - b[2]) % 360
    return 0 < off <= b[3] or (off == 0 and b[3] == 360)


def aggregate(agg, recs, names):
    """-> tuple of values, None = no value; or a list of admissible tuples."""
    if len(names) == 1:
        v = [r[0] for r in recs if r[0] is not None]
        if agg == "COUNT":
            return [(float(len(v)),)]
        if not v or (agg == "STD" and len(v) < 2):
            return [(None,)]
        return [({"MIN": min, "MAX": max, "MEAN": statistics.fmean, "MEDIAN": statistics.median, "STD": statistics.stdev}[agg](v),)]
    if agg == "COUNT":
        return [(len(recs) or None,) * len(names)]
    if agg in ("MIN", "MAX"):
        recs = [r for r in recs if None not in r]
        if not recs:
            return [(None,) * len(names)]
        m = [math.hypot(*r) for r in recs]
        ext = min(m) if agg == "MIN" else max(m)
        return [r for r, q in zip(recs, m) if abs(q - ext) <= 1e-9]
    out = []
    for j in range(len(names)):
        v = [r[j] for r in recs if r[j] is not None]
        out.append(None if len(v) < (1 if agg == "MEAN" else 2) else (statistics.fmean if agg == "MEAN" else statistics.stdev)(v))
    return [tuple(out)]


def ancestors(b, region):
    """Strict ancestors of a cell, nearest first, up to the initial grid."""
    w0, h0 = float(region["cell_width"]), float(region["cell_height"])
    out = []
    w, h = b[3], b[1] - b[0]
    while w < w0:
        w, h = w * 2, h * 2
        kx = math.floor(((b[2] - region["long_min"]) % 360) / w)
        ky = math.floor((b[0] - region["lat_min"]) / h)
        out.append(oracle.norm(region["lat_min"] + ky * h, region["lat_min"] + (ky + 1) * h, region["long_min"] + kx * w, w))
    return out


def lut_value(src, b):
    """Admissible values of a polygon look-up for a cell: the polygons that touch it, each weighted by what it covers of the cell; none where a part is in no polygon."""
    import shapely
    agg = src["params"]["aggregate_type"]
    cell = shapely.box(b[2], b[0], b[2] + b[3], b[1])
    polys = [(shapely.box(x0, y0, x1, y1), src["params"].get("value", True) if src["loader"] != "lut_csv" else v)
             for f in src["files"] for (y0, y1, x0, x1), v in f["polys"]]
    rest = shapely.box(-180, -90, 180, 90).difference(shapely.union_all([p for p, v in polys]))
    if rest.intersects(cell):
        other = not polys[0][1] if isinstance(polys[0][1], bool) else None
        if other is None:
            return [None]
        polys.append((rest, other))
    hit = [(float(v), p.intersection(cell).area) for p, v in polys if p.intersects(cell)]
    if agg in ("MIN", "MAX"):
        return [(min if agg == "MIN" else max)(v for v, a in hit)]
    total = sum(a for v, a in hit)
    mean = sum(v * a for v, a in hit) / total
    if agg == "MEAN":
        return [mean]
    if agg == "STD":
        return [math.sqrt(sum(a * (v - mean) ** 2 for v, a in hit) / total)]
    out, acc = [], 0.0
    for v, a in sorted(hit):
        if a and acc + a >= total / 2 * (1 - 1e-9) and acc <= total / 2 * (1 + 1e-9):
            out.append(v)
        acc += a
    return out


def expected_lut(src, b, region, ctx):
    """A missing value stays missing in the ancestors, since they lie over the same gap."""
    val = lut_value(src, b)
    if val[0] is not None:
        ctx.count("lut_cells")
        return [(v,) for v in val], False
    fill = src["params"].get("value_fill_types", "parent")
    ctx.count("lut_gaps")
    return [(math.nan if fill == "parent" else 0.0 if fill == "zero" else float(fill),)], True


def expected(src, recs, b, region, ctx):
    if "polys" in src["files"][0]:
        return expected_lut(src, b, region, ctx)
    names = src["name"].split(",")
    agg = src["params"].get("aggregate_type", "MEAN")
    fill = src["params"].get("value_fill_types", "parent")
    val = aggregate(agg, [v for y, x, v in recs if inside(b, y, x)], names)
    if None not in val[0]:
        return val, False
    ctx.count("empty_cells")
    if fill != "parent":
        ctx.count("filled_with_value")
        ctx.count("fill_given_as_text", int(isinstance(fill, str)))
        fill = 0.0 if fill == "zero" else float(fill)
        return [tuple(fill if v is None else v for v in val[0])], True
    for p in ancestors(b, region):
        up = aggregate(agg, [v for y, x, v in recs if inside(p, y, x)], names)
        if all(v is None for v in val[0]) and None not in up[0]:
            ctx.count("filled_from_parent")
            return up, True
        val = [tuple(u if v is None else v for u, v in zip(up[0], val[0]))]
        if None not in val[0]:
            return val, True
    return [tuple(math.nan if v is None else v for v in val[0])], True


def materialise(sp):
    for s in sp["sources"]:
        for f in s["files"]:
            if "rows" in f:
                G.write(f["path"], G.csv_text(f["cols"], f["rows"]))
            else:
                nc.write_file(s["loader"], f)


def is_late(plan):
    """Is the last source handed to the builder only after a first build?"""
    ss = plan["spec"]["sources"]
    return bool(plan.get("late") and len(ss) > 1 and ss[-1]["via"] == "files" and ss[-1]["loader"] in ("scalar_csv", "vector_csv"))


def run(plan, ctx):
    sp = plan["spec"]
    r = sp["region"]
    paths = [f["path"] for s in sp["sources"] for f in s["files"]]
    if plan.get("before"):
        # the process has built from earlier contents of the same files
        ctx.count("earlier_contents")
        old = G.vary(sp)
        materialise(old)
        G.same_times(paths)
        world.attempt(world.build, G.config(old))
    materialise(sp)
    if plan.get("before"):
        G.same_times(paths)
    d = disk.SimDisk(os.getcwd(), ctx, plan["faults"], bufsize=plan["bufsize"], list_seed=plan["list_seed"])
    with d:
        if is_late(plan):
            ctx.count("late_source")
            cfg = G.config(sp)
            last = cfg["data_sources"].pop()
            m = world.must(world.build_late, cfg, last, sp["min_dp"], what="building the mesh, adding a data source and building again")
        else:
            m = world.must(world.build, G.config(sp), what="building the mesh")
    js = world.must(m.to_json, what="converting the mesh")
    cells = oracle.cells_of(js)
    sig = []
    n = 0
    recs_of = [records(s, sp["window"]) for s in sp["sources"]]
    for k, s in enumerate(sp["sources"]):
        recs = recs_of[k]
        names = s["name"].split(",")
        same = [j for j, o in enumerate(sp["sources"]) if o["name"] == s["name"]]
        if any(None in v for _, _, v in recs):
            ctx.count("blank_values")
        for cid, (b, vals) in cells.items():
            want, empty = expected(s, recs, b, r, ctx)
            if len(same) > 1:
                # the first source that has a value there
                ctx.count("same_quantity_twice")
                for j in same:
                    want, empty = expected(sp["sources"][j], recs_of[j], b, r, ctx)
                    if not any(isinstance(v, float) and math.isnan(v) for v in want[0]):
                        break
            got = []
            for nm in names:
                if nm not in vals:
                    raise Violation("missing-value", f"cell {cid} {b} has no {nm}: {vals}")
                got.append(vals[nm])
            rel = 1e-6 if "polys" in s["files"][0] else 1e-9
            if not any(all(oracle.close_value(g, w, rel) for g, w in zip(got, t)) for t in want):
                ins = [v for y, x, v in recs if inside(b, y, x)]
                raise Violation("wrong-aggregate", f"cell {cid} {b}: {s['params'].get('aggregate_type', 'MEAN')} of {s['name']} from {s['loader']} is {got}, "
                                f"expected {want[:2]}; {len(ins)} records inside: {ins[:6]}; fill {s['params'].get('value_fill_types')}")
            n += not empty
            if not empty:
                ctx.count("vector_cells" if len(names) == 2 else "cells_checked")
                ctx.count("agg:" + s["params"].get("aggregate_type", "MEAN"))
                if "lat" in s["files"][0]:
                    ctx.count("grid_cells")
                    if b[2] + b[3] > 180:
                        ctx.count("grid_over_antimeridian")
                    if s["files"][0].get("gaps"):
                        ctx.count("grid_gaps")
                if (b[2] + b[3]) > 180:
                    ctx.count("cells_over_antimeridian")
        if any(y == round(y * 4) / 4 for y, x, v in recs):
            ctx.count("border_records")
        sig.append((s["loader"], s["params"].get("aggregate_type"), str(s["params"].get("value_fill_types")), len(s["files"]), s["via"], "time" in s["files"][0].get("cols", [])))
    hist = {}
    for b, _ in cells.values():
        hist[b[3]] = hist.get(b[3], 0) + 1
    ctx.ev("mesh", oracle.canon(js))
    ctx.state(r["kind"], sorted(sig), sorted(hist.items()))
    if n:
        ctx.count("nontrivial")


def shrink(plan):
    if plan.get("before"):
        n = G.clone(plan)
        n["before"] = False
        yield n
    if all("rows" in f for s in plan["spec"]["sources"] for f in s["files"]):
        yield from G.shrink_spec(plan)
