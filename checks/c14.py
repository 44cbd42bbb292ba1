"""C14: dated source files are used exactly when their date falls in the window."""
import datetime as dt
import math
import os
import random

from sim import disk, gen as G, nc, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 800, "budget": 150, "min_runs": 40}, "thorough": {"runs": 20000, "budget": 1800}}
LEVEL = "exploration"
RULE = "counts a run whose (loader, via, aggregate, sequence of arrivals/builds/rebuilds/replacements, positions of the dates relative to the windows) signature is new and which built at least once"
STATE_MEASURE = "distinct (loader, via, aggregate, step kinds with window-relative dates) signatures"
REAL = ["amsr, icenet, ecmwf_sig_wave_height, era5_*, duacs_currents loaders", "MeshBuilder, create_mesh_cli, rebuild_mesh_cli"]
STUB = ["arrival, replacement and removal of files between operations; directory listing order; dask scheduler synchronous; GRIB files are netCDF files of the same name"]
ASSUMPTIONS = ["a file is complete when it appears under its final name"]
SPREAD = {"era5_sig_wave_height": [1], "era5_max_wave_height": [1], "era5_wave_dir": [1], "era5_wave_period": [1], "era5_wind_mag": [math.sqrt(5)],
          "era5_wind": [1, 2], "duacs_currents": [1, 2], "amsr": [1], "icenet": [100], "ecmwf_sig_wave_height": [1], "era5_wind_dir": None, "era5_wave_direction": None}
LOADERS = list(SPREAD)
PROBES = ["loader:" + x for x in LOADERS] + ["build", "rebuild", "rebuild_after_arrival", "rebuild_after_replace", "rebuild_after_removal", "empty_window", "edge_start", "edge_end", "same_date", "later_arrival",
                                              "fault:arrival", "fault:replacement", "fault:removal", "via:files", "via:folder", "two_folders", "used:1", "used:many"]
# the dates straddle leap days, month ends, and year ends after leap and common years
BASES = [dt.date(2020, 2, 20), dt.date(2020, 12, 23), dt.date(2016, 12, 21), dt.date(2021, 12, 22), dt.date(2019, 2, 20), dt.date(2000, 2, 22), dt.date(1999, 12, 24), dt.date(2024, 12, 24)]
FOLDERS = ["data/era", "data/set.2020-02-21.v1", "data-2020/x_20200101-a", "d/2020-02-25/sub.dir"]


def gen(rng, tier, i):
    ld = LOADERS[i % len(LOADERS)]
    d0 = rng.choice(BASES)
    # files days apart, or (not for forecasts, which reach days ahead) weeks, months or a year apart
    stride = 1 if ld in ("icenet", "ecmwf_sig_wave_height") or rng.random() < 0.7 else rng.choice([7, 30, 61, 365])

    def day(k):
        return (d0 + dt.timedelta(days=stride * k)).isoformat()
    r = G.region(rng, rng.choice(["plain", "rect"]), max_cells=4)
    if ld == "amsr":
        r["lat_min"] = -75
        r["lat_max"] = -75 + max(1, G.grid(r)[1]) * r["cell_height"]
        if r["lat_max"] > -50:
            r["cell_height"], r["lat_max"] = 4, -67
    n = rng.randint(3, 7)
    days = rng.sample(range(0, 18), n)
    if stride == 1 and rng.random() < 0.6:
        # files on the last day of the month (year) and on the first of the next
        turn = next(k for k in range(18) if (d0 + dt.timedelta(days=k)).day == 1)
        days += [turn - 1, turn]
    else:
        turn = None
    days = sorted(set(days))
    files = []
    d = rng.choice(FOLDERS)
    mixed = rng.random() < 0.5              # file names that do not sort by date
    lat, lon = nc.grid_axes(rng, r, 2)
    for k in days:
        c = round(rng.uniform(1, 90), 3)
        tag = rng.randrange(3) if mixed else 0
        if ld == "icenet":
            files.append(nc.icenet_file(d, day(k), lat, lon, 0, 60, const=round(c / 100, 5)))
            files[-1]["path"] = files[-1]["path"].replace("south_", ["south_", "north_", "s2_"][tag])
        elif ld == "ecmwf_sig_wave_height":
            base = rng.choice(["000000", "000000", "120000"])
            for h in sorted(rng.sample([0, 12, 24, 36, 48, 72, 96, 120, 144, 168, 240], rng.randint(2, 5))):
                files.append({"path": f"{d}/{day(k).replace('-', '')}{base}-{h}h-wave-fc.grib2", "lat": lat, "lon": lon, "const": round(rng.uniform(1, 90), 3),
                              "base": day(k) + "T" + base[:2], "h": h})
        elif ld == "amsr":
            x, y, hemi = nc.amsr_axes(r)
            files.append({"path": f"{d}/asi-AMSR2-{['s6250', 's3125', 'n6250'][tag]}-{day(k).replace('-', '')}-v5.4.nc", "x": x, "y": y, "const": c, "date": day(k), "times": [day(k)]})
        else:
            hs = rng.choice([["00"], ["00"], ["12"], ["00", "06", "18"]])
            files.append({"path": f"{d}/{[['era5_data_', 'duacs_cur_'], ['ERA5_wave_', 'cmems-alt-'], ['reanalysis', 'allsat_l4_']][tag][ld == 'duacs_currents']}{day(k)}.nc", "lat": lat, "lon": lon, "const": c, "date": day(k),
                          "times": [f"{day(k)}T{h}:00" for h in hs]})
    if ld not in ("icenet", "ecmwf_sig_wave_height") and rng.random() < 0.35:
        # a second file of the same date: another version, or other hours of the day
        f = dict(rng.choice(files), const=round(rng.uniform(1, 90), 3))
        if ld == "amsr":
            f["path"] = f["path"].replace("-v5.4.nc", rng.choice(["-v5.nc", "-v5.5.nc", "-v104.nc"]))
        else:
            head = os.path.basename(f["path"])[:-13]
            f["path"] = f"{d}/{'Z' + head[1:]}{f['date']}.nc"
            f["times"] = [f"{f['date']}T{h}:00" for h in (["23"] if len(f["times"]) > 1 else rng.choice([["15"], ["15", "18"]]))]
        files.append(f)
    folders = {d}
    if rng.random() < 0.3:
        # kept in two folders (by year, by delivery) and named one by one
        e = rng.choice([x for x in FOLDERS if x != d] + ["archive", "zz"])
        for f in files:
            if rng.random() < 0.5:
                f["path"] = e + f["path"][len(d):]
        folders = {os.path.dirname(f["path"]) for f in files}
    agg = rng.choice(["MEAN", "MEAN", "MIN", "MAX", "MEDIAN"])
    if agg == "MEDIAN" and "," in nc.NAMES[ld]:
        agg = "MEAN"
    if SPREAD[ld] is None:
        agg = "COUNT"
    elif ld != "amsr" and rng.random() < 0.15 and len(SPREAD[ld]) == 1:
        agg = "COUNT"
    # windows sit at the dates of files
    edges = [k + j for k in days for j in (-1, 0, 0, 0, 1)]

    def window():
        a, b = sorted([rng.choice(edges), rng.choice(edges)])
        if ld in ("icenet", "ecmwf_sig_wave_height"):
            b = max(b, a + 1)
        elif turn is not None and rng.random() < 0.5:
            e = rng.choice([turn - 1, turn])
            a, b = (rng.choice([x for x in edges if x <= e] or [e]), e) if e < turn else (e, rng.choice([x for x in edges if x >= e] or [e]))
        elif rng.random() < 0.25:
            # the last or first day of a year as one end
            y = (d0 + dt.timedelta(days=stride * 9)).year
            e = rng.choice([f"{y - 1}-12-31", f"{y}-01-01", f"{y}-02-29" if y % 4 == 0 else f"{y}-03-01", f"{y}-12-31"])
            return sorted([e, rng.choice([day(a), day(b)])])
        return [day(a), day(b)]
    order = list(range(len(files)))
    rng.shuffle(order)
    first = rng.randint(1, len(order))
    steps = [{"do": "arrive", "k": order[:first]}]
    rest = order[first:]
    for _ in range(rng.randint(2, 6)):
        c = rng.random()
        if c < 0.4:
            steps.append({"do": "build", "window": window(), "entry": rng.choice(["api", "cli"]), "list_seed": rng.randint(0, 9999), "via": rng.choice(["folder", "folder", "files"])})
        elif c < 0.6:
            steps.append({"do": "rebuild", "pick": rng.random(), "list_seed": rng.randint(0, 9999)})
        elif c < 0.85 and rest:
            m = rng.randint(1, len(rest))
            steps.append({"do": "arrive", "k": rest[:m]})
            rest = rest[m:]
        elif c < 0.95:
            steps.append({"do": "replace", "k": rng.randrange(len(files)), "const": round(rng.uniform(1, 90), 3) / (100 if ld == "icenet" else 1)})
        else:
            steps.append({"do": "remove", "k": rng.randrange(len(files))})
    if not any(s["do"] == "build" for s in steps):
        steps.insert(1, {"do": "build", "window": window(), "entry": "cli", "list_seed": 3, "via": "folder"})
    steps.append({"do": "rebuild", "pick": rng.random(), "list_seed": rng.randint(0, 9999)})
    if len(folders) > 1:
        for st in steps:
            if st["do"] == "build":
                st["via"] = "files"
    return {"loader": ld, "region": r, "files": files, "agg": agg, "steps": steps, "depth": rng.choice([0, 1]), "params": {"hemisphere": "south"} if ld == "amsr" else {},
            "shrink_lists": ["steps"]}


def select(ld, files, window):
    """The reference rule: which of the files a build for this window uses."""
    a, b = window
    if ld == "icenet":
        before = [f for f in files if f["date"] < a]
        return [max(before, key=lambda f: f["date"])] if before else []
    if ld == "ecmwf_sig_wave_height":
        t0, t1 = dt.datetime.fromisoformat(a), dt.datetime.fromisoformat(b)
        before = [f["base"] for f in files if dt.datetime.fromisoformat(f["base"]) < t0]
        if not before:
            return []
        last = max(before)
        return [f for f in files if f["base"] == last and t0 <= dt.datetime.fromisoformat(last) + dt.timedelta(hours=f["h"]) <= t1]
    return [f for f in files if a <= f["date"] <= b]


def points(box, f):
    return sum(1 for y in f["lat"] if box[0] < y <= box[1]) * sum(1 for x in f["lon"] if 0 < (x - box[2]) % 360 <= box[3])


def expected(plan, used, box, window):
    """The aggregate of the used files' values in one cell, per component."""
    ld, agg = plan["loader"], plan["agg"]
    if agg == "COUNT":
        if ld == "icenet":
            n = (dt.date.fromisoformat(window[1]) - dt.date.fromisoformat(window[0])).days
            return [points(box, used[0]) * n]
        return [sum(points(box, f) * len(f.get("times", [1])) for f in used)]
    vals = []
    for f in used:
        vals += [f["const"]] * (1 if ld == "icenet" else len(f.get("times", [1])))
    vals.sort()
    m = len(vals)
    v = {"MEAN": sum(vals) / m, "MIN": vals[0], "MAX": vals[-1], "MEDIAN": (vals[(m - 1) // 2] + vals[m // 2]) / 2}[agg]
    return [v * s for s in SPREAD[ld]]


def check(plan, ctx, js, used, window, what):
    ld = plan["loader"]
    names = nc.NAMES[ld].split(",")
    seen = 0
    for cid, (box, vals) in oracle.cells_of(js).items():
        got = [vals.get(n) for n in names]
        none = all(g is None or (isinstance(g, float) and math.isnan(g)) for g in got)
        if not used:
            if not none and not (plan["agg"] == "COUNT" and got[0] == 0):
                raise Violation("wrong-files", f"{what}: no file meets the window, but cell {cid} has {got}")
            continue
        if none and ld == "amsr":
            continue
        seen += 1
        want = expected(plan, used, box, window)
        for g, w in zip(got, want):
            if not isinstance(g, (int, float)) or not abs(g - w) <= 1e-6 * max(1, abs(w)):
                raise Violation("wrong-files", f"{what}: cell {cid} has {dict(zip(names, got))}, but the {plan['agg']} over exactly the files "
                                               f"{[os.path.basename(f['path']) for f in used]} is {want}")
    if used and not seen and ld != "amsr":
        raise Violation("wrong-files", f"{what}: no cell has a value")
    if used:
        names_used = {os.path.normpath(f["path"]) for f in used}
        rec = [os.path.normpath(p) for p in js["config"]["mesh_info"]["data_sources"][0]["params"].get("files", [])]
        if not names_used <= set(rec) or (ld != "icenet" and names_used != set(rec)):
            raise Violation("not-recorded", f"{what}: the recorded configuration names {rec}, the files used are {sorted(names_used)}")


def build(plan, ctx, st, have, step):
    cfg = {"region": {k: plan["region"][k] for k in ("lat_min", "lat_max", "long_min", "long_max", "cell_width", "cell_height")},
           "data_sources": [{"loader": plan["loader"], "params": dict(plan["params"], aggregate_type=plan["agg"])}],
           "splitting": {"split_depth": plan["depth"], "minimum_datapoints": 1}}
    cfg["region"].update(start_time=st["window"][0], end_time=st["window"][1])
    p = cfg["data_sources"][0]["params"]
    if st["via"] == "folder":
        p["folder"] = os.path.dirname(plan["files"][0]["path"])
    else:
        p["files"] = [f["path"] for f in have]
        random.Random(st["list_seed"]).shuffle(p["files"])
    world.dump("config.json", cfg)
    with disk.SimDisk(os.getcwd(), ctx, list_seed=st["list_seed"]):
        if st["entry"] == "api":
            o = world.attempt(lambda: G.clone(world.build(cfg).to_json()))
            return o, o.value
        o = world.cli("create_mesh_cli", "config.json", "-o", f"m{step}.json")
    return o, (world.read_json(f"m{step}.json")[0] if o.ok else None)


def run(plan, ctx):
    ld = plan["loader"]
    files = [dict(f, seed=0) for f in plan["files"]]
    present = {}
    built = []
    sig = []
    ctx.count("loader:" + ld)
    stamp = 0
    for n, st in enumerate(plan["steps"]):
        do = st["do"]
        if do == "arrive":
            for k in st["k"]:
                nc.write_file(ld, files[k])
                present[k] = True
                ctx.count("fault:arrival")
            stamp += 1
            ctx.count("later_arrival", int(bool(built)))
            sig.append(("arrive", len(st["k"])))
        elif do == "replace" and st["k"] in present:
            files[st["k"]]["const"] = st["const"]
            nc.write_file(ld, files[st["k"]])
            stamp += 100
            ctx.count("fault:replacement")
            sig.append("replace")
        elif do == "remove" and st["k"] in present and len(present) > 1:
            os.remove(files[st["k"]]["path"])
            del present[st["k"]]
            stamp += 10000
            ctx.count("fault:removal")
            sig.append("remove")
        elif do == "build" and present:
            have = [files[k] for k in sorted(present)]
            used = select(ld, have, st["window"])
            o, js = build(plan, ctx, st, have, n)
            what = f"{ld} via {st['via']} for {st['window']} with {[os.path.basename(f['path']) for f in have]}"
            ctx.count("via:" + st["via"])
            ctx.count("two_folders", int(len({os.path.dirname(f["path"]) for f in have}) > 1))
            ctx.count("used:many" if len(used) > 1 else f"used:{len(used)}")
            ctx.count("build")
            dates = [f.get("date", f.get("base", "")[:10]) for f in have]
            ctx.count("same_date", int(len({f["date"] for f in used if "date" in f}) < len([f for f in used if "date" in f])))
            ctx.count("edge_start", int(st["window"][0] in dates))
            ctx.count("edge_end", int(st["window"][1] in dates))
            sig.append((st["via"], st["entry"], len(used), len(have), st["window"][0] in dates, st["window"][1] in dates))
            if not o.ok:
                if used and not too_far(plan, used, st["window"]):
                    raise Violation("refused", f"{what} failed although {len(used)} files meet the window: {o!r}")
                ctx.count("empty_window")
                continue
            check(plan, ctx, js, used, st["window"], what)
            built.append((js, [f["path"] for f in used], st["window"], stamp))
        elif do == "rebuild" and built:
            js0, used, window, when = built[int(st["pick"] * len(built))]
            world.dump("old.json", js0)
            with disk.SimDisk(os.getcwd(), ctx, list_seed=st["list_seed"]):
                o = world.cli("rebuild_mesh_cli", "old.json", "-o", f"r{n}.json")
            gone = [p for p in used if not os.path.exists(p)]
            d = stamp - when
            for name, on in (("rebuild", True), ("rebuild_after_arrival", d % 100), ("rebuild_after_replace", d // 100 % 100), ("rebuild_after_removal", d // 10000)):
                ctx.count(name, int(bool(on)))
            sig.append(("rebuild", bool(gone), d % 100 > 0))
            what = f"{ld} rebuilt for {window} (originally from {[os.path.basename(p) for p in used]}) with {sorted(os.path.basename(files[k]['path']) for k in present)}"
            if not o.ok:
                if not gone and used:
                    raise Violation("refused", f"{what} failed: {o!r}")
                continue
            if gone:
                raise Violation("wrong-files", f"{what} succeeded although {gone} are gone")
            check(plan, ctx, world.read_json(f"r{n}.json")[0], [f for f in files if f["path"] in used], window, what)
    ctx.state(ld, plan["agg"], plan["depth"], sig)
    ctx.count("nontrivial", int(bool(built)))


def too_far(plan, used, window):
    return plan["loader"] == "icenet" and (dt.date.fromisoformat(window[1]) - dt.date.fromisoformat(used[0]["date"])).days >= used[0]["lead"]
