"""Workload generation: regions, data, mesh configs.  Everything is explicit JSON."""
import os

DATES = [f"2020-01-{d:02d}" for d in range(1, 29)]


def region(rng, kind=None, max_cells=8, sizes=(1, 2, 2.5, 4, 5, 10)):
    """A mesh region with exactly representable cell edges at every split depth."""
    if kind is None:
        kind = rng.choices(["plain", "antimeridian", "global", "rect"], [6, 2, 2, 2])[0]
    if kind == "global":
        cols = rng.choice([3, 4, 5, 6, 8])
        w = 360 / cols
        rows = rng.choice([1, 1, 2])
        h = rng.choice([5, 10, 20])
        lat0 = rng.choice([-80, -60, -40, 0, 40])
        return dict(kind=kind, long_min=-180, long_max=180, lat_min=lat0, lat_max=lat0 + rows * h,
                    cell_width=int(w) if w == int(w) else w, cell_height=h)
    w = rng.choice(sizes)
    h = w if kind != "rect" and rng.random() < 0.7 else rng.choice(sizes)
    while True:
        cols, rows = rng.randint(1, 4), rng.randint(1, 4)
        if cols * rows <= max_cells:
            break
    lat0 = rng.choice([-75, -60, -45, -10, 0, 20, 50])
    if kind == "antimeridian":
        cols = max(2, cols)
        west = rng.randint(1, cols - 1)
        shift = rng.choice([0, 0, 0.5, 0.25, 0.75])  # not 0: one column of cells straddles the line
        x0 = 180 - (west - shift) * w
        x1 = x0 + cols * w - 360
        return dict(kind=kind, long_min=x0, long_max=x1, lat_min=lat0, lat_max=lat0 + rows * h,
                    cell_width=w, cell_height=h)
    x0 = rng.choice([-170, -90, -45, -10, 0, 10, 60, 120])
    return dict(kind=kind, long_min=x0, long_max=x0 + cols * w, lat_min=lat0, lat_max=lat0 + rows * h,
                cell_width=w, cell_height=h)


def wrap(x):
    while x > 180:
        x -= 360
    while x < -180:
        x += 360
    return x


def width(r):
    d = r["long_max"] - r["long_min"]
    return d if d > 0 else d + 360


def grid(r):
    return (round(width(r) / r["cell_width"]), round((r["lat_max"] - r["lat_min"]) / r["cell_height"]))


def point_in(rng, r, margin=0.0):
    """A random position strictly inside the region, off every cell edge down to depth 8."""
    while True:
        fx, fy = rng.random(), rng.random()
        x = r["long_min"] + margin + fx * (width(r) - 2 * margin)
        y = r["lat_min"] + margin + fy * (r["lat_max"] - r["lat_min"] - 2 * margin)
        x, y = round(wrap(x), 4), round(y, 4)
        ux = ((x - r["long_min"]) % 360) / r["cell_width"] * 256
        uy = (y - r["lat_min"]) / r["cell_height"] * 256
        if abs(ux - round(ux)) > 1e-6 and abs(uy - round(uy)) > 1e-6 and ux > 0 and uy > 0:
            return y, x


def rows(rng, r, n, dates=None, lo=0, hi=100, outside=0.1, vector=False, clusters=None):
    """CSV rows: lat, long, (time), value(s).  Clusters make cells heterogeneous."""
    out = []
    centres = [point_in(rng, r) for _ in range(clusters if clusters is not None else rng.randint(0, 3))]
    for _ in range(n):
        if rng.random() < outside:
            y, x = round(rng.uniform(-89, 89), 4), round(rng.uniform(-179, 179), 4)
        elif centres and rng.random() < 0.5:
            cy, cx = rng.choice(centres)
            y = round(cy + rng.gauss(0, r["cell_height"] / 6), 4)
            x = round(wrap(cx + rng.gauss(0, r["cell_width"] / 6)), 4)
            y = min(89.0, max(-89.0, y))
        else:
            y, x = point_in(rng, r)
        row = [y, x]
        if dates is not None:
            row.append(rng.choice(dates))
        row.append(round(rng.uniform(lo, hi), 2))
        if vector:
            row.append(round(rng.uniform(lo, hi), 2))
        out.append(row)
    return out


def csv_text(cols, rws):
    return ",".join(cols) + "\n" + "".join(",".join(repr(v) if isinstance(v, float) else str(v) for v in r) + "\n"
                                           for r in rws)


def write(path, data):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w" if isinstance(data, str) else "wb") as f:
        f.write(data)


AGGS = ["MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT"]


def scalar_csv(rng, r, name="SIC", idx=0, dates=None, nfiles=None, nrows=None, split=None, agg=None, fill=None):
    nfiles = nfiles or rng.choice([1, 1, 2, 3])
    files = []
    for k in range(nfiles):
        files.append({"path": f"data/s{idx}/{name.lower()}_{rng.randint(0, 99):02d}{k}.csv",
                      "cols": ["lat", "long"] + (["time"] if dates is not None else []) + [name],
                      "rows": rows(rng, r, nrows or rng.randint(3, 40), dates)})
    src = {"loader": "scalar_csv", "name": name, "files": files,
           "via": rng.choice(["files", "folder"]) if nfiles > 1 else rng.choice(["files", "file", "folder"]),
           "params": {"data_name": name}}
    if agg:
        src["params"]["aggregate_type"] = agg
    if fill is not None:
        src["params"]["value_fill_types"] = fill
    if split if split is not None else rng.random() < 0.8:
        src["params"]["splitting_conditions"] = [{name: {"threshold": round(rng.uniform(20, 80), 1),
                                                         "lower_bound": round(rng.uniform(0.0, 0.3), 2),
                                                         "upper_bound": round(rng.uniform(0.7, 1.0), 2)}}]
    return src


def vector_csv(rng, r, idx=1, dates=None, nfiles=None, nrows=None, agg=None, names=("uC", "vC"), fill=None):
    nfiles = nfiles or rng.choice([1, 1, 2])
    files = [{"path": f"data/s{idx}/v{k}_{rng.randint(0, 99):02d}.csv",
              "cols": ["lat", "long"] + (["time"] if dates is not None else []) + list(names),
              "rows": rows(rng, r, nrows or rng.randint(3, 40), dates, -10, 10, vector=True)} for k in range(nfiles)]
    src = {"loader": "vector_csv", "name": ",".join(names), "files": files,
           "via": rng.choice(["files", "folder"]),
           "params": {"data_name": ",".join(names)}}
    if agg:
        src["params"]["aggregate_type"] = agg
    if fill is not None:
        src["params"]["value_fill_types"] = fill
    return src


def grf(rng, name="elevation", split=True):
    p = {"data_name": name, "binary": False, "seed": rng.choice([0, 1, 42, rng.randint(0, 9999)]), "min": -100, "max": 100,
         "size": rng.choice([8, 16, 24]), "alpha": 3, "threshold": [0, 1], "multiplier": 1, "offset": 0,
         "min_dp": 5}
    if split:
        p["splitting_conditions"] = [{name: {"threshold": round(rng.uniform(-30, 30), 1), "lower_bound": 0.1,
                                             "upper_bound": 0.9}}]
    return {"loader": "scalar_grf", "name": name, "files": [], "via": None, "params": p}


def vgrf(rng):
    return {"loader": "vector_grf", "name": "uC,vC", "files": [], "via": None,
            "params": {"data_name": "uC,vC", "seed": rng.choice([0, 1, rng.randint(0, 9999)]), "size": rng.choice([8, 16]),
                       "min": 0, "max": 10, "alpha": 3, "vec_x": "uC", "vec_y": "vC"}}


def shape(rng, r, name="shape"):
    kind = rng.choice(["circle", "gradient", "checkerboard"])
    p = {"data_name": name, "nx": 24, "ny": 24}
    if kind == "circle":
        p.update(radius=max(0.5, r["cell_width"] * rng.choice([0.6, 1, 1.5])),
                 centre=[(r["lat_min"] + r["lat_max"]) / 2, r["long_min"] + width(r) / 2])
    elif kind == "gradient":
        p.update(vertical=rng.random() < 0.5)
    else:
        p.update(gridsize=[rng.choice([2, 3]), rng.choice([2, 3])])
    p["splitting_conditions"] = [{name: {"threshold": 0.5, "lower_bound": 0.01, "upper_bound": 0.99}}]
    return {"loader": kind, "name": name, "files": [], "via": None, "params": p}


def spec(rng, reg=None, sources=None, depth=None, dates=None, window=None):
    r = reg or region(rng)
    if sources is None:
        sources = []
        for i in range(rng.choice([0, 1, 1, 2])):
            c = rng.random()
            if c < 0.6:
                sources.append(scalar_csv(rng, r, ["SIC", "elevation"][i], i, dates=dates))
            elif c < 0.8 and not any(s["name"] == "uC,vC" for s in sources):
                sources.append(vector_csv(rng, r, i, dates=dates))
            elif r["kind"] in ("plain", "rect"):
                sources.append(grf(rng, f"f{i}"))
    return {"region": r, "sources": sources,
            "window": window or ["2020-01-05", "2020-01-20"],
            "depth": depth if depth is not None else rng.choice([0, 1, 1, 2, 2, 3]),
            "min_dp": rng.choice([1, 2, 3, 5])}


def config(sp):
    """The config dict a user would write (paths relative to the working directory)."""
    r = sp["region"]
    cfg = {"region": {"lat_min": r["lat_min"], "lat_max": r["lat_max"], "long_min": r["long_min"],
                      "long_max": r["long_max"], "start_time": sp["window"][0], "end_time": sp["window"][1],
                      "cell_width": r["cell_width"], "cell_height": r["cell_height"]},
           "data_sources": [],
           "splitting": {"split_depth": sp["depth"], "minimum_datapoints": sp["min_dp"]}}
    for s in sp["sources"]:
        p = clone(s["params"])
        if s["via"] == "files":
            p["files"] = [f["path"] for f in s["files"]]
        elif s["via"] == "file":
            p["file"] = s["files"][0]["path"]
        elif s["via"] == "folder":
            p["folder"] = os.path.dirname(s["files"][0]["path"]) + (s.get("slash") or "")
        cfg["data_sources"].append({"loader": s["loader"], "params": p})
    return cfg


def materialise(sp, base="."):
    for s in sp["sources"]:
        for f in s["files"]:
            write(os.path.join(base, f["path"]), csv_text(f["cols"], f["rows"]))


def clone(o):
    import json
    return json.loads(json.dumps(o))


def shrink_spec(plan, key="spec"):
    """Generic simplifications of plan[key]."""
    sp = plan[key]
    for i in range(len(sp["sources"])):
        n = clone(plan)
        del n[key]["sources"][i]
        yield n
    if sp["depth"] > 0:
        n = clone(plan)
        n[key]["depth"] -= 1
        yield n
    for i, s in enumerate(sp["sources"]):
        for j in range(len(s["files"])):
            if len(s["files"]) > 1:
                n = clone(plan)
                del n[key]["sources"][i]["files"][j]
                yield n
            m = len(s["files"][j]["rows"])
            for a, b in ((0, m // 2), (m // 2, m)):
                if m > 1:
                    n = clone(plan)
                    n[key]["sources"][i]["files"][j]["rows"] = s["files"][j]["rows"][a:b]
                    yield n


def alike_value(v):
    """Another number whose text has the same length."""
    if isinstance(v, float) and v == v and abs(v) != float("inf"):
        t = repr(v)
        for k in range(len(t) - 1, -1, -1):
            if t[k].isdigit() and "e" not in t:
                n = float(t[:k] + str(int(t[k]) % 9 + 1) + t[k + 1:])
                if n != v and len(repr(n)) == len(t):
                    return n
    return v


def vary(sp):
    """The same files with other values in them (CSV files keep their length)."""
    v = clone(sp)
    for s in v["sources"]:
        for f in s["files"]:
            if "rows" in f:
                names = [j for j, c in enumerate(f["cols"]) if c not in ("lat", "long", "time")]
                for row in f["rows"]:
                    for j in names:
                        row[j] = alike_value(row[j])
            elif "polys" in f:
                for p in f["polys"]:
                    p[0][1] = round(p[0][0] + (p[0][1] - p[0][0]) / 2, 4)
                    p[1] = alike_value(p[1])
            elif f.get("const") is not None:
                f["const"] += 1
            elif "seed" in f:
                f["seed"] += 1
    return v


def same_times(paths):
    """Give the files one time stamp, so that a rewritten file looks the same from outside."""
    for p in paths:
        os.utime(p, (1577836800, 1577836800))
