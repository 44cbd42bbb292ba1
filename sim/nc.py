"""Synthetic source files for the gridded, dated and polygon loaders.

A source is plain JSON: {"loader", "name", "fmt", "files": [{"path", ...}], "via", "params"}.
Values come from numpy's RandomState(file seed) so that a plan stays small.
"""
import os

from . import gen

DAY0 = "2020-01-01"


def axis(lo, hi, n):
    """n positions strictly inside (lo, hi), never on a cell border."""
    step = (hi - lo) / n
    return [round(lo + step * (k + 0.37), 5) for k in range(n)]


def _vals(f, shape, lo=0, hi=100):
    import numpy as np
    if f.get("const") is not None:
        return np.full(shape, float(f["const"]))
    rs = np.random.RandomState(f["seed"])
    v = np.round(rs.uniform(lo, hi, shape), 3)
    if f.get("gaps"):
        v[rs.uniform(size=shape) < f["gaps"]] = np.nan
    return v


def _times(f):
    import pandas as pd
    return pd.to_datetime(f["times"])


def _w360(x):
    if min(x) < 0 <= max(x):
        return x                     # keep every file monotonic
    return [v if v >= 0 else v + 360 for v in x]


def dataset(loader, f):
    import numpy as np
    import xarray as xr
    lat, lon = f.get("lat"), f.get("lon")
    if loader == "gebco":
        return xr.Dataset({"elevation": (("lat", "lon"), _vals(f, (len(lat), len(lon)), -100, 100))}, {"lat": lat, "lon": lon})
    if loader == "modis":
        v = _vals(f, (len(lat), len(lon)))
        return xr.Dataset({"iceArea": (("lat", "long"), v), "cloud": (("lat", "long"), cloud(f))}, {"lat": lat, "long": lon})
    if loader == "bsose_sic":
        return xr.Dataset({"SIarea": (("YC", "XC"), _vals(f, (len(lat), len(lon)), 0, 1))}, {"YC": lat, "XC": _w360(lon)})
    if loader == "bsose_depth":
        v = _vals(f, (len(lat), len(lon)), 0, 1000)
        return xr.Dataset({"Other": (("YC", "XC"), v * 0)}, {"YC": lat, "XC": _w360(lon), "Depth": (("YC", "XC"), v)})
    if loader == "baltic_sic":
        t = _times(f)
        return xr.Dataset({"ice_concentration": (("time", "lat", "lon"), _vals(f, (len(t), len(lat), len(lon))))},
                          {"time": t, "lat": lat[::-1], "lon": lon})
    if loader in ERA5:
        t = _times(f)
        d = ("time", "latitude", "longitude")
        c = {"time": t, "latitude": lat[::-1], "longitude": [v if v >= 0 else v + 360 for v in lon]}
        sh = (len(t), len(lat), len(lon))
        names = ERA5[loader]
        v = _vals(f, sh, 0.5, 60)
        ds = xr.Dataset({nm: (d, v * (k + 1)) for k, nm in enumerate(names)}, c)
        return ds.sortby("longitude")                                      # as ERA5 ships: 0..360
    if loader == "duacs_currents":
        t = _times(f)
        d = ("time", "latitude", "longitude")
        v = _vals(f, (len(t), len(lat), len(lon)), 0.1, 5)
        return xr.Dataset({"ugos": (d, v), "vgos": (d, v * 2)}, {"time": t, "latitude": lat, "longitude": lon})
    if loader == "northsea_currents":
        t = _times(f)
        d = ("times", "lat", "lon")
        v = _vals(f, (len(t), len(lat), len(lon)), 0.1, 5)
        return xr.Dataset({"U": (d, v), "V": (d, v * 2)}, {"times": t, "lat": lat, "lon": lon})
    if loader == "baltic_currents":
        t = _times(f)
        d = ("time", "depth", "latitude", "longitude")
        v = _vals(f, (len(t), 1, len(lat), len(lon)), 0.1, 5)
        return xr.Dataset({"uo": (d, v), "vo": (d, v * 2)}, {"time": t, "depth": [0.5], "latitude": lat, "longitude": lon})
    if loader == "sose":
        v = _vals(f, (len(lat), len(lon)), 0.1, 5)
        return xr.Dataset({"uC": (("lat", "lon"), v), "vC": (("lat", "lon"), v * 2)}, {"lat": lat, "lon": _w360(lon)})
    if loader == "oras5_currents":
        v = _vals(f, (len(lat), len(lon)), 0.1, 5)
        return xr.Dataset({"uo": (("nav_lat", "nav_lon"), v), "vo": (("nav_lat", "nav_lon"), v * 2)}, {"nav_lat": lat, "nav_lon": lon})
    if loader == "visual_iced":
        v = _vals(f, (len(f["y"]), len(f["x"])), 0, 1)
        return xr.Dataset({"Band1": (("y", "x"), v), "polar_stereographic": ((), np.int32(0))}, {"y": f["y"], "x": f["x"]})
    if loader == "amsr":
        v = _vals(f, (len(f["y"]), len(f["x"])))
        return xr.Dataset({"z": (("y", "x"), v), "polar_stereographic": ((), np.int32(0))}, {"y": f["y"], "x": f["x"]})
    if loader == "ecmwf_sig_wave_height":
        v = _vals(f, (len(lat), len(lon)), 0, 12)
        return xr.Dataset({"swh": (("latitude", "longitude"), v)}, {"latitude": lat[::-1], "longitude": lon})
    if loader == "icenet":
        t = _times(f)
        lead = np.arange(1, f["lead"] + 1)
        yc, xc = np.arange(len(lat), dtype=float), np.arange(len(lon), dtype=float)
        sh = (len(t), len(lat), len(lon), len(lead))
        v = _vals(f, sh, 0, 1)
        la, lo = np.meshgrid(lat, lon, indexing="ij")
        return xr.Dataset({"sic_mean": (("time", "yc", "xc", "leadtime"), v), "sic_stddev": (("time", "yc", "xc", "leadtime"), v * 0),
                           "Lambert_Azimuthal_Grid": ((), np.int32(0)), "ensemble_members": (("time",), np.ones(len(t), dtype=int))},
                          {"time": t, "yc": yc, "xc": xc, "leadtime": lead, "lat": (("yc", "xc"), la), "lon": (("yc", "xc"), lo),
                           "forecast_date": (("time", "leadtime"), t.values[:, None] + lead[None, :].astype("timedelta64[D]"))})
    raise ValueError(loader)


def cloud(f):
    import numpy as np
    return (np.random.RandomState(f["seed"] + 1).uniform(size=(len(f["lat"]), len(f["lon"]))) < 0.2).astype(int)


ERA5 = {"era5_sig_wave_height": ["swh"], "era5_max_wave_height": ["hmax"], "era5_wave_dir": ["mwd"], "era5_wave_period": ["mwp"],
        "era5_wind_mag": ["u10", "v10"], "era5_wind_dir": ["u10", "v10"], "era5_wind": ["u10", "v10"], "era5_wave_direction": ["mwd"]}
VECTOR = {"era5_wind": "u10,v10", "era5_wave_direction": "uW,vW", "duacs_currents": "uC,vC", "northsea_currents": "uC,vC",
          "baltic_currents": "uC,vC", "oras5_currents": "uC,vC", "sose": "uC,vC"}
NAMES = {"gebco": "elevation", "modis": "SIC", "visual_iced": "SIC", "bsose_sic": "SIC", "bsose_depth": "elevation", "baltic_sic": "SIC", "amsr": "SIC",
         "era5_sig_wave_height": "swh", "era5_max_wave_height": "hmax", "era5_wave_dir": "mwd", "era5_wave_period": "mwp",
         "era5_wind_mag": "wind_mag", "era5_wind_dir": "wind_dir", "ecmwf_sig_wave_height": "swh", "icenet": "SIC", **VECTOR}
DATED = list(ERA5) + ["duacs_currents"]               # one file per day, date in the name, concatenated along time
TILED = ["gebco", "modis", "bsose_sic", "bsose_depth", "sose", "oras5_currents"]   # several files = tiles in longitude
TIMED = ["baltic_sic", "northsea_currents", "baltic_currents"]  # several files = spans of time


def write_file(loader, f, base="."):
    p = os.path.join(base, f["path"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if loader == "lut_csv":
        gen.write(p, "geometry,%s\n" % f["col"] + "".join('"%s",%r\n' % (wkt_box(b), v) for b, v in f["polys"]))
        return
    if loader == "lut_shapefile":
        import geopandas
        import shapely
        geopandas.GeoDataFrame({"n": list(range(len(f["polys"])))}, geometry=[shapely.from_wkt(wkt_box(b)) for b, v in f["polys"]], crs="EPSG:4326").to_file(p)
        return
    if loader in ("lut_geojson", "scotland_ncmpa"):
        import json
        feats = [{"type": "Feature", "properties": {"n": i}, "geometry": {"type": "Polygon", "coordinates": [
            [[b[2], b[0]], [b[3], b[0]], [b[3], b[1]], [b[2], b[1]], [b[2], b[0]]]]}} for i, (b, v) in enumerate(f["polys"])]
        gen.write(p, json.dumps({"type": "FeatureCollection", "features": feats}))
        return
    ds = dataset(loader, f)
    tmp = p + ".part"
    ds.to_netcdf(tmp, engine="netcdf4")
    ds.close()
    os.replace(tmp, p)


def wkt_box(b):
    return f"POLYGON (({b[2]} {b[0]}, {b[2]} {b[1]}, {b[3]} {b[1]}, {b[3]} {b[0]}, {b[2]} {b[0]}))"


def materialise(src, base="."):
    if src["loader"] in ("scalar_csv", "vector_csv"):
        for f in src["files"]:
            gen.write(os.path.join(base, f["path"]), gen.csv_text(f["cols"], f["rows"]))
        return
    for f in src["files"]:
        write_file(src["loader"], f, base)


def grid_axes(rng, r, n=None, nodes=False):
    """Positions inside the cells or, with nodes, also exactly on their borders."""
    nx, ny = gen.grid(r)
    n = n or rng.choice([2, 3, 4])
    if nodes:
        n = 2 * ((n + 1) // 2)
        lat = [r["lat_min"] + r["cell_height"] / n * k for k in range(ny * n + 1)]
        lon = [r["long_min"] + r["cell_width"] / n * k for k in range(nx * n + 1)]
    else:
        lat, lon = axis(r["lat_min"], r["lat_max"], ny * n), axis(r["long_min"], r["long_min"] + gen.width(r), nx * n)
    return lat, sorted({gen.wrap(x) for x in lon} - {-180})


def amsr_axes(r, n=7):
    """A polar stereographic grid covering the region."""
    from pyproj import Transformer
    south = r["lat_max"] <= 0
    tr = Transformer.from_crs("EPSG:4326", "EPSG:3412" if south else "EPSG:3411", always_xy=True)
    xs, ys = [], []
    for i in range(6):
        for j in range(6):
            x, y = tr.transform(r["long_min"] + gen.width(r) * i / 5, r["lat_min"] + (r["lat_max"] - r["lat_min"]) * j / 5)
            xs.append(x)
            ys.append(y)
    return ([round(v, 1) for v in axis(min(xs), max(xs), n)], [round(v, 1) for v in axis(min(ys), max(ys), n)], "south" if south else "north")


def icenet_file(d, date, lat, lon, seed, lead, const=None):
    return {"path": f"{d}/south_daily_forecast.{date}.nc", "lat": lat, "lon": lon, "seed": seed, "times": [date], "lead": lead, "date": date, "const": const}


def source(rng, loader, r, idx, window, nfiles=None, nodes=False, cover=False):
    """A generated source.  Polygons only fit regions that do not cross the antimeridian."""
    nfiles = nfiles or rng.randint(1, 3)
    src = {"loader": loader, "name": NAMES.get(loader, "zone"), "files": [], "via": rng.choice(["files", "folder"] + (["file"] if nfiles == 1 else [])),
           "params": {}}
    d = f"data/n{idx}_{loader}"
    sd = lambda: rng.randint(0, 10 ** 6)                          # noqa: E731
    if loader in ("lut_csv", "lut_geojson", "scotland_ncmpa", "lut_shapefile"):
        src["name"] = "zone" if loader != "scotland_ncmpa" else "exclusion_zone"
        cols, rows_ = gen.grid(r)
        cells = [(i, j) for i in range(cols) for j in range(rows_)]
        rng.shuffle(cells)
        for k in range(nfiles):
            polys = []
            if cover:
                # all of one cell and a little more: only then has the cell a value
                i, j = cells[k % len(cells)]
                w, h = r["cell_width"], r["cell_height"]
                x0, y0 = r["long_min"] + i * w, r["lat_min"] + j * h
                polys = [[[max(-90, y0 - h / 64), min(90, y0 + h + h / 64), x0 - w / 64, x0 + w + w / 64], round(rng.uniform(1, 9), 1)]]
            for _ in range(rng.randint(1, 2) if not cover else 0):
                y0, x0 = gen.point_in(rng, r)
                y1, x1 = gen.point_in(rng, r)
                if abs(y1 - y0) < 0.01 or abs(x1 - x0) < 0.01:
                    y1, x1 = y0 + 0.5, x0 + 0.5
                polys.append([[min(y0, y1), max(y0, y1), min(x0, x1), max(x0, x1)], round(rng.uniform(1, 9), 1)])
            src["files"].append({"path": f"{d}/z{k}_{rng.randint(0, 99)}." + {"lut_csv": "csv", "lut_shapefile": "shp"}.get(loader, "geojson"), "polys": polys, "col": "zone"})
        if loader == "lut_shapefile":
            src["via"] = "files"                  # a shapefile is several files; the folder would name all of them
        if loader in ("lut_geojson", "lut_shapefile"):
            src["params"] = {"data_name": "zone", "value": rng.choice([1.5, 7])}
        src["params"]["aggregate_type"] = rng.choice(["MAX", "MIN"])
        return src
    n = rng.choice([2, 3])
    lat, lon = grid_axes(rng, r, n, nodes)
    if loader in TILED:
        cut = sorted(rng.sample(range(1, len(lon)), min(nfiles - 1, len(lon) - 1))) if nfiles > 1 else []
        parts = [lon[a:b] for a, b in zip([0] + cut, cut + [len(lon)])]
        for k, p in enumerate(parts):
            src["files"].append({"path": f"{d}/t{k}_{rng.randint(0, 99)}.nc", "lat": lat, "lon": p, "seed": sd()})
    elif loader in TIMED:
        t0 = rng.randint(1, 12)
        for k in range(nfiles):
            src["files"].append({"path": f"{d}/s{k}_{rng.randint(0, 99)}.nc", "lat": lat, "lon": lon, "seed": sd(),
                                 "times": [f"2020-01-{t0 + 4 * k + j:02d}" for j in range(rng.randint(1, 3))]})
    elif loader in DATED:
        days = rng.sample(range(1, 29), nfiles + rng.randint(0, 2))
        a, b = int(window[0][-2:]), int(window[1][-2:])
        if rng.random() < 0.6:
            days += [rng.randint(a, b) for _ in range(2)]
        if not any(a <= x <= b for x in days):
            days[0] = rng.randint(a, b)
        for x in sorted(set(days)):
            src["files"].append({"path": f"{d}/era5_data_2020-01-{x:02d}.nc", "lat": lat, "lon": lon, "seed": sd(), "times": [f"2020-01-{x:02d}T{rng.choice(['00', '12'])}:00"],
                                 "date": f"2020-01-{x:02d}"})
        src["via"] = rng.choice(["files", "folder"])
    elif loader == "icenet":
        a, b = int(window[0][-2:]), int(window[1][-2:])
        before = [x for x in range(1, a)] or [a - 1]
        days = sorted(set([before[-1] - rng.randint(0, min(2, len(before) - 1))] + rng.sample(range(1, 29), nfiles)))
        for x in days:
            src["files"].append(icenet_file(d, f"2020-01-{x:02d}", lat, lon, sd(), lead=40))
        src["via"] = rng.choice(["files", "folder"])
    elif loader == "ecmwf_sig_wave_height":
        a, b = int(window[0][-2:]), int(window[1][-2:])
        days = sorted(set([max(1, a - 1)] + rng.sample(range(1, 29), nfiles)))
        for x in days:
            for h in (0, 24, 48):
                src["files"].append({"path": f"{d}/202001{x:02d}000000-{h}h-wave-fc.grib2", "lat": lat, "lon": lon, "seed": sd()})
        src["via"] = rng.choice(["files", "folder"])
    elif loader == "visual_iced":
        x, y, hemi = amsr_axes(r)
        src["params"] = {"in_proj": "EPSG:3412" if hemi == "south" else "EPSG:3411", "x_col": "x", "y_col": "y"}
        src["files"].append({"path": f"{d}/ice_{rng.randint(0, 99)}.nc", "x": x, "y": y, "seed": sd()})
        src["via"] = rng.choice(["files", "folder", "file"])
    elif loader == "amsr":
        x, y, hemi = amsr_axes(r)
        src["params"] = {"hemisphere": hemi}
        days = rng.sample(range(1, 29), nfiles + 1)
        a, b = int(window[0][-2:]), int(window[1][-2:])
        if rng.random() < 0.6:
            days += [rng.randint(a, b) for _ in range(2)]
        if not any(a <= q <= b for q in days):
            days[0] = rng.randint(a, b)
        for q in sorted(set(days)):
            src["files"].append({"path": f"{d}/asi-AMSR2-s6250-202001{q:02d}-v5.4.nc", "x": x, "y": y, "seed": sd(), "date": f"2020-01-{q:02d}"})
        src["via"] = rng.choice(["files", "folder"])
    return src


def unnamed(rng, s):
    """Often leave it to the loader to find the name of the data."""
    if rng.random() < 0.5:
        s["params"].pop("data_name", None)
    return s


def any_source(rng, loader, r, k, window, nfiles=None):
    """A source of any loader; k makes paths and (where free) layer names distinct."""
    if loader == "scalar_csv":
        return unnamed(rng, gen.scalar_csv(rng, r, "csv%d" % k, k, dates=rng.choice([None, gen.DATES]), nfiles=nfiles or rng.randint(1, 4),
                                           nrows=rng.randint(5, 40), agg=rng.choice(gen.AGGS)))
    if loader == "vector_csv":
        return unnamed(rng, gen.vector_csv(rng, r, k, dates=rng.choice([None, gen.DATES]), nfiles=nfiles or rng.randint(1, 3), nrows=rng.randint(5, 40),
                                           names=("a%d" % k, "b%d" % k)))
    if loader in ("density", "thickness"):
        return {"loader": loader, "name": loader, "files": [], "via": None, "params": {}}
    if loader in ("scalar_grf", "binary_grf"):
        s = gen.grf(rng, "f%d" % k)
        if loader == "binary_grf":
            s["loader"] = loader
            s["params"].update(binary=True, threshold=0.5, min=0, max=1)
            s["params"].pop("splitting_conditions", None)
        return s
    if loader == "vector_grf":
        s = gen.vgrf(rng)
        s["params"].update(vec_x="g%d" % k, vec_y="h%d" % k, data_name="g%d,h%d" % (k, k))
        s["name"] = s["params"]["data_name"]
        return s
    if loader == "shape":
        return gen.shape(rng, r, "sh%d" % k)
    if loader == "vector_shape":
        kind = rng.choice(["vector_circle", "vector_gradient"])
        p = {"data_name": "p%d,q%d" % (k, k), "nx": 8, "ny": 8, "multiplier_u": 1, "multiplier_v": 1}
        if kind == "vector_circle":
            p.update(radius=max(0.5, r["cell_width"]), centre=[(r["lat_min"] + r["lat_max"]) / 2, r["long_min"] + gen.width(r) / 2])
        else:
            p.update(vertical=rng.random() < 0.5)
        return {"loader": kind, "name": p["data_name"], "files": [], "via": None, "params": p}
    return source(rng, loader, r, k, window, nfiles=nfiles or rng.randint(1, 3))


FILE_LOADERS = (["scalar_csv", "vector_csv", "lut_csv", "lut_geojson", "lut_shapefile", "scotland_ncmpa", "amsr", "visual_iced", "icenet", "ecmwf_sig_wave_height", "duacs_currents"]
                + TILED + ["baltic_sic", "baltic_currents", "northsea_currents"] + list(ERA5))
MADE_LOADERS = ["density", "thickness", "scalar_grf", "binary_grf", "vector_grf", "shape", "vector_shape"]


def write_all(sp, base="."):
    for s in sp["sources"]:
        for f in s["files"]:
            if "rows" in f:
                gen.write(os.path.join(base, f["path"]), gen.csv_text(f["cols"], f["rows"]))
            else:
                write_file(s["loader"], f, base)
