"""Oracles: geometry, adjacency, comparison of meshes.  No code of the system under test."""
import json
import math
import re

from .core import Violation

DIRS = {1: "NE", 2: "E", 3: "SE", 4: "S", -1: "SW", -2: "W", -3: "NW", -4: "N"}


def _nums(s):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", s)]


def box_of(geometry):
    """WKT -> (lat0, lat1, lon0, width) with lon0 in [-180, 180) ."""
    g = geometry.strip()
    if g.startswith("MULTIPOLYGON"):
        parts = g[g.index("(((") + 3:].rsplit(")))", 1)[0].split(")), ((")
        if len(parts) != 2:
            raise Violation("geometry", f"cell with {len(parts)} polygons: {g}")
        bx = []
        for p in parts:
            n = _nums(p)
            bx.append((min(n[1::2]), max(n[1::2]), min(n[0::2]), max(n[0::2])))
        a, b = bx
        if a[2] < b[2]:
            a, b = b, a
        # a: the part ending at 180, b: the part starting at -180
        if not (a[3] == 180 and b[2] == -180 and a[:2] == b[:2]):
            raise Violation("geometry", f"not a rectangle over the antimeridian: {g}")
        return norm(a[0], a[1], a[2], (a[3] - a[2]) + (b[3] - b[2]))
    if not g.startswith("POLYGON"):
        raise Violation("geometry", f"cell geometry is not a polygon: {g[:80]}")
    n = _nums(g)
    xs, ys = n[0::2], n[1::2]
    if len(xs) != 5 or len(set(zip(xs, ys))) != 4 or len(set(xs)) != 2 or len(set(ys)) != 2:
        raise Violation("geometry", f"cell geometry is not a rectangle: {g}")
    return norm(min(ys), max(ys), min(xs), max(xs) - min(xs))


def norm(lat0, lat1, lon0, w):
    lon0 = float(lon0)
    while lon0 >= 180:
        lon0 -= 360
    while lon0 < -180:
        lon0 += 360
    return (float(lat0), float(lat1), lon0, float(w))


def region_box(region):
    d = region["long_max"] - region["long_min"]
    return norm(region["lat_min"], region["lat_max"], region["long_min"], d if d > 0 else d + 360)


def contains(outer, inner):
    """inner box inside outer box (periodic)."""
    if inner[0] < outer[0] or inner[1] > outer[1]:
        return False
    off = (inner[2] - outer[2]) % 360
    return off + inner[3] <= outer[3]


def area(b):
    return (b[1] - b[0]) * b[3]


def overlap(a, b):
    if not (a[0] < b[1] and b[0] < a[1]):
        return False
    return _lon_overlap(a, b)


def _lon_overlap(a, b):
    for k in (-360.0, 0.0, 360.0):
        lo = b[2] + k
        if a[2] < lo + b[3] and lo < a[2] + a[3]:
            return True
    return False


def adjacency(boxes):
    """boxes: {id: box}.  -> {id: {dir: set(ids)}} by geometry alone (periodic in longitude)."""
    ids = list(boxes)
    out = {i: {d: set() for d in DIRS} for i in ids}
    # index by edges
    for ii, i in enumerate(ids):
        a = boxes[i]
        aS, aN, aW, aE = a[0], a[1], a[2], a[2] + a[3]
        for j in ids:
            if i == j:
                continue
            b = boxes[j]
            bS, bN = b[0], b[1]
            if bS > aN or bN < aS:
                continue
            east = (b[2] - aE) % 360 == 0
            west = (b[2] + b[3] - aW) % 360 == 0
            lat_ov = bS < aN and aS < bN
            if bS == aN:
                if _lon_overlap(a, b):
                    out[i][-4].add(j)
                else:
                    if east:
                        out[i][1].add(j)
                    if west:
                        out[i][-3].add(j)
            elif bN == aS:
                if _lon_overlap(a, b):
                    out[i][4].add(j)
                else:
                    if east:
                        out[i][3].add(j)
                    if west:
                        out[i][-1].add(j)
            elif lat_ov:
                if east:
                    out[i][2].add(j)
                if west:
                    out[i][-2].add(j)
    return out


def cells_of(mesh_json):
    """id -> (box, values)  with per-cell self-consistency checks."""
    out = {}
    for c in mesh_json["cellboxes"]:
        cid = str(c["id"])
        if cid in out:
            raise Violation("duplicate-id", f"cell id {cid} appears twice")
        b = box_of(c["geometry"])
        # centre and half-sizes must describe the same rectangle
        if (c["dcx"] * 2 != b[3] or c["dcy"] * 2 != b[1] - b[0]
                or c["cy"] - c["dcy"] != b[0] or ((c["cx"] - c["dcx"]) - b[2]) % 360 != 0):
            raise Violation("geometry", f"cell {cid}: centre/half-size disagree with polygon: {c}")
        out[cid] = (b, {k: v for k, v in c.items() if k not in ("geometry", "cx", "cy", "dcx", "dcy", "id")})
    return out


def check_tiling(cells, regions, base=None, max_depth=None):
    """The cells tile the union of region boxes (given as disjoint boxes) exactly."""
    boxes = [b for b, _ in cells.values()]
    for b in boxes:
        if not (b[1] > b[0] and b[3] > 0):
            raise Violation("tiling", f"degenerate cell {b}")
    total = sum(area(r) for r in regions)
    got = sum(area(b) for b in boxes)
    srt = sorted(cells.items(), key=lambda kv: kv[1][0][0])
    for i, (ia, (a, _)) in enumerate(srt):
        for ib, (b, _) in srt[i + 1:]:
            if b[0] >= a[1]:
                break
            if overlap(a, b):
                raise Violation("tiling", f"cells {ia} {a} and {ib} {b} overlap")
    for i, (b, _) in cells.items():
        if not any(contains(r, b) for r in regions) and not _covered(b, regions):
            raise Violation("tiling", f"cell {i} {b} lies outside the mesh region {regions}")
    if got != total:
        raise Violation("tiling", f"cells cover {got} square degrees of {total}: gaps")


def _covered(b, regions):
    """b inside the union of disjoint boxes: area of intersections equals its area."""
    s = 0.0
    for r in regions:
        h = min(b[1], r[1]) - max(b[0], r[0])
        if h <= 0:
            continue
        for k in (-360.0, 0.0, 360.0):
            w = min(b[2] + k + b[3], r[2] + r[3]) - max(b[2] + k, r[2])
            if w > 0:
                s += h * w
    return s == area(b)


def graph_of(mesh_json):
    g = {}
    for k, m in mesh_json["neighbour_graph"].items():
        g[str(k)] = {int(d): [str(x) for x in v] for d, v in m.items()}
    return g


def check_graph(mesh_json, cells=None):
    cells = cells or cells_of(mesh_json)
    g = graph_of(mesh_json)
    ids = set(cells)
    if set(g) != ids:
        raise Violation("graph-nodes", f"graph has nodes without cell {sorted(set(g) - ids)[:5]}, "
                                       f"cells without node {sorted(ids - set(g))[:5]}")
    want = adjacency({i: b for i, (b, _) in cells.items()})
    for i in g:
        if set(g[i]) != set(DIRS):
            raise Violation("graph-directions", f"node {i} lists directions {sorted(g[i])}")
        for d in DIRS:
            have = g[i][d]
            if len(have) != len(set(have)):
                raise Violation("graph-duplicate", f"cell {i} lists a neighbour twice to the {DIRS[d]}: {have}")
            if set(have) != want[i][d]:
                extra = sorted(set(have) - want[i][d])
                miss = sorted(want[i][d] - set(have))
                ex = extra or miss
                raise Violation("graph-extra" if extra else "graph-missing",
                                f"cell {i} {cells[i][0]} {DIRS[d]}: graph says {sorted(have)}, geometry says "
                                f"{sorted(want[i][d])} ({ex[0]} is {cells[ex[0]][0] if ex[0] in cells else 'no cell'})")


def same_value(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def close_value(a, b, rel=1e-9):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        return fa == fb or abs(fa - fb) <= rel * max(1.0, abs(fa), abs(fb))
    return same_value(a, b)


def canon(mesh_json):
    """Order-free, NaN-safe canonical text of a mesh (what a user can observe in it)."""
    return json.dumps(mesh_json, sort_keys=True)


def same_mesh(a, b, config=True):
    """None if two mesh JSONs are the same mesh, else a description of the difference.
    Cell and neighbour order do not matter."""
    ca, cb = cells_of(a), cells_of(b)
    if set(ca) != set(cb):
        return f"cell ids differ: only in first {sorted(set(ca) - set(cb))[:4]}, only in second {sorted(set(cb) - set(ca))[:4]}"
    for i in ca:
        if ca[i][0] != cb[i][0]:
            return f"cell {i}: geometry {ca[i][0]} vs {cb[i][0]}"
        if not same_value(ca[i][1], cb[i][1]):
            return f"cell {i} {ca[i][0]}: values {ca[i][1]} vs {cb[i][1]}"
    ga, gb = graph_of(a), graph_of(b)
    if set(ga) != set(gb):
        return "graph nodes differ"
    for i in ga:
        for d in DIRS:
            if sorted(ga[i].get(d, [])) != sorted(gb[i].get(d, [])):
                return f"cell {i} neighbours {DIRS[d]}: {ga[i].get(d)} vs {gb[i].get(d)}"
    if config and not same_value(a["config"], b["config"]):
        return f"config differs: {first_diff(a['config'], b['config'])}"
    return None


def first_diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}/{k} only in {'first' if k in a else 'second'}"
            if not same_value(a[k], b[k]):
                return first_diff(a[k], b[k], f"{path}/{k}")
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            if not same_value(x, y):
                return first_diff(x, y, f"{path}[{i}]")
    return f"{path}: {str(a)[:100]} vs {str(b)[:100]}"
