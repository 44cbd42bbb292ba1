"""
Operation histories on in-memory meshes, with saves, faults, crashes and reloads.

Meshes: index 0 is the main mesh, 1.. are `parts`.  An op is a JSON dict; positions are fractions
of the current cell list (ordered by id), so an op is meaningful whatever the mesh looks like.
"""
import json
import math
import os

from . import cmds, disk, gen, oracle, world
from .core import Violation

# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------
VALUES = [1.5, -3, 0, 1e-9, 1e300, 1e20, -9999.0, 2 ** 60 + 1, -0.0, True, False, "text", [1.0, 2.0], float("nan"), float("inf"), None]


# one value for every cell (j-th cell, seed), None: the cell has none
LAYERS = {"bits": lambda j, z: (j * 7 + z) // 3 % 2, "bits_float": lambda j, z: float((j * 5 + z) // 2 % 2), "bools": lambda j, z: (j + z) % 3 == 0,
          "all_true": lambda j, z: True, "all_false": lambda j, z: False, "zeros": lambda j, z: 0, "ints": lambda j, z: (j * 31 + z) % 50 - 25,
          "floats": lambda j, z: (j * 17 + z) / 8 - 9, "lists": lambda j, z: [float(j), z / 4], "nan_mix": lambda j, z: float("nan") if (j + z) % 2 else j + 0.5,
          "inf_mix": lambda j, z: float("-inf") if (j + z) % 3 == 0 else float(j), "some": lambda j, z: None if (j + z) % 2 else j * 1.25,
          "some_bools": lambda j, z: None if (j + z) % 2 else j % 3 == 0, "huge_ints": lambda j, z: 10 ** 15 + j + z}


def border_points(rng, r, n):
    """Points on or near grid lines at some refinement level, corners, the region edge, outside."""
    out = []
    nx, ny = gen.grid(r)
    for _ in range(n):
        k = rng.randint(0, 5)
        f = 2 ** k
        ix, iy = rng.randint(0, nx * f), rng.randint(0, ny * f)
        x = gen.wrap(r["long_min"] + ix * r["cell_width"] / f)
        y = r["lat_min"] + iy * r["cell_height"] / f
        c = rng.random()
        py, px = gen.point_in(rng, r)
        if c < 0.25:
            out.append([y, x])
        elif c < 0.5:
            out.append([y, px])
        elif c < 0.75:
            out.append([py, x])
        elif c < 0.9:
            out.append([py, px])
        else:
            out.append([round(rng.uniform(-89, 89), 3), round(rng.uniform(-179, 179), 3)])
    return out


def gen_ops(rng, r, nparts, n, weights=None):
    wts = {"split": 5, "points": 3, "update": 2, "merge": 3 if nparts else 0, "reload": 2, "save": 2, "crash": 1,
           "query": 1, "badmerge": 0, "badupdate": 0, "badsave": 0, "export": 1, "tweak": 1, "layer": 1}
    wts.update(weights or {})
    ks = [k for k in wts if wts[k]]
    ops = []
    for _ in range(n):
        k = rng.choices(ks, [wts[x] for x in ks])[0]
        on = 0 if rng.random() < 0.85 or not nparts else rng.randint(1, nparts)
        o = {"op": k, "on": on}
        if k == "split":
            o["pick"] = rng.randrange(10000) / 10000
            if ops and ops[-1]["op"] == "split" and rng.random() < 0.3:
                o["pick"] = 0.9999                       # a child of the last split
        elif k == "points":
            if rng.random() < 0.5:
                o["pts"] = [list(gen.point_in(rng, r)) for _ in range(rng.randint(1, 3))]
            else:
                o["pts"] = border_points(rng, r, rng.randint(1, 4))
            if rng.random() < 0.2:
                o["pts"] += o["pts"][:1]
        elif k == "update":
            o["pick"] = rng.randrange(10000) / 10000
            o["values"] = {rng.choice(["speed", "fuel", "SIC", "flag", "note", "time"]): rng.choice(VALUES)
                           for _ in range(rng.randint(1, 2))}
        elif k == "merge":
            o["part"] = rng.randint(1, nparts)
            o["on"] = 0 if rng.random() < 0.85 else rng.randint(1, nparts)
        elif k == "save":
            o["fmt"] = rng.choice(["JSON", "JSON", "GEOJSON"])
            o["slot"] = rng.randint(0, 1)
            o["faults"] = save_faults(rng) if rng.random() < 0.4 else []
        elif k == "crash":
            o["slot"] = rng.randint(0, 1)
            o["frac"] = rng.randrange(1000) / 1000
            o["where"] = rng.choice(["write", "write", "close", "open_w", "after"])
            o["arg"] = rng.choice([0, 1, 50, 4000])
            o["mode"] = rng.choice(["process", "machine"])
            o["policy"] = {"kind": rng.choice(["old", "empty", "prefix", "zeros", "zerotail", "full"]),
                           "frac": rng.randrange(1000) / 1000}
        elif k == "query":
            o["pts"] = [list(gen.point_in(rng, r)) for _ in range(2)]
        elif k == "layer":
            o.update(name=rng.choice(["ice", "speed", "flag", "L"]), kind=rng.choice(sorted(LAYERS)), seed=rng.randint(0, 99))
        elif k == "tweak":
            o["pick"] = rng.randrange(10000) / 10000
        elif k == "badupdate":
            if rng.random() < 0.4:
                o["what"] = rng.choice(["none", "number", "object", "object"])
            o["index"] = rng.choice(["len", "len+3", -1, -2, "-len", "-len-1", 10 ** 6])
        elif k == "badmerge":
            o["how"] = rng.choice(["shift_lat", "shift_long", "width", "height"])
        elif k == "badsave":
            o["how"] = rng.choice(["nodir", "write", "write", "close", "open_w", "params", "badparams", "unserialisable", "format"])
            o["fmt"] = rng.choice(["JSON", "GEOJSON"])
            o["frac"] = rng.randrange(1000) / 1000
            o["errno"] = rng.choice(["ENOSPC", "EIO"])
            o["slot"] = rng.choice([None, 0, 1])
            o["again"] = rng.choice(["other", "same", "later"])
        ops.append(o)
    if wts["save"] and rng.random() < 0.15:
        # save, change a value without changing the size of the file, save again in the same place
        at, s = rng.randint(0, len(ops)), {"op": "save", "on": 0, "fmt": rng.choice(["JSON", "JSON", "GEOJSON"]), "slot": 0, "faults": []}
        ops[at:at] = [s, {"op": "tweak", "on": 0, "pick": rng.randrange(10000) / 10000}, dict(s)]
    return ops


def save_faults(rng):
    return [{"op": rng.choice(["write", "write", "close", "open_w"]), "on": "work/*", "frac": rng.randrange(1000) / 1000,
             "count": "work/*", "kind": "error", "errno": rng.choice(["ENOSPC", "EIO"]), "arg": rng.choice([0, 10])}]


def gen_history(rng, tier, weights=None, nops=None, region_kind=None, parts=None, outside=0.15, max_cells=None):
    r = gen.region(rng, region_kind, max_cells=max_cells or (6 if tier == "quick" else 9))
    sp = gen.spec(rng, r, depth=rng.choice([0, 1, 1, 2, 2]))
    deep = rng.random() < 0.12
    if deep:
        sp["depth"] = rng.randint(5, 8)                  # the data must not split that far: the operations do
        for s in sp["sources"]:
            s["params"].pop("splitting_conditions", None)
    ps = []
    n = parts if parts is not None else rng.choice([0, 1, 1, 2])
    for i in range(n):
        base = ps[-1]["region"] if ps and rng.random() < 0.2 else r
        sr = cmds.sub_region(rng, base)
        if rng.random() < outside and r["kind"] != "global":
            # shift by whole cells, so that it sticks out of or lies next to the main mesh
            kx, ky = rng.randint(-2, 2), rng.randint(-1, 1)
            y0 = sr["lat_min"] + ky * r["cell_height"]
            if -85 < y0 and sr["lat_max"] + ky * r["cell_height"] < 85:
                wd = gen.width(sr)
                x0 = gen.wrap(sr["long_min"] + kx * r["cell_width"])
                if x0 == 180:
                    x0 = -180
                x1 = x0 + wd
                sr.update(lat_min=y0, lat_max=sr["lat_max"] + ky * r["cell_height"], long_min=x0,
                          long_max=x1 - 360 if x1 > 180 else x1)
        s2 = gen.spec(rng, sr, depth=rng.choice([0, 1, 1, 2]))
        for s in s2["sources"]:
            for f in s["files"]:
                f["path"] = f["path"].replace("data/", f"data{i + 2}/")
        ps.append(s2)
    ops = gen_ops(rng, r, n, nops or rng.randint(2, 7 if tier == "quick" else 12), weights)
    if deep:
        at = rng.randint(0, len(ops))
        if rng.random() < 0.5:
            ops[at:at] = [{"op": "points", "on": 0, "pts": [list(gen.point_in(rng, r))]}]
        else:
            ops[at:at] = [{"op": "split", "on": 0, "pick": rng.randrange(10000) / 10000}] + \
                         [{"op": "split", "on": 0, "pick": 0.9999} for _ in range(rng.randint(3, 7))]
    return {"spec": sp, "parts": ps, "fresh": rng.random() < 0.3, "ops": ops,
            "shrink_lists": ["ops", "spec/sources"]}


def shrink(plan):
    yield from gen.shrink_spec(plan)
    for i, p in enumerate(plan["parts"]):
        for q in gen.shrink_spec({"p": p}, "p"):
            n = gen.clone(plan)
            n["parts"][i] = q["p"]
            yield n
    for i, o in enumerate(plan["ops"]):
        if "pts" in o and len(o["pts"]) > 1:
            for j in range(len(o["pts"])):
                n = gen.clone(plan)
                del n["ops"][i]["pts"][j]
                yield n


# ---------------------------------------------------------------------------
# helpers over mesh JSON
# ---------------------------------------------------------------------------
def by_id(js):
    return sorted(js["cellboxes"], key=lambda c: int(c["id"]))


def pick_cell(js, frac):
    cs = by_id(js)
    return cs[min(len(cs) - 1, int(frac * len(cs)))]


def grid_cells(region, base):
    """Region as a set of boxes of the base grid (base: the main mesh's region dict)."""
    w, h = base["cell_width"], base["cell_height"]
    nx = round(gen.width(region) / w)
    ny = round((region["lat_max"] - region["lat_min"]) / h)
    out = set()
    for i in range(nx):
        for j in range(ny):
            out.add(oracle.norm(region["lat_min"] + j * h, region["lat_min"] + (j + 1) * h,
                                region["long_min"] + i * w, w))
    return out


def point_in_box(b, lat, lon, strict):
    off = (lon - b[2]) % 360
    if strict:
        return b[0] < lat < b[1] and 0 < off < b[3]
    return b[0] <= lat <= b[1] and (off <= b[3] or off == 0 or (b[3] >= 360))


def on_border(b, lat, lon):
    if abs(lon) == 180 and point_in_box(b, lat, lon, False):
        return True                                      # the 180 meridian cuts a polygon in two
    return point_in_box(b, lat, lon, False) and not point_in_box(b, lat, lon, True)


def check_remarks(js, what):
    """Whatever else the recorded configuration holds survives loading as well."""
    doc = gen.clone(js)
    doc["config"]["mesh_info"].update(remark="", flags=[], settings={"n": 0, "none": None, "off": False, "nested": [{}]})
    m = world.must(world.load, doc, what=what)
    d = oracle.same_mesh(world.must(m.to_json, what=what), doc)
    if d:
        raise Violation("reload-differs", f"{what}: a mesh with further entries in its configuration loads as another: {d}")


class Hist:
    """Executes a history.  `focus` selects which properties are asserted."""

    def __init__(self, plan, ctx, focus):
        self.plan, self.ctx, self.focus = plan, ctx, focus
        self.meshes = []
        self.regions = []
        self.base = []
        self.expect_other = {}
        self.slots = {}
        self.sizes = None
        self.owed = []                       # saves that failed and are made up for at the end

    # -- set up --------------------------------------------------------------
    def start(self):
        os.makedirs("work", exist_ok=True)
        for i, sp in enumerate([self.plan["spec"]] + self.plan["parts"]):
            gen.materialise(sp)
            m = world.must(world.build, gen.config(sp), what="building a mesh")
            if not (self.plan.get("fresh") and i == 0):
                m = world.must(world.load, m.to_json(), what="loading a mesh")
            self.meshes.append(m)
            self.regions.append(grid_cells(sp["region"], sp["region"]))
            self.base.append(sp["region"])
        for i in range(len(self.meshes)):
            self.invariants(i, "build")
        self.checkpoint(0)

    def js(self, i):
        return world.must(self.meshes[i].to_json, what="converting the mesh to JSON")

    def checkpoint(self, i):
        """The last durably saved state of the main mesh."""
        js = self.js(0)
        world.dump("work/ck.json", js)
        self.ck = (js, set(self.regions[0]))

    # -- invariants ------------------------------------------------------------
    def invariants(self, i, after):
        js = self.js(i)
        cells = oracle.cells_of(js)
        if "tiling" in self.focus:
            self.guard(after, oracle.check_tiling, cells, list(self.regions[i]))
        if "graph" in self.focus:
            self.guard(after, oracle.check_graph, js, cells)
        self.ctx.count("cells_checked", len(cells))
        return js, cells

    def guard(self, after, fn, *a):
        try:
            fn(*a)
        except Violation as v:
            raise Violation(v.kind, f"after {after}: {v.detail}")

    # -- the run -----------------------------------------------------------------
    def run(self):
        self.start()
        shape = []
        done = 0
        for n, op in enumerate(self.plan["ops"]):
            on = op["on"] if op["on"] < len(self.meshes) else 0
            before = [self.js(i) for i in range(len(self.meshes))]
            name = f"op {n} ({op['op']})"
            r = getattr(self, "do_" + op["op"])(op, on, before, name)
            if r is False:
                self.ctx.count("skipped:" + op["op"])
                continue
            done += 1
            self.ctx.count("op:" + op["op"])
            for i in range(len(self.meshes)):
                js, cells = self.invariants(i, name)
                if i not in (r or ()) and ("isolation" in self.focus):
                    d = oracle.same_mesh(js, before[i])
                    if d:
                        raise Violation("unrelated-mesh-changed", f"{name} changed a mesh it was not applied to: {d}")
            shape.append([op["op"], on, len(self.js(0)["cellboxes"]), r is None])
            self.ctx.ev("op", n, op["op"], len(self.js(0)["cellboxes"]))
        self.settle("at the end")
        sizes = sorted({round(c["dcx"], 6) for c in self.js(0)["cellboxes"]})
        self.ctx.state(self.plan["spec"]["region"]["kind"], shape, len(sizes))
        if done:
            self.ctx.count("nontrivial")

    # each do_* returns the tuple of mesh indices it may have changed, or False if not applicable
    def do_split(self, op, on, before, name):
        c = pick_cell(before[on], op["pick"])
        if len(before[on]["cellboxes"]) > 150 or c["dcx"] * 2 <= self.base[on]["cell_width"] / 256:
            return False
        world.must(self.meshes[on].split_and_replace, c["id"], what=f"{name} splitting cell {c['id']}")
        if "values" in self.focus:
            self.check_refined(before[on], self.js(on), [c["id"]], name)
        return (on,)

    def check_refined(self, b, a, ids, name):
        """Cells `ids` of b were replaced by quarters carrying their values; all others untouched."""
        cb, ca = oracle.cells_of(b), oracle.cells_of(a)
        for i in cb:
            if i in ids:
                if i in ca:
                    raise Violation("split-kept-parent", f"{name}: cell {i} still there after being split")
                kids = [k for k in ca if k not in cb and oracle.contains(cb[i][0], ca[k][0])]
                if len(kids) != 4:
                    raise Violation("split-children", f"{name}: cell {i} has {len(kids)} children")
                for k in kids:
                    if ca[k][0][3] * 2 != cb[i][0][3] or (ca[k][0][1] - ca[k][0][0]) * 2 != cb[i][0][1] - cb[i][0][0]:
                        raise Violation("split-children", f"{name}: child {ca[k][0]} is not a quarter of {cb[i][0]}")
                    if not oracle.same_value(ca[k][1], cb[i][1]):
                        raise Violation("values-not-inherited", f"{name}: child {k} has {ca[k][1]}, parent had {cb[i][1]}")
            elif i not in ca:
                raise Violation("unrelated-cell-changed", f"{name}: cell {i} vanished")
            elif ca[i][0] != cb[i][0] or not oracle.same_value(ca[i][1], cb[i][1]):
                raise Violation("unrelated-cell-changed", f"{name}: cell {i} changed from {cb[i]} to {ca[i]}")

    def do_points(self, op, on, before, name):
        if len(before[on]["cellboxes"]) > 120:
            return False
        pts = [tuple(p) for p in op["pts"]]
        world.must(self.meshes[on].split_points, [tuple(p) for p in pts], what=f"{name} at {pts}")
        if "points" in self.focus:
            self.check_points(before[on], self.js(on), pts, name)
        return (on,)

    def check_points(self, b, a, pts, name):
        cfg = b["config"]["mesh_info"]
        depth = cfg["splitting"]["split_depth"]
        minw, minh = cfg["region"]["cell_width"] / 2 ** depth, cfg["region"]["cell_height"] / 2 ** depth
        cb, ca = oracle.cells_of(b), oracle.cells_of(a)
        for lat, lon in pts:
            if any(on_border(x, lat, lon) for x, _ in cb.values()):
                self.ctx.count("points_on_old_border")
                continue
            inside = [i for i, (x, _) in ca.items() if point_in_box(x, lat, lon, True)]
            if any(on_border(x, lat, lon) for x, _ in ca.values()):
                # met the border of a new cell: the cells around it must not be coarser than their quarter
                self.ctx.count("points_on_new_border")
                continue
            if not inside:
                continue
            x = ca[inside[0]][0]
            if not (x[3] <= minw or x[1] - x[0] <= minh):
                raise Violation("point-not-refined", f"{name}: point {(lat, lon)} is in cell {inside[0]} {x} larger than "
                                                     f"the cap {minw} x {minh}")
            self.ctx.count("points_refined")
        for i, (x, vals) in cb.items():
            hit = [p for p in pts if point_in_box(x, p[0], p[1], False)]
            if i in ca:
                if ca[i][0] != x or not oracle.same_value(ca[i][1], vals):
                    raise Violation("unrelated-cell-changed", f"{name}: cell {i} changed from {(x, vals)} to {ca[i]}")
            elif not hit:
                raise Violation("unrelated-cell-changed", f"{name}: cell {i} {x} was split but holds none of {pts}")
        for i, (x, vals) in ca.items():
            if i in cb:
                continue
            par = [j for j in cb if oracle.contains(cb[j][0], x)]
            if len(par) != 1:
                raise Violation("split-children", f"{name}: new cell {i} {x} does not lie in one old cell")
            P, pv = cb[par[0]]
            if not oracle.same_value(vals, pv):
                raise Violation("values-not-inherited", f"{name}: new cell {i} has {vals}, cell {par[0]} had {pv}")
            if x[3] < minw or x[1] - x[0] < minh:
                raise Violation("split-below-cap", f"{name}: new cell {i} {x} is smaller than the cap {minw} x {minh}")
            w2, h2 = x[3] * 2, (x[1] - x[0]) * 2
            off = (x[2] - P[2]) % 360
            parent = oracle.norm(P[0] + math.floor((x[0] - P[0]) / h2) * h2, P[0] + math.floor((x[0] - P[0]) / h2) * h2 + h2,
                                 P[2] + math.floor(off / w2) * w2, w2)
            if not any(point_in_box(parent, p[0], p[1], False) for p in pts):
                raise Violation("split-too-far", f"{name}: new cell {i} {x} refined although no point lies in {parent}")

    def do_update(self, op, on, before, name):
        c = pick_cell(before[on], op["pick"])
        idx = [x["id"] for x in before[on]["cellboxes"]].index(c["id"])
        world.must(self.meshes[on].update_cellbox, idx, gen.clone(op["values"]), what=name)
        if "values" in self.focus:
            cb, ca = oracle.cells_of(before[on]), oracle.cells_of(self.js(on))
            if set(ca) != set(cb):
                raise Violation("update-changed-cells", f"{name}: ids changed")
            for i in cb:
                want = dict(cb[i][1])
                if i == str(c["id"]):
                    want.update(op["values"])
                if ca[i][0] != cb[i][0] or not oracle.same_value(ca[i][1], want):
                    raise Violation("wrong-update", f"{name}: cell {i} is {ca[i][1]}, expected {want}")
        return (on,)

    def do_layer(self, op, on, before, name):
        """Give every cell a value of one kind."""
        for j in range(len(before[on]["cellboxes"])):
            v = LAYERS[op["kind"]](j, op["seed"])
            if v is not None:
                world.must(self.meshes[on].update_cellbox, j, {op["name"]: v}, what=name)
        return (on,)

    def do_tweak(self, op, on, before, name):
        """Change one number to another whose text has the same length."""
        c = pick_cell(before[on], op["pick"])
        for k in sorted(c):
            if k not in ("geometry", "cx", "cy", "dcx", "dcy", "id"):
                v = gen.alike_value(c[k])
                if v != c[k] and v == v and isinstance(v, float):
                    return self.do_update({"pick": op["pick"], "values": {k: v}}, on, before, name)
        return False

    def compatible(self, on, k, before):
        """Aligned, non-straddling, not self."""
        if on == k:
            return False
        A, B = self.base[on], self.base[k]
        w, h = A["cell_width"], A["cell_height"]
        if gen.width(B) % w or (B["lat_max"] - B["lat_min"]) % h:
            return False
        if (A["lat_min"] - B["lat_min"]) % h or (A["long_min"] - B["long_min"]) % w:
            return False
        rb = oracle.region_box(B)
        if not all(oracle.contains(rb, g) for g in self.regions[k]):
            return False                                 # the part itself was extended by a merge
        for c, _ in oracle.cells_of(before[on]).values():
            if oracle.overlap(c, rb) and not oracle.contains(rb, c):
                self.ctx.count("straddle")
                return False
        return True

    def do_merge(self, op, on, before, name):
        k = op["part"]
        if k >= len(self.meshes) or not self.compatible(on, k, before):
            return False
        if on and not grid_cells(self.base[k], self.base[on]) <= self.regions[on]:
            return False
        if len(before[on]["cellboxes"]) > 150:
            return False
        world.must(self.meshes[on].merge_mesh, self.meshes[k], what=name)
        self.regions[on] = self.regions[on] | grid_cells(self.base[k], self.base[on])
        if "merge" in self.focus:
            self.check_merge(before[on], before[k], self.js(on), k, name)
        return (on,)

    def check_merge(self, b1, b2, a, k, name):
        d = oracle.same_mesh(self.js(k), b2)
        if d:
            raise Violation("given-mesh-modified", f"{name}: the given mesh changed: {d}")
        rb = oracle.region_box(self.base[k])
        c1, c2, ca = oracle.cells_of(b1), oracle.cells_of(b2), oracle.cells_of(a)
        keep = {i: c for i, c in c1.items() if not oracle.contains(rb, c[0])}
        for i, (x, v) in keep.items():
            if i not in ca:
                raise Violation("merge-lost-cell", f"{name}: cell {i} {x} outside the merged region is gone")
            if ca[i][0] != x or not oracle.same_value(ca[i][1], v):
                raise Violation("merge-changed-cell", f"{name}: cell {i} changed from {(x, v)} to {ca[i]}")
        new = {ca[i][0]: ca[i][1] for i in ca if i not in keep}
        want = {x: v for x, v in c2.values()}
        if set(new) != set(want) or len(ca) != len(keep) + len(want):
            raise Violation("merge-wrong-cells", f"{name}: cells inside the merged region are not the given mesh's: "
                                                 f"missing {sorted(set(want) - set(new))[:3]} extra {sorted(set(new) - set(want))[:3]}")
        for x in want:
            if not oracle.same_value(new[x], want[x]):
                raise Violation("merge-changed-values", f"{name}: cell {x} has {new[x]}, the given mesh had {want[x]}")
        cb, cafter = b1["config"]["mesh_info"], dict(a["config"]["mesh_info"])
        merged = cafter.pop("merged", None)
        old = dict(cb)
        oldm = old.pop("merged", [])
        if not oracle.same_value(cafter, old):
            raise Violation("merge-config", f"{name}: configuration changed: {oracle.first_diff(old, cafter)}")
        if not oracle.same_value(merged, oldm + [b2["config"]["mesh_info"]]):
            raise Violation("merge-config", f"{name}: the given mesh's configuration is not recorded")

    def do_reload(self, op, on, before, name):
        self.meshes[on] = world.must(world.load, before[on], what=name)
        return ()

    def do_query(self, op, on, before, name):
        m = self.meshes[on]
        cells = oracle.cells_of(before[on])
        for p in op["pts"]:
            inside = [i for i, (x, _) in cells.items() if point_in_box(x, p[0], p[1], True)]
            border = any(on_border(x, p[0], p[1]) for x, _ in cells.values())
            if border:
                continue
            got = world.must(m.query_inside_mesh, tuple(p), what=name)
            if "values" in self.focus and bool(got) != bool(inside):
                raise Violation("query", f"{name}: point {p} inside={got}, geometry says {bool(inside)}")
            if inside:
                i = world.must(m.query_index, tuple(p), what=name)
                if "values" in self.focus and str(i) != inside[0]:
                    raise Violation("query", f"{name}: point {p} is in cell {i}, geometry says {inside[0]}")
        return ()

    @staticmethod
    def geojsonable(js):
        """GeoJSON export is defined for numbers, booleans and lists of numbers."""
        for c in js["cellboxes"]:
            for k, v in c.items():
                if k not in ("id", "geometry") and (v is None or isinstance(v, str)):
                    return False
        return True

    def do_export(self, op, on, before, name):
        if not self.geojsonable(before[on]):
            return False
        g = world.must(self.meshes[on].to_geojson, what=name)
        if "geojson" in self.focus:
            self.guard(name, check_geojson, g, before[on])
        return ()

    def do_save(self, op, on, before, name):
        if op["fmt"] == "GEOJSON" and not self.geojsonable(before[on]):
            return False
        out = f"work/s{op['slot']}.out"
        d0 = disk.SimDisk(os.getcwd(), self.ctx)
        if op["faults"]:
            with d0:
                world.attempt(self.meshes[on].save, "work/dry.out", op["fmt"])
        d = disk.SimDisk(os.getcwd(), self.ctx, cmds.resolve(op["faults"], d0.counts))
        with d:
            o = world.attempt(self.meshes[on].save, out, op["fmt"])
        if not d.hard_fired and not o.ok:
            raise Violation("unexpected-error", f"{name} failed without any injected fault: {o!r}")
        if o.ok:
            got, why = world.read_json(out)
            if got is None:
                raise Violation("incomplete-output", f"{name}: saved file is {why}")
            if op["fmt"] == "JSON":
                d = oracle.same_mesh(got, before[on])
                if d:
                    raise Violation("saved-file-differs", f"{name}: {d}")
                if on == 0 and "reload" in self.focus:
                    m2, _ = world.must(world.load_file, out, what=f"{name} loading the saved file")
                    d = oracle.same_mesh(world.must(m2.to_json), before[on])
                    if d:
                        raise Violation("reload-differs", f"{name}: loading the saved file gives another mesh: {d}")
            elif "geojson" in self.focus:
                self.guard(name, check_geojson, got, before[on])
        return ()

    def do_crash(self, op, on, before, name):
        """Save over the checkpoint, die somewhere, restart from whatever loads."""
        out = "work/ck.json"
        d0 = disk.SimDisk(os.getcwd(), self.ctx)
        with d0:
            world.must(self.meshes[0].save, "work/dry.out", "JSON", what=name)
        os.remove("work/dry.out")
        faults = []
        if op["where"] != "after":
            faults = cmds.resolve([{"op": op["where"], "on": out, "count": "work/dry.out", "frac": op["frac"],
                                    "kind": "crash", "arg": op["arg"]}], d0.counts)
        d = disk.SimDisk(os.getcwd(), self.ctx, faults)
        d.snapshot()
        with d:
            o = world.attempt(self.meshes[0].save, out, "JSON")
        if faults and not o.crashed:
            # the save never reached that event: it must have completed
            if not o.ok:
                raise Violation("unexpected-error", f"{name}: {o!r}")
        self.meshes[0] = None                             # memory is gone
        d.restart(op["mode"], op["policy"])
        got = world.attempt(world.load_file, out)
        if got.ok:
            js = world.must(got.value[0].to_json, what=name)
            dn, do = oracle.same_mesh(js, before[0]), oracle.same_mesh(js, self.ck[0])
            if dn and do:
                raise Violation("torn-mesh-accepted", f"{name}: after {op['where']} crash ({op['mode']}, {op['policy']}) the "
                                                      f"file loads as neither the old nor the new mesh: {dn}")
            self.meshes[0] = got.value[0]
            if dn:
                self.regions[0] = set(self.ck[1])
            self.ctx.count("crash_loaded_new" if not dn else "crash_loaded_old")
        else:
            self.ctx.count("crash_rejected")
            self.meshes[0] = world.must(world.load, self.ck[0], what=name)
            self.regions[0] = set(self.ck[1])
        self.checkpoint(0)
        return (0,)

    # -- failing operations ------------------------------------------------------
    def unchanged(self, on, before, name, o):
        d = oracle.same_mesh(self.js(on), before[on])
        if d:
            raise Violation("failed-op-changed-mesh", f"{name} failed ({o!r}) but changed the mesh: {d}")

    def do_badupdate(self, op, on, before, name):
        n = len(before[on]["cellboxes"])
        idx = {"len": n, "len+3": n + 3, "-len": -n, "-len-1": -n - 1}.get(op["index"], op["index"])
        if op.get("what"):
            return self.badvalues(op["what"], on, before, name)
        o = world.attempt(self.meshes[on].update_cellbox, idx, {"bogus": 1})
        self.ctx.count("fault:invalid_update")
        if o.ok:
            raise Violation("invalid-accepted", f"{name}: updating cell index {idx} of {n} was accepted")
        self.unchanged(on, before, name, o)
        return ()

    def badvalues(self, what, on, before, name):
        """Values that are not a dict, or not all of a kind a mesh holds: refused without a trace, or taken as given."""
        m = self.meshes[on] if what != "object" else world.load(before[on])       # (taking it as given changes the mesh: on a copy)
        vals = {"none": None, "number": 5, "object": {"aa": 2.5, "zz_obj": object(), "zzz": 3}}[what]
        o = world.attempt(m.update_cellbox, 0, vals)
        self.ctx.count("fault:invalid_values")
        want = json.loads(json.dumps(before[on]))
        if o.ok and what == "object":
            world.must(m.update_cellbox, 0, {"zz_obj": 1.5}, what=name)
            want["cellboxes"][0].update({"aa": 2.5, "zz_obj": 1.5, "zzz": 3})
        d = oracle.same_mesh(json.loads(json.dumps(m.to_json())), want)
        if d:
            raise Violation("wrong-update" if o.ok else "failed-op-changed-mesh", f"{name} ({o!r}): {d}")
        self.unchanged(on, before, name, o)
        return ()

    def do_badmerge(self, op, on, before, name):
        r = self.base[on]
        s = {"region": {"lat_min": r["lat_min"], "lat_max": r["lat_min"] + r["cell_height"], "long_min": r["long_min"],
                        "long_max": gen.wrap(r["long_min"] + r["cell_width"]), "cell_width": r["cell_width"],
                        "cell_height": r["cell_height"]}, "sources": [], "window": ["2020-01-01", "2020-01-02"], "depth": 0, "min_dp": 1}
        q = s["region"]
        if op["how"] == "shift_lat":
            q["lat_min"] += r["cell_height"] / 2
            q["lat_max"] += r["cell_height"] / 2
        elif op["how"] == "shift_long":
            x0 = gen.wrap(q["long_min"] + r["cell_width"] / 2)
            x1 = x0 + r["cell_width"]
            q["long_min"], q["long_max"] = x0, x1 - 360 if x1 > 180 else x1
        elif op["how"] == "width":
            x1 = q["long_min"] + r["cell_width"] * 1.5
            q["long_max"], q["cell_width"] = x1 - 360 if x1 > 180 else x1, r["cell_width"] / 2
        else:
            q["lat_max"] = q["lat_min"] + r["cell_height"] * 1.5
            q["cell_height"] = r["cell_height"] / 2
        m2 = world.must(world.load, world.must(world.build, gen.config(s), what="building").to_json(), what="loading")
        j2 = m2.to_json()
        o = world.attempt(self.meshes[on].merge_mesh, m2)
        self.ctx.count("fault:incompatible_merge")
        if o.ok:
            raise Violation("invalid-accepted", f"{name}: merging a misaligned mesh {q} into {r} was accepted")
        self.unchanged(on, before, name, o)
        d = oracle.same_mesh(m2.to_json(), j2)
        if d:
            raise Violation("failed-op-changed-mesh", f"{name}: a refused merge changed the given mesh: {d}")
        return ()

    def do_badsave(self, op, on, before, name):
        import numpy as np
        m = self.meshes[on]
        how, fmt = op["how"], op["fmt"]
        if not self.geojsonable(before[on]):
            fmt = "JSON"
            if how in ("params", "badparams"):
                return False
        path = "work/bad.out" if op.get("slot") is None else f"work/s{op['slot']}.out"
        if not os.path.exists(path):
            world.dump(path, {"old": 1})
        if how == "nodir":
            o = world.attempt(m.save, "work/none/x.out", fmt)
        elif how == "format":
            o = world.attempt(m.save, path, "XYZ")
        elif how == "params":
            o = world.attempt(m.save, path, "GEOJSON", "work/missing.json")
        elif how == "badparams":
            with disk.real_open("work/p.json", "w") as f:
                f.write("{")
            o = world.attempt(m.save, path, "GEOJSON", "work/p.json")
        elif how == "unserialisable":
            m.update_cellbox(0, {"zz_obj": np.float32(1.5)})
            o = world.attempt(m.save, path, fmt)
            m.update_cellbox(0, {"zz_obj": 1.5})
            if o.ok:
                self.ctx.count("unserialisable_ok")
            before[on] = json.loads(json.dumps(before[on]))
            before[on]["cellboxes"][0]["zz_obj"] = 1.5
        else:
            d0 = disk.SimDisk(os.getcwd(), self.ctx)
            with d0:
                world.must(m.save, "work/dry.out", fmt, what=name)
            os.remove("work/dry.out")
            # whatever files the save goes through (in place, or a scratch file renamed): the fault is on its n-th event
            f = cmds.resolve([{"op": how, "on": "*", "count": "*", "frac": op["frac"], "kind": "error", "errno": op["errno"]}], d0.counts)
            d = disk.SimDisk(os.getcwd(), self.ctx, f)
            with d:
                o = world.attempt(m.save, path, fmt)
            if o.ok and not d.hard_fired:
                self.saved(path, fmt, before[on], "incomplete-output", name)
                return (on,)
        if o.ok and how not in ("unserialisable",):
            raise Violation("failure-not-reported", f"{name}: save as {fmt} with {how} fault reported success")
        self.ctx.count("fault:failed_save:" + how)
        self.unchanged(on, before, name, o)
        # and once the cause is gone it works, at once or after further changes, to the same file or another
        again = op.get("again", "other")
        if again == "later":
            self.owed.append((on, path, fmt))
            return (on,)
        to = path if again == "same" else "work/again.out"
        world.must(m.save, to, fmt, what=f"{name}: saving again after the fault is gone")
        self.saved(to, fmt, before[on], "retry-differs", f"{name}: saving again")
        return (on,)

    def settle(self, name):
        """Saves that failed earlier are made up for: same file, mesh as it is now."""
        for on, path, fmt in self.owed:
            js = self.js(on)
            if fmt == "GEOJSON" and not self.geojsonable(js):
                continue
            world.must(self.meshes[on].save, path, fmt, what=f"{name}: saving to {path} after an earlier save there failed")
            self.saved(path, fmt, js, "retry-differs", f"{name}: saving to {path} after an earlier save there failed")
            self.ctx.count("late_retry")
        self.owed = []

    def saved(self, path, fmt, want, kind, name):
        got, why = world.read_json(path)
        if got is None:
            raise Violation("incomplete-output", f"{name} gave {why}")
        if fmt == "JSON":
            d = oracle.same_mesh(got, want)
            if d:
                raise Violation(kind, f"{name} gave another mesh: {d}")
        else:
            self.guard(name, check_geojson, got, want)


def geo_box(g):
    """GeoJSON geometry -> box."""
    if g["type"] == "Polygon":
        n = g["coordinates"][0]
        xs, ys = [p[0] for p in n], [p[1] for p in n]
        if len(n) != 5 or len(set(xs)) != 2 or len(set(ys)) != 2:
            raise Violation("geojson-geometry", f"not a rectangle: {g}")
        return oracle.norm(min(ys), max(ys), min(xs), max(xs) - min(xs))
    if g["type"] == "MultiPolygon" and len(g["coordinates"]) == 2:
        bx = [geo_box({"type": "Polygon", "coordinates": c}) for c in g["coordinates"]]
        e = [b for b in bx if b[2] != -180] + [b for b in bx if b[2] == -180]
        return oracle.norm(e[0][0], e[0][1], e[0][2], e[0][3] + e[1][3])
    raise Violation("geojson-geometry", f"unexpected geometry {g['type']}")


def check_geojson(g, js, layer=None):
    cells = oracle.cells_of(js)
    if g.get("type") != "FeatureCollection":
        raise Violation("geojson", "not a feature collection")
    seen = {}
    for f in g["features"]:
        i = str(f["properties"].get("id"))
        if i in seen:
            raise Violation("geojson", f"two features for cell {i}")
        seen[i] = f
    if set(seen) != set(cells):
        raise Violation("geojson", f"features {sorted(seen)[:5]}.. for cells {sorted(cells)[:5]}..: "
                                   f"missing {sorted(set(cells) - set(seen))[:3]} extra {sorted(set(seen) - set(cells))[:3]}")
    for i, (b, vals) in cells.items():
        if geo_box(seen[i]["geometry"]) != b:
            raise Violation("geojson-geometry", f"feature of cell {i} is {geo_box(seen[i]['geometry'])}, cell is {b}")
        pr = {k: v for k, v in seen[i]["properties"].items() if k != "id"}
        if layer is not None:
            vals = {k: v for k, v in vals.items() if k == layer}
        for k, v in vals.items():
            have = pr.pop(k, None)
            if not geo_same(v, have):
                raise Violation("geojson-values", f"cell {i} {k}: mesh has {v!r}, GeoJSON has {have!r}")
        for k, v in pr.items():
            if v is not None and layer is not None or (v is not None and k not in all_keys(js)):
                raise Violation("geojson-values", f"cell {i}: unexpected property {k}={v!r}")
            if v is not None and k not in vals:
                raise Violation("geojson-values", f"cell {i} has no {k}, GeoJSON says {v!r}")


def all_keys(js):
    out = set()
    for c in js["cellboxes"]:
        out |= set(c)
    return out - {"geometry", "cx", "cy", "dcx", "dcy"}


def geo_same(v, have):
    if v is False and (have is False or have == 0):
        return True
    if v is None or v is False or (isinstance(v, float) and (math.isnan(v) or math.isinf(v))):
        return have is None or (isinstance(have, float) and math.isnan(have))
    if isinstance(v, bool):
        return have in (True, 1, 1.0)
    if isinstance(v, list):
        m = sum(v) / len(v)
        return geo_same(m, have)
    if isinstance(v, (int, float)):
        return isinstance(have, (int, float)) and (have == v or abs(have - v) <= 1e-12 * abs(v))
    return have == v
