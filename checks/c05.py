"""C05: relative dates are resolved once, against one instant, recorded as used, and never again."""
import datetime as dt
import os

from sim import clock, gen as G, nc, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 450, "budget": 150, "min_runs": 40}, "thorough": {"runs": 40000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (date expressions, start instant class, positions and signs of clock steps, entry point, later phase) signature is new and "
        "in which at least one end of the window was relative")
STATE_MEASURE = "distinct (expression kinds, start class, tick positions, entry, rebuild delay class, records selected) signatures"
REAL = ["MeshBuilder, Boundary, validate_mesh_config", "create_mesh_cli, rebuild_mesh_cli", "scalar_csv, era5_sig_wave_height, density, thickness loaders"]
STUB = ["wall clock: datetime.now/today/utcnow, date.today, time.time/localtime/gmtime/strftime/ctime as seen by the code under test"]
ASSUMPTIONS = ["any instant the clock showed while the mesh was being built is accepted as 'today', as long as both ends use the same one", "time zone UTC"]
PROBES = ["fault:clock_jump_between_reads", "fault:clock_step_back", "crossed_midnight", "rebuilt", "mixed_window", "both_relative", "second_build", "late_build",
          "era5", "entry:cli", "entry:api"]

STARTS = ["2020-02-28T23:59:59", "2020-02-29T12:00:00", "2019-12-31T23:59:58", "2020-01-01T00:00:00", "2021-03-31T23:59:59", "2021-02-28T23:59:59",
          "2022-07-15T08:30:00", "2020-10-25T00:30:00", "2023-11-30T23:59:59", "2024-02-28T23:59:30"]


def expr(rng, sign):
    n = rng.choice([0, 1, 1, 2, 3, 7, 30, 365]) if rng.random() < 0.8 else rng.randint(0, 400)
    if n == 0 and rng.random() < 0.8:
        return "TODAY", 0
    if rng.random() < 0.15:
        n += rng.choice([0.25, 0.5, 0.75])            # part of a day: counts from the time of day
    pad = rng.choice(["", " "])
    return f"TODAY{pad}{sign}{pad}{n}", n if sign == "+" else -n


def gen(rng, tier, i):
    r = G.region(rng, rng.choice(["plain", "plain", "rect", "antimeridian"]), max_cells=4)
    start = rng.choice(STARTS)
    t0 = dt.datetime.fromisoformat(start)
    a, na = expr(rng, "-")
    b, nb = expr(rng, "+")
    c = rng.random()
    if c < 0.12:
        a, na = (t0 + dt.timedelta(days=na - 2)).strftime("%Y-%m-%d"), None
    elif c < 0.24:
        b, nb = (t0 + dt.timedelta(days=nb + 2)).strftime("%Y-%m-%d"), None
    days = sorted({(t0 + dt.timedelta(days=k)).strftime("%Y-%m-%d") for k in
                   list(range(-3, 4)) + [int(na or 0) + j for j in (-2, -1, 0, 1, 2)] + [int(nb or 0) + j for j in (-2, -1, 0, 1, 2)]})
    src = [G.scalar_csv(rng, r, "SIC", 0, dates=days, nfiles=rng.choice([1, 2]), agg=rng.choice(["COUNT", "MAX", "MEAN"]))]
    for f in src[0]["files"]:                         # one record per day in a known cell makes every day visible
        for k, d in enumerate(days):
            y, x = G.point_in(rng, r)
            f["rows"].append([y, x, d, round(100 + k + rng.random(), 3)])
    if r["kind"] in ("plain", "rect") and rng.random() < 0.4:
        lat, lon = nc.grid_axes(rng, r, 2)
        src.append({"loader": "era5_sig_wave_height", "name": "swh", "via": rng.choice(["files", "folder"]), "params": {},
                    "files": [{"path": f"data/era/era5_data_{d}.nc", "lat": lat, "lon": lon, "const": 10.0 + k, "times": [d + "T00:00"], "date": d}
                              for k, d in enumerate(days)]})
    if rng.random() < 0.3:
        src.append({"loader": rng.choice(["density", "thickness"]), "name": "lut", "via": None, "files": [], "params": {}})
    ticks = [0] * rng.choice([1, 2, 3, 4, 6, 10, 40])
    for _ in range(rng.randint(0, 4)):
        ticks[rng.randrange(len(ticks))] = rng.choice([1, 2, 60, 3600, 86400, 86400 * 31, -1, -2, -3600, -86400])
    return {"spec": {"region": r, "sources": src, "window": [a, b], "depth": rng.choice([0, 1]), "min_dp": 1}, "off": [na, nb], "start": start, "ticks": ticks,
            "entry": rng.choice(["api", "cli", "cli"]), "late": rng.choice([0, 0, 5, 86400, 86400 * 40]),
            "rebuild": rng.choice([1, 86400, 86400 * 3, 86400 * 400, -86400 * 2]), "rticks": [rng.choice([0, 0, 0, 86400, -86400, 1]) for _ in range(6)],
            "second": rng.choice([0, 86400, 86400 * 2]), "shrink_lists": ["ticks", "rticks", "spec/sources"]}


def materialise(sp):
    for s in sp["sources"]:
        for f in s["files"]:
            if "rows" in f:
                G.write(f["path"], G.csv_text(f["cols"], f["rows"]))
            else:
                nc.write_file(s["loader"], f)


def day(t, n):
    return (t + dt.timedelta(days=n)).strftime("%Y-%m-%d")


def check_window(plan, got, reads, what):
    """Both ends against one reading."""
    na, nb = plan["off"]
    sp = plan["spec"]
    ok = False
    for t in reads or []:
        wa = sp["window"][0] if na is None else day(t, na)
        wb = sp["window"][1] if nb is None else day(t, nb)
        ok |= [wa, wb] == got
    if not ok:
        raise Violation("window", f"{what}: {sp['window']} was resolved to {got}; the clock showed {[t.isoformat() for t in reads[:3]]} .. {reads[-1].isoformat()}")


def make(plan, ctx, ck, name):
    """Build through the chosen entry point -> (Outcome, mesh json, instants)."""
    cfg = G.config(plan["spec"])
    t_before, n0 = ck.t, len(ck.reads)
    ctx.count("entry:" + plan["entry"])
    if plan["entry"] == "cli":
        world.dump(name + "_config.json", cfg)
        o = world.cli("create_mesh_cli", name + "_config.json", "-o", name + ".json")
        js = world.read_json(name + ".json")[0] if o.ok else None
    else:
        from meshiphi.mesh_generation.mesh_builder import MeshBuilder
        o = world.attempt(MeshBuilder, G.clone(cfg))
        seen = list(ck.reads)
        js = None
        if o.ok:
            if plan["late"]:
                ck.advance(plan["late"])
                ctx.count("late_build")
            mb = o.value
            o = world.attempt(mb.build_environmental_mesh)
            if o.ok:
                js = G.clone(o.value.to_json())
        if plan["late"]:
            return o, js, [t_before] + seen[n0:]
    return o, js, [t_before] + ck.reads[n0:]


def run(plan, ctx):
    sp = plan["spec"]
    materialise(sp)
    ck = clock.Clock(ctx, plan["start"], plan["ticks"])
    with ck:
        o, js, reads = make(plan, ctx, ck, "a")
    if any("era5" in s["loader"] for s in sp["sources"]):
        ctx.count("era5")
    if len({t.date() for t in reads}) > 1:
        ctx.count("crossed_midnight")
    rel = [x is not None for x in plan["off"]]
    if all(rel):
        ctx.count("both_relative")
    elif any(rel):
        ctx.count("mixed_window")
    if js is None:
        # nothing to do with the clock: an absolute window of any instant shown must fail as well
        for t in sorted(set(reads)):
            w = [sp["window"][k] if plan["off"][k] is None else day(t, plan["off"][k]) for k in (0, 1)]
            a = world.attempt(world.build, G.config(dict(sp, window=w)))
            if not a.ok:
                break
        else:
            raise Violation("unexpected-error", f"building with {sp['window']} failed: {o!r}, but works with every absolute window the clock allowed")
        ctx.state("failed", plan["off"], plan["start"])
        return
    reg = js["config"]["mesh_info"]["region"]
    got = [reg["start_time"], reg["end_time"]]
    check_window(plan, got, reads, f"building at {plan['start']}")
    # the recorded window is the one used: an absolute build of it is the same mesh
    ref = G.clone(world.must(world.build, G.config(dict(sp, window=list(got))), what="building with the recorded window").to_json())
    diff = oracle.same_mesh(js, ref)
    if diff:
        raise Violation("window-not-used", f"a mesh built with {sp['window']} records {got} but differs from one built with that window: {diff}")
    # later: rebuild and reload
    world.dump("m.json", js)
    ck2 = clock.Clock(ctx, ck.t.isoformat(), plan["rticks"])
    ck2.advance(plan["rebuild"])
    with ck2:
        world.must_cli("rebuild_mesh_cli", "m.json", "-o", "r.json")
        m2 = world.must(lambda: world.load_file("m.json")[0], what="loading the mesh later")
        b = m2.bounds
        later = [b.get_time_min(), b.get_time_max()]
    ctx.count("rebuilt")
    rj = world.read_json("r.json")[0]
    diff = oracle.same_mesh(rj, js)
    if diff:
        raise Violation("rebuild-differs", f"rebuilding {plan['rebuild']} s later differs: {diff}")
    if later != got:
        raise Violation("window", f"the mesh loaded later has window {later}, it was saved with {got}")
    # the same configuration, used again in this process at another time, is resolved afresh
    if plan["second"] and any(rel):
        ck3 = clock.Clock(ctx, ck.t.isoformat(), [])
        ck3.advance(plan["second"])
        with ck3:
            o3, js3, reads3 = make(dict(plan, late=0), ctx, ck3, "b")
        if js3 is not None:
            g3 = js3["config"]["mesh_info"]["region"]
            check_window(plan, [g3["start_time"], g3["end_time"]], reads3, f"building again {plan['second']} s later")
            ctx.count("second_build")
    ctx.state(rel, [x if x is None else min(abs(x), 9) for x in plan["off"]], plan["start"], [(k, x > 0) for k, x in enumerate(plan["ticks"]) if x],
              plan["entry"], plan["late"], plan["rebuild"])
    ctx.ev("mesh", oracle.canon(js))
    if any(rel):
        ctx.count("nontrivial")


def shrink(plan):
    if all("rows" in f for s in plan["spec"]["sources"] for f in s["files"]):
        yield from G.shrink_spec(plan)
