"""C02: a write cut short by a kill or power cut never loads as a different mesh."""
import os
import shutil

from sim import cmds, disk, gen as G, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 500, "budget": 90, "min_runs": 40}, "thorough": {"runs": 25000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (command, previous content, crash points and restart policies, later uses and their outcomes) signature is "
        "new and in which a crash interrupted the output")
STATE_MEASURE = "distinct (command, previous content, crash op and decile, restart policy, use outcome) signatures"
REAL = ["all CLI entry points except meshiphi_test", "EnvironmentMesh.save and load_from_json", "CPython buffered/text IO"]
STUB = ["raw file layer (SimDisk): page cache versus platter, kill and power cut"]
ASSUMPTIONS = ["a kill leaves what was written so far; a power cut may leave the old file, an empty file, a prefix, or zeroed blocks "
               "in place of data not yet synced, but never stale contents of freed blocks",
               "files not being written when the power fails keep their contents"]
PROBES = ["fault:write:crash", "fault:open_w:crash", "fault:powercut:prefix", "fault:powercut:zeros", "fault:powercut:old",
          "use_failed", "use_equals_new", "use_equals_old", "torn"]

MESH = ["create", "rebuild", "merge", "merged", "export_json", "save_json"]


def gen_crash(rng):
    op = rng.choices(["write", "close", "open_w"], [8, 2, 2])[0]
    f = {"op": op, "on": "*", "count": "work/ref.json", "kind": "crash",
         "frac": rng.choice([0, 0.9999, rng.randrange(1000) / 1000]), "arg": rng.choice([0, 1, 30, 300, 5000, 0.3, 0.6, 0.9, rng.randrange(1000) / 1000])}
    c = {"fault": f, "mode": rng.choice(["process", "machine", "machine"]),
         "policy": {"kind": rng.choice(["keep", "prefix", "prefix", "zeros", "zerotail", "empty", "old"]),
                    "frac": rng.choice([0.25, 0.5, 0.9, 0.99, 0.9999, rng.randrange(1000) / 1000]), "block": rng.choice([64, 512, 4096])}}
    return c


def gen(rng, tier, i):
    w = cmds.gen_world(rng, kind=cmds.KINDS[i % len(cmds.KINDS)], small=tier == "quick")
    w["bufsize"] = rng.choice([16, 64, 512, 4096, 8192])
    w["chunk"] = rng.choice([16, 64, 1024, 8192])
    uses = [rng.choice(["load", "export", "rebuild", "merge", "mergedir", "host"]) for _ in range(rng.randint(1, 3))]
    return {"world": w, "pre": rng.choice([None, "old", "like", "like"]), "oldspec": G.spec(rng, w["spec"]["region"], depth=rng.choice([0, 1])),
            "crashes": [gen_crash(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))], "uses": uses,
            "late": rng.random() < 0.25, "shrink_lists": ["crashes", "uses", "world/parts", "world/spec/sources", "oldspec/sources"]}


def use(kind, path, tag):
    """Use the file at path the way a user would -> Outcome whose value is the JSON result."""
    out = f"work/use_{tag}.json"
    if os.path.exists(out):
        os.remove(out)
    if kind == "load":
        return world.attempt(lambda: world.load_file(path)[0].to_json())
    if kind == "export":
        o = world.cli("export_mesh_cli", path, "json", "-o", out)
    elif kind == "rebuild":
        o = world.cli("rebuild_mesh_cli", path, "-o", out)
    elif kind == "merge":
        o = world.cli("merge_mesh_cli", "host.json", path, "-o", out)
    elif kind == "host":
        o = world.cli("merge_mesh_cli", path, "host.json", "-o", out)
    elif kind == "mergedir":
        shutil.rmtree("work/dir", ignore_errors=True)
        os.makedirs("work/dir")
        shutil.copy(path, "work/dir/b.json")
        shutil.copy("host.json", "work/dir/c.json")
        o = world.cli("merge_mesh_cli", "host.json", "work/dir", "-d", "-o", out)
    if not o.ok:
        return o
    v, why = world.read_json(out)
    if v is None:
        raise Violation("incomplete-output", f"{kind} of {path} reported success but its output is {why}")
    return world.Outcome(True, value=v)


def run(plan, ctx):
    w = plan["world"]
    if w["cmd"] in ("merge", "merged") and not w["parts"]:
        return
    cmds.setup(w, ctx)
    geo = w["cmd"].endswith("geojson")
    want, d0 = cmds.reference(w, ctx)
    world.dump("ref/new.json", want)
    if not geo:
        world.dump("host.json", want)
    old = None
    if plan["pre"] == "old":
        os.makedirs("oldd", exist_ok=True)
        sp = G.clone(plan["oldspec"])
        for s in sp["sources"]:
            for f in s["files"]:
                f["path"] = f["path"].replace("data/", "olddata/")
        G.materialise(sp)
        m = world.must(world.build, G.config(sp), what="building the old mesh")
        if geo:
            old = G.clone(m.to_geojson())
        else:
            old = G.clone(m.to_json())
        world.dump("ref/old.json", old)
        shutil.copy("ref/old.json", "work/out.json")
    elif plan["pre"] == "like":
        old = cmds.alike(want)
        world.dump("ref/old.json", old)
        shutil.copy("ref/old.json", "work/out.json")
    uses = [] if geo else plan["uses"]
    exp = {}
    for u in set(uses):
        exp[u] = [use(u, "ref/new.json", "n")] + ([use(u, "ref/old.json", "o")] if old is not None else [])
    outs = []
    torn = False
    for n, c in enumerate(plan["crashes"]):
        d = disk.SimDisk(os.getcwd(), ctx, cmds.resolve([c["fault"]], d0.counts), w["bufsize"], w["chunk"])
        d.snapshot()
        with d:
            o = cmds.run(w, "work/out.json")
        if not o.ok and not o.crashed:
            raise Violation("unexpected-error", f"{w['cmd']} failed without any reported fault: {o!r}")
        if o.crashed:
            torn = True
            ctx.count("torn")
        elif not plan["late"]:
            c = dict(c, mode="process")
        d.restart(c["mode"], c["policy"])
        outs.append(judge(plan, ctx, w, geo, uses, exp, want, old, f"crash {n}"))
    o = cmds.run(w, "work/out.json")
    if not o.ok:
        raise Violation("restart-fails", f"{w['cmd']} fails when repeated after the crash: {o!r}")
    got, why = world.read_json("work/out.json")
    if got is None or cmds.compare(w, got, want):
        raise Violation("restart-differs", f"{w['cmd']} repeated after the crash: {why or cmds.compare(w, got, want)}")
    ctx.state(w["cmd"], plan["pre"], [[c["fault"]["op"], int(c["fault"]["frac"] * 10), c["mode"], c["policy"]["kind"],
                                       int(c["policy"]["frac"] * 5)] for c in plan["crashes"]], outs)
    if torn:
        ctx.count("nontrivial")


def judge(plan, ctx, w, geo, uses, exp, want, old, where):
    got, why = world.read_json("work/out.json")
    ctx.ev("content", why)
    res = []
    if got is not None:
        dn = cmds.compare(w, got, want)
        do = cmds.compare(w, got, old) if old is not None else "there was no file"
        if dn and do:
            raise Violation("torn-accepted", f"after {where} the file parses but is neither the new result ({dn}) nor the old ({do})")
        res.append("new" if not dn else "old")
    else:
        res.append("unreadable")
    if not os.path.exists("work/out.json"):
        return res + ["absent"]
    for u in uses:
        o = use(u, "work/out.json", "x")
        if not o.ok:
            if got is not None and exp[u][0 if res[0] == "new" else 1].ok:
                raise Violation("unexpected-error", f"after {where}, {u} of a complete mesh file failed: {o!r}")
            ctx.count("use_failed")
            res.append([u, "failed"])
            continue
        why = []
        for e, nm in zip(exp[u], ("new", "old")):
            if e.ok:
                d = oracle.same_mesh(o.value, e.value, config=u not in ("merge", "host", "mergedir"))
                if d is None:
                    ctx.count("use_equals_" + nm)
                    res.append([u, nm])
                    break
                why.append(f"{nm}: {d}")
            else:
                why.append(f"{nm}: {e!r}")
        else:
            raise Violation("torn-accepted", f"after {where}, {u} succeeded with a mesh that is neither the new nor the old one: {why}")
    return res


def shrink(plan):
    for w in G.shrink_spec(plan["world"], "spec"):
        n = G.clone(plan)
        n["world"] = w
        yield n
    yield from G.shrink_spec(plan, "oldspec")
    if plan["pre"]:
        n = G.clone(plan)
        n["pre"] = None
        yield n
