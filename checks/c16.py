"""C16: failed operations leave the mesh as it was; retry succeeds with the fault-free result."""
import os

from sim import cmds, disk, gen as G, history, oracle, world
from sim.core import Violation

TIERS = {"quick": {"runs": 600, "budget": 90, "min_runs": 40}, "thorough": {"runs": 30000, "budget": 1800}}
LEVEL = "exploration"
RULE = ("counts a run whose (operation sequence, failing operations and fault kinds, outcome) signature is new and in which at least "
        "one operation actually failed")
STATE_MEASURE = "distinct (mode, region kind, operation sequence or command, failing operations) signatures"
REAL = ["EnvironmentMesh operations, save/export, merge refusal, update", "CLI entry points (command mode)"]
STUB = ["raw file layer (SimDisk)"]
ASSUMPTIONS = ["faults are reported errors: I/O errors, full disk, missing directories and files, invalid arguments, values JSON cannot hold"]
PROBES = ["fault:invalid_update", "fault:incompatible_merge", "fault:failed_save:write", "fault:failed_save:unserialisable",
          "command_retry", "late_retry"]

BAD = {"badmerge": 4, "badupdate": 4, "badsave": 6, "crash": 0, "save": 1, "reload": 1, "export": 1, "query": 1}


def gen(rng, tier, i):
    if i % 3 == 2:
        w = cmds.gen_world(rng, small=True)
        w["bufsize"] = rng.choice([64, 512, 8192])
        w["chunk"] = rng.choice([64, 1024, 8192])
        fs = []
        for _ in range(rng.randint(1, 3)):
            side = rng.choice(["r", "w", "w"])
            if side == "r":
                fs.append([{"op": rng.choice(["open_r", "read"]), "on": "*", "frac": rng.randrange(1000) / 1000, "count": "*", "kind": "error",
                            "errno": rng.choice(["EIO", "EACCES", "EMFILE"])}])
            else:
                fs.append([{"op": rng.choice(["write", "write", "close", "open_w"]), "on": "work/out.json", "frac": rng.randrange(1000) / 1000,
                            "count": "work/ref.json", "kind": "error", "errno": rng.choice(["EIO", "ENOSPC"]), "arg": rng.choice([0, 40])}])
        return {"mode": "command", "world": w, "attempts": fs, "shrink_lists": ["attempts", "world/spec/sources"]}
    p = history.gen_history(rng, tier, BAD, nops=rng.randint(3, 7 if tier == "quick" else 12))
    p["mode"] = "history"
    return p


def run(plan, ctx):
    if plan["mode"] == "command":
        return run_command(plan, ctx)
    h = history.Hist(plan, ctx, {"isolation"})
    # control: the same history without its failing operations
    ctl = history.Hist(dict(plan, ops=[]), ctx, set())
    ctl.start()
    for n, op in enumerate(plan["ops"]):
        if op["op"] in ("badmerge", "badupdate", "badsave"):
            if op["op"] == "badsave" and op["how"] == "unserialisable":
                on = op["on"] if op["on"] < len(ctl.meshes) else 0
                ctl.meshes[on].update_cellbox(0, {"zz_obj": 1.5})
            continue
        on = op["on"] if op["on"] < len(ctl.meshes) else 0
        getattr(ctl, "do_" + op["op"])(op, on, [ctl.js(i) for i in range(len(ctl.meshes))], f"op {n} ({op['op']})")
    h.run()
    for i in range(len(h.meshes)):
        d = oracle.same_mesh(h.js(i), ctl.js(i))
        if d:
            raise Violation("failure-left-trace", f"the history with failing operations ends in another mesh than the one without: {d}")
    bad = [[o["op"], o.get("how"), o.get("index")] for o in plan["ops"] if o["op"].startswith("bad")]
    ctx.state("bad", bad)
    ctx.stats.pop("nontrivial", None)
    if bad:
        ctx.count("nontrivial")


def run_command(plan, ctx):
    w = plan["world"]
    if w["cmd"] in ("merge", "merged") and not w["parts"]:
        return
    cmds.setup(w, ctx)
    want, d0 = cmds.reference(w, ctx)
    failed = 0
    for fs in plan["attempts"]:
        d = disk.SimDisk(os.getcwd(), ctx, cmds.resolve(fs, d0.counts), w["bufsize"], w["chunk"])
        with d:
            o = cmds.run(w, "work/out.json")
        ctx.ev("attempt", repr(o))
        if not o.ok:
            failed += 1
            if not d.hard_fired:
                raise Violation("unexpected-error", f"{w['cmd']} failed although no fault fired: {o!r}")
    o = cmds.run(w, "work/out.json")
    if not o.ok:
        raise Violation("retry-failed", f"{w['cmd']} still fails after the faults stopped: {o!r}")
    got, why = world.read_json("work/out.json")
    if got is None:
        raise Violation("retry-differs", f"{w['cmd']} after recovery: output is {why}")
    diff = cmds.compare(w, got, want)
    if diff:
        raise Violation("retry-differs", f"{w['cmd']} after recovery gives another result: {diff}")
    ctx.count("command_retry")
    ctx.state("command", w["cmd"], w["spec"]["region"]["kind"], [[f["op"], f["errno"], int(f["frac"] * 10)] for fs in plan["attempts"] for f in fs], failed)
    if failed:
        ctx.count("nontrivial")


def shrink(plan):
    if plan["mode"] == "history":
        yield from history.shrink(plan)
        return
    for w in G.shrink_spec(plan["world"], "spec"):
        n = G.clone(plan)
        n["world"] = w
        yield n
