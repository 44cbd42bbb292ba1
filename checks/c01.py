"""C01: a command that reports success has written its complete output."""
import os

from sim import cmds, disk, gen, world
from sim.core import Violation

TIERS = {"quick": {"runs": 400, "budget": 75, "min_runs": 40}, "thorough": {"runs": 20000, "budget": 1500}}
LEVEL = "exploration"
RULE = ("counts a run whose (command, region kind, fault kind and position class, outcome) signature is new and in "
        "which at least one injected fault fired while the output was being written")
STATE_MEASURE = "distinct (command, output size class, fault list with decile of position, outcome) signatures"
REAL = ["all CLI entry points except meshiphi_test", "MeshBuilder, EnvironmentMesh, csv/GRF loaders", "CPython buffered/text IO"]
STUB = ["raw file descriptor layer below the output file (SimDisk)"]
ASSUMPTIONS = ["success is what a shell sees: the entry point returns without raising or exiting non-zero",
               "the kernel reports write/close errors to the process (silent media corruption is out of scope)",
               "TIF and PNG export are C23"]
PROBES = ["fault:write:error:ENOSPC", "fault:close:error:EIO", "fault:enospc_full", "fault:write:short", "failed", "succeeded"]

ERR = ["ENOSPC", "EIO", "EDQUOT"]


def gen_faults(rng, on):
    fs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choices(["error", "short", "eintr", "close", "open", "last", "rename"], [5, 3, 2, 3, 1, 3, 1])[0]
        pos = rng.choice([0, 0.999, rng.randrange(1000) / 1000])
        if k == "close":
            fs.append({"op": "close", "on": on, "nth": 0, "kind": "error", "errno": rng.choice(ERR), "arg": rng.choice([0, 1, 500])})
        elif k == "open":
            fs.append({"op": "open_w", "on": on, "nth": 0, "kind": "error", "errno": rng.choice(["EACCES", "ENOSPC", "EMFILE"])})
        elif k == "rename":                              # only if the output is put in place that way
            fs.append({"op": rng.choice(["rename", "fsync"]), "on": "*", "nth": 0, "kind": "error", "errno": rng.choice(["EIO", "ENOSPC", "EACCES"])})
        elif k == "last":
            fs.append({"op": "write", "on": on, "count": "work/ref.json", "frac": 0.9999, "kind": "error", "errno": rng.choice(ERR),
                       "arg": rng.choice([0, 1, 100]), "sticky": rng.random() < 0.3})
        elif k == "error":
            fs.append({"op": "write", "on": on, "count": "work/ref.json", "frac": pos, "kind": "error", "errno": rng.choice(ERR),
                       "arg": rng.choice([0, 1, 100]), "sticky": rng.random() < 0.5})
        else:
            fs.append({"op": "write", "on": on, "count": "work/ref.json", "frac": pos, "kind": k, "arg": rng.choice([1, 7, 100])})
    return fs


def gen_plan(rng, tier, i):
    w = cmds.gen_world(rng, kind=cmds.KINDS[i % len(cmds.KINDS)], small=tier == "quick")
    w["bufsize"] = rng.choice([64, 512, 8192, 8192, 65536])
    w["chunk"] = rng.choice([64, 1024, 8192, 8192])
    dflt = w["cmd"] in cmds.DEFAULT_OUT and rng.random() < 0.15
    out = None if dflt else rng.choice(["work/out.json", "out.json", "work/deep/er.json"])
    on = cmds.DEFAULT_OUT[w["cmd"]] if dflt else out
    p = {"world": w, "out": out, "faults": gen_faults(rng, on), "capacity": None, "shrink_lists": ["faults", "world/parts", "world/spec/sources"]}
    if rng.random() < 0.25:
        p["capacity"] = rng.choice([0.0, 0.5, 0.9, 0.999, rng.randrange(1000) / 1000])
        if rng.random() < 0.7:
            p["faults"] = []
    p["pre"] = rng.choice([None, "junk", "long", "like", "like"])
    return p


gen_ = gen


def run(plan, ctx):
    w = plan["world"]
    if w["cmd"] in ("merge", "merged") and not w["parts"]:
        return
    cmds.setup(w, ctx)
    os.makedirs("work/deep", exist_ok=True)
    want, d0 = cmds.reference(w, ctx)
    if w["cmd"] in ("create", "rebuild"):
        with cmds.clocked(w):
            mem = world.build(gen_.config(w["spec"])).to_json()
        diff = cmds.compare(w, want, mem)
        if diff:
            raise Violation("output-differs", f"{w['cmd']}: file differs from the in-memory mesh: {diff}")
    out = plan["out"] or cmds.DEFAULT_OUT[w["cmd"]]
    if plan["pre"]:
        if plan["pre"] == "like":                        # the same size, other values
            world.dump(out, cmds.alike(want))
        else:
            with disk.real_open(out, "w") as f:
                f.write("{}" if plan["pre"] == "junk" else "x" * 200000)
    size = sum(v for (op, rel), v in d0.counts.items() if op == "write")
    faults = cmds.resolve(plan["faults"], d0.counts)
    cap = None
    if plan["capacity"] is not None:
        cap = int(plan["capacity"] * d0.used)
    d = disk.SimDisk(os.getcwd(), ctx, faults, w["bufsize"], w["chunk"], capacity=cap, cap_on="*" if cmds.indirect(d0.counts) else out)
    with d:
        o = cmds.run(w, plan["out"] or (out if w["cmd"].startswith("save") else None))
    fired = d.n_fired
    ctx.ev("outcome", repr(o))
    ctx.count("succeeded" if o.ok else "failed")
    ctx.state(w["cmd"], w["spec"]["region"]["kind"], len(str(size)), o.ok, [
        [f["op"], f["kind"], f.get("errno"), int(f.get("frac", 0) * 10)] for f in plan["faults"]],
        None if cap is None else int(plan["capacity"] * 10))
    if fired:
        ctx.count("nontrivial")
    if o.ok:
        got, why = world.read_json(out)
        if got is None:
            raise Violation("incomplete-output", f"{w['cmd']} reported success but {out} is {why}")
        diff = cmds.compare(w, got, want)
        if diff:
            raise Violation("incomplete-output", f"{w['cmd']} reported success but {out} is not the complete result: {diff}")
    elif d.hard_fired == 0 and cap is None:
        raise Violation("unexpected-error", f"{w['cmd']} failed although only benign faults were injected: {o!r}")


gen = gen_plan


def shrink(plan):
    for w in gen_.shrink_spec(plan["world"], "spec"):
        n = gen_.clone(plan)
        n["world"] = w
        yield n
    if plan["pre"]:
        n = gen_.clone(plan)
        n["pre"] = None
        yield n
