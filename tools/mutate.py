#!/usr/bin/env python3
"""Mutation survey (development aid, not a check): small syntactic changes to covered lines of the code under test, each run
against the checks that should notice.  tools/mutate.py COVDIR OUT N SEED [file-glob...]; survivors are then read by hand."""
import ast, copy, fnmatch, json, os, random, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = [("mesh_generation/environment_mesh.py", ["C09", "C10", "C11", "C12", "C16", "C08", "C23", "C02"]),
       ("mesh_generation/neighbour_graph.py", ["C09", "C12"]),
       ("mesh_generation/boundary.py", ["C13", "C09", "C05", "C08", "C12", "C04"]),
       ("mesh_generation/cellbox.py", ["C17", "C13", "C08", "C06"]),
       ("mesh_generation/aggregated_cellbox.py", ["C12", "C10", "C13", "C09"]),
       ("mesh_generation/mesh_builder.py", ["C17", "C13", "C09", "C05", "C06", "C08"]),
       ("mesh_plotting/*", ["C23"]),
       ("dataloaders/factory.py", ["C06", "C14", "C04", "C13"]),
       ("dataloaders/*", ["C13", "C17", "C14", "C04", "C06"]),
       ("cli.py", ["C01", "C03", "C15", "C04", "C02"]),
       ("utils.py", ["C05", "C06"]),
       ("*", ["C13", "C06", "C05"])]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(tree, lines):
    """-> list of (line, description, function applying the mutation to a fresh tree's same-numbered node)"""
    out = []
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(f):
                infn.add(id(n))
    for k, n in enumerate(ast.walk(tree)):
        ln = getattr(n, "lineno", None)
        if ln is None or id(n) not in infn or ln not in lines:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((ln, k, "cmp"))
        elif isinstance(n, ast.BoolOp):
            out.append((ln, k, "bool"))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((ln, k, "arith"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((ln, k, "const"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((ln, k, "flip"))
        elif isinstance(n, ast.If):
            out.append((ln, k, "neg"))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            s = ast.unparse(n)
            if not s.startswith(("logging", "print", "assert", "pbar")):
                out.append((ln, k, "del"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((ln, k, "del"))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((ln, k, "del"))
    return out


def apply(src, k, kind):
    t = ast.parse(src)
    n = list(ast.walk(t))[k]
    was = ast.unparse(n) if kind != "neg" else ast.unparse(n.test)
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "arith":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif kind == "const":
        n.value = n.value + 1
    elif kind == "flip":
        n.value = not n.value
    elif kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "del":
        class D(ast.NodeTransformer):
            def visit(self, x):
                return ast.copy_location(ast.Pass(), x) if x is n else self.generic_visit(x)
        t = D().visit(t)
    ast.fix_missing_locations(t)
    return ast.unparse(t), was


def main(cov, out, N, seed, globs):
    seen = {}
    for d, _, fs in os.walk(cov):
        for f in fs:
            for l in open(os.path.join(d, f)):
                a, b = l.rsplit(":", 1)
                seen.setdefault(a, set()).add(int(b))
    pool = []
    for f in sorted(seen):
        if globs and not any(fnmatch.fnmatch(f, g) for g in globs):
            continue
        src = open(f"{REPO}/meshiphi/{f}").read()
        pool += [(f, *s) for s in sites(ast.parse(src), seen[f])]
    random.Random(seed).shuffle(pool)
    print(len(pool), "sites")
    base = "/tmp/mutants"
    os.makedirs(base, exist_ok=True)
    for n, (f, ln, k, kind) in enumerate(pool[:N]):
        cp = f"{base}/m{os.getpid()}"
        shutil.rmtree(cp, ignore_errors=True)
        os.makedirs(cp)
        shutil.copytree(f"{REPO}/meshiphi", cp + "/meshiphi")
        src, was = apply(open(f"{REPO}/meshiphi/{f}").read(), k, kind)
        open(f"{cp}/meshiphi/{f}", "w").write(src)
        res = []
        for c in next(c for g, c in MAP if fnmatch.fnmatch(f, g)):
            e = dict(os.environ, VSIM_REPO=cp, VSIM_JOBS="4", VSIM_NOSHRINK="1", VSIM_EVIDENCE=cp + "/ev")
            p = subprocess.run([sys.executable, "vsim.py", "check", c, "--runs", os.environ.get("MUT_RUNS", "100"), "--budget", "60"], cwd=os.environ.get("MUT_V", V), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            res.append(f"{c}:{p.returncode}")
            if p.returncode:
                break
        line = json.dumps({"file": f, "line": ln, "kind": kind, "was": was[:160], "res": res, "caught": res[-1][-1] != "0"})
        with open(out, "a") as o:
            o.write(line + "\n")
        shutil.rmtree(cp, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
