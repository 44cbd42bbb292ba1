import os, shutil, subprocess, tempfile, json
SEED="/verif/seeded"
DEMO_SH='''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=${PYTHONHASHSEED:-0}
py=/opt/venv/bin/python
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 2
"$py" "$here/demo.py" > out.log 2>&1
rc=$?
tail -n 5 out.log
exit $rc
'''
MK='''"""Helpers of the demonstration: tiny meshes from small CSV files in the current directory."""
import copy, json, os, subprocess, sys
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh

PY = sys.executable
CLI = "import sys; from meshiphi.cli import {0}_cli as f; f()"

def region(x0=0, x1=20, y0=0, y1=20, w=10, h=10, start="2020-01-01", end="2020-01-31"):
    return {"lat_min": y0, "lat_max": y1, "long_min": x0, "long_max": x1,
            "start_time": start, "end_time": end, "cell_width": w, "cell_height": h}

def config(reg=None, sources=(), depth=2):
    return {"region": reg or region(), "data_sources": list(sources),
            "splitting": {"split_depth": depth, "minimum_datapoints": 1}}

def csv(name, rows, head="lat,long,val"):
    with open(name, "w") as f:
        f.write(head + "\\n")
        for r in rows:
            f.write(",".join(str(v) for v in r) + "\\n")
    return os.path.abspath(name)

def source(files, loader="scalar_csv", **params):
    p = {"files": list(files)}
    p.update(params)
    return {"loader": loader, "params": p}

def build(cfg):
    return MeshBuilder(copy.deepcopy(cfg)).build_environmental_mesh()

def plain(cfg=None, name="base.csv"):
    """a mesh with one value per cell"""
    cfg = cfg or config()
    r = cfg["region"]
    rows, k = [], 0
    y = r["lat_min"] + r["cell_height"] / 4
    while y < r["lat_max"]:
        x = r["long_min"] + r["cell_width"] / 4
        while x < (r["long_max"] if r["long_max"] > r["long_min"] else r["long_max"] + 360):
            rows.append((y, x if x <= 180 else x - 360, k)); k += 1
            x += r["cell_width"]
        y += r["cell_height"]
    cfg = dict(cfg, data_sources=[source([csv(name, rows)])])
    return build(cfg)

def dump(mesh, name):
    with open(name, "w") as f:
        json.dump(mesh.to_json(), f, indent=4)
    return os.path.abspath(name)

def cli(name, *args):
    p = subprocess.run([PY, "-c", CLI.format(name), *[str(a) for a in args]], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def reload(mesh):
    return EnvironmentMesh.load_from_json(json.loads(json.dumps(mesh.to_json())))
'''
def plant(id, prop, edits, demo, needs, breaks, mk=True):
    cp=tempfile.mkdtemp(prefix="mkpl-",dir="/tmp")
    try:
        repo=cp+"/repo"; shutil.copytree("/repo",repo,symlinks=True)
        for f,old,new in edits:
            p=os.path.join(repo,f); s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,"w").write(s.replace(old,new))
            compile(open(p).read(),p,"exec")
        diff=subprocess.run(["git","diff"],cwd=repo,capture_output=True,text=True).stdout
        d=os.path.join(SEED,id); os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/demo.sh","w").write(DEMO_SH); os.chmod(d+"/demo.sh",0o755)
        open(d+"/demo.py","w").write(demo.lstrip("\n"))
        if mk: open(d+"/mk.py","w").write(MK)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    finally: shutil.rmtree(cp)
