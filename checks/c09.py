"""C09: neighbour graph == geometric adjacency, over operation histories."""
from sim import history

TIERS = {"quick": {"runs": 700, "budget": 90, "min_runs": 40}, "thorough": {"runs": 40000, "budget": 1800}}
LEVEL = "exploration"
RULE = "counts a run whose (region kind, sequence of operations with resulting cell counts) signature is new and which performed at least one operation after the build"
STATE_MEASURE = "distinct (region kind, operation sequence, cell count after each, number of cell sizes) signatures"
REAL = ["MeshBuilder, CellBox, Boundary, NeighbourGraph", "EnvironmentMesh: split_and_replace, split_points, update_cellbox, merge_mesh, save, load_from_json", "csv and GRF loaders"]
STUB = ["raw file layer under save/load (SimDisk), power-cut model"]
ASSUMPTIONS = ["cell edges are dyadic multiples of the base size, so the comparison is exact in floating point",
               "merges are between aligned meshes, the given one at most 120 degrees wide and no existing cell straddling its edge",
               "data sources limited to csv, GRF and vector csv; up to 12 base cells, depth <= 3 plus explicit splits"]
PROBES = ["op:merge", "op:split", "op:points", "op:crash", "crash_loaded_new", "crash_rejected"]


def gen(rng, tier, i):
    return history.gen_history(rng, tier, {"update": 1, "query": 0, "export": 0})


def run(plan, ctx):
    history.Hist(plan, ctx, {"graph"}).run()


shrink = history.shrink
