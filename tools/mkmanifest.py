"""Writes MANIFEST.json from the checks present and the not-applicable reasons."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTES = {
 "C01": "every output operation under write/flush/close/open failures, short writes, EINTR, full disk at any byte, memory exhaustion",
 "C02": "process kill and power cut at every file event and byte; torn states old/empty/prefix/zeroed block/zeroed tail/full; reload by every reader",
 "C03": "read-side and validation failures at every read event, interrupts, output over input; whole directory tree compared byte for byte",
 "C04": "every file loader and mesh-reading command with a file that fails to open, read, stat or list, vanishes, shrinks or is cut",
 "C05": "simulated clock jumping between any two readings, over midnight, month, year, leap day and backwards; later rebuilds",
 "C06": "listing orders, file times, random state, process history, working directory, and other interpreters (hash seed, time zone, locale)",
 "C07": "line- and bytecode-granular thread schedules of two or three jobs on own or shared meshes, compared with the jobs alone",
 "C08": "histories of splits/points/updates/merges/saves/crashes/reloads; tiling recomputed from polygons after every step",
 "C09": "same histories; neighbour graph compared with adjacency recomputed from polygons after every step",
 "C10": "same histories with points inside, outside, on borders at every level; refinement rule from geometry alone",
 "C11": "same histories with merges of compatible and incompatible meshes, both meshes checked afterwards",
 "C12": "each history run with and without save/reload inserted, compared step by step; GeoJSON against the mesh",
 "C13": "records spread over files and listing orders with short reads; reference aggregation per cell",
 "C14": "arrival, replacement and removal histories of dated files interleaved with builds and rebuilds; reference selection rule",
 "C15": "directory merges in every listing order with bad, vanishing, unreadable entries; compared with merging one at a time",
 "C17": "records, grids and polygons delivered in any files, order and listing, at once or to a builder that has built before, with short reads; the divided cells against a reference refinement",
 "C23": "GeoTIFF and PNG exports among bystander files, side by side, in threads, under write errors and file size limits; pixels against the mesh, and each image against the same export alone",
 "C16": "failed saves/exports/updates/merges, then comparison with a history in which nothing failed, and retries",
}
NA = {
 "C18": "reprojection and down-sampling are pure numeric transformations of one in-memory array; no nondeterminism or fault can influence them",
 "C19": "shape and random-field generators are pure functions of their parameters and seed (their independence from shared random state is covered by C06 and C07)",
 "C20": "a pure function of built-in season tables and the cell; no file, clock or schedule is involved (polygon look-ups from files are covered by C04, C13 and C17)",
 "C21": "configuration validation is a pure predicate over one JSON document with no schedule, time or I/O dimension",
 "C22": "closed-form formulas of in-memory values; nothing for scheduling or fault injection to vary",
}
checks = []
for p in sorted(NOTES):
    m = importlib.import_module("checks." + p.lower())
    checks.append({
        "property": p,
        "quick_cmd": f"python3 vsim.py check {p}",
        "thorough_cmd": f"python3 vsim.py check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": m.LEVEL,
        "level_note": f"Seeded search, not exhaustive: {NOTES[p]}. Quick: {m.TIERS['quick']['runs']} simulated runs; thorough: up to {m.TIERS['thorough']['runs']}. "
                      f"Assumes: {'; '.join(m.ASSUMPTIONS)}."})
json.dump({"version": 1, "setup_cmd": "python3 vsim.py --help", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: every seam (file layer, clock, listing order, threads, allocation, signals) is taken at the Python standard library boundary inside the simulator process. "
                    "Replay a violation with: python3 vsim.py replay <file>."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
