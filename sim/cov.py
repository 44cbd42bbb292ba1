"""Line coverage of the code under test, for finding workload gaps (VSIM_COV=directory; never used by the checks)."""
import os
import sys


def start(repo):
    seen = set()
    root = os.path.join(os.path.realpath(repo), "meshiphi") + os.sep
    mon = sys.monitoring
    mon.use_tool_id(4, "vsimcov")

    def line(code, no):
        f = code.co_filename
        if f.startswith(root):
            seen.add((f[len(root):], no))
        return mon.DISABLE

    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    return seen


def stop(seen, out, key):
    sys.monitoring.set_events(4, 0)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, f"{os.getpid()}-{key}"), "w") as f:
        f.writelines(f"{a}:{b}\n" for a, b in sorted(seen))
