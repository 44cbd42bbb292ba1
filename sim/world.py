"""Driving the code under test through its public entry points."""
import json
import os
import sys

from . import core, gen
from .core import SimCrash, Violation


class Outcome:
    """What a caller of an operation observes."""
    __slots__ = ("ok", "exc", "crashed", "value")

    def __init__(self, ok, exc=None, crashed=False, value=None):
        self.ok, self.exc, self.crashed, self.value = ok, exc, crashed, value

    def __repr__(self):
        if self.crashed:
            return "crashed"
        return "ok" if self.ok else f"{type(self.exc).__name__}: {str(self.exc)[:200]}"


def attempt(fn, *a, **k):
    try:
        return Outcome(True, value=fn(*a, **k))
    except SimCrash:
        return Outcome(False, crashed=True)
    except SystemExit as e:
        return Outcome(not e.code, exc=None if not e.code else e)
    except (core.HarnessError, Violation):
        raise
    except Exception as e:                       # noqa: BLE001
        return Outcome(False, exc=e)


def cli(name, *argv):
    """Run a console entry point in-process; success = exit status 0 as a shell would see it."""
    import meshiphi.cli as m
    import logging
    fn = getattr(m, name)
    old = sys.argv
    sys.argv = [name] + [str(a) for a in argv]
    try:
        def call():
            r = fn()
            if r:
                raise SystemExit(r)
        out = attempt(call)
    finally:
        sys.argv = old
        logging.disable(logging.CRITICAL)
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
    return out


def build(config):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    return MeshBuilder(gen.clone(config)).build_environmental_mesh()


def build_late(cfg, late, min_dp):
    """Build, hand one more source to the builder, build again."""
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    from meshiphi.dataloaders.scalar.scalar_csv import ScalarCSVDataLoader
    from meshiphi.dataloaders.vector.vector_csv import VectorCSVDataLoader
    b = MeshBuilder(cfg)
    b.build_environmental_mesh()
    p = dict(late["params"], min_dp=min_dp)
    more = b.add_dataloader({"scalar_csv": ScalarCSVDataLoader, "vector_csv": VectorCSVDataLoader}[late["loader"]], p, min_dp=min_dp)
    return more.build_environmental_mesh()


def load(mesh_json):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    return EnvironmentMesh.load_from_json(gen.clone(mesh_json))


def load_file(path):
    with open(path) as f:
        d = json.load(f)
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    return EnvironmentMesh.load_from_json(d), d


def read_json(path):
    """(value, None) or (None, why)"""
    from .disk import real_open
    try:
        with real_open(path) as f:
            return json.load(f), None
    except (OSError, ValueError) as e:
        return None, f"{type(e).__name__}: {e}"


def must(fn, *a, what="operation", **k):
    """An operation that has no reason to fail: failing is a violation."""
    o = attempt(fn, *a, **k)
    if not o.ok:
        raise Violation("unexpected-error", f"{what} failed without any injected fault: {o!r}")
    return o.value


def must_cli(name, *argv):
    o = cli(name, *argv)
    if not o.ok:
        raise Violation("unexpected-error", f"{name} {' '.join(map(str, argv))} failed without any injected fault: {o!r}")


def dump(path, obj):
    from .disk import real_open
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with real_open(path, "w") as f:
        json.dump(obj, f, indent=4)


def own_temp(d="tmp"):
    """Temporary files of the code under test go into the run's own directory, where they are seen."""
    import tempfile
    os.makedirs(d, exist_ok=True)
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.abspath(d)
