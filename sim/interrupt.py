"""Failing allocations: MemoryError at the n-th executed line of the code under test."""
import os
import sys

from . import core


class Allocs:
    """Counts lines executed in meshiphi; raises MemoryError at line number `at` (None: only count)."""

    def __init__(self, ctx, at=None, disk=None):
        self.ctx, self.at, self.disk = ctx, at, disk
        self.n = 0
        self.fired = False
        self.wrote_before_fault = False
        self.root = os.path.realpath(os.path.join(core.REPO, "meshiphi")) + os.sep
        self._files = {}

    def _in(self, fn):
        r = self._files.get(fn)
        if r is None:
            r = self._files[fn] = os.path.realpath(fn).startswith(self.root)
        return r

    def _glob(self, frame, event, arg):
        return self._local if self._in(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n >= self.at and not self.fired:
                self.fired = True
                self.wrote_before_fault = bool(self.disk and self.disk.opened_w)
                self.ctx.count("fault:alloc")
                self.ctx.ev("fault", "alloc", self.n)
                raise MemoryError("simulated allocation failure")
        return self._local

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
