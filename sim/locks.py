"""Locks that the code under test creates: under the scheduler a thread that would block hands over its turn.

Outside a scheduled run they are ordinary locks."""
import os
import sys
import threading

_real = {"Lock": threading.Lock, "RLock": threading.RLock}
active = None                                # the running Sched


class SimLock:
    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = active
        tid = s.me() if s else None
        if tid is None or not blocking or (timeout is not None and timeout >= 0):
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            s.block(tid, self)
        return True

    def release(self):
        self._l.release()
        if active:
            active.unblock(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):                # locked, _is_owned, _release_save, ...
        return getattr(self._l, k)


def install(root):
    """Lock factories that give code below root a SimLock."""
    root = os.path.realpath(root) + os.sep

    def factory(name):
        def make(*a, **k):
            real = _real[name](*a, **k)
            return SimLock(real) if os.path.realpath(sys._getframe(1).f_code.co_filename).startswith(root) else real
        return make
    threading.Lock = factory("Lock")
    threading.RLock = factory("RLock")
