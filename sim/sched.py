"""Thread scheduler: exactly one simulated thread runs; the plan says where it is pre-empted.

A pre-emption point is every line executed in the code under test (sys.settrace).  Step numbers
are counted globally; plan["switches"] is a list of [count_until_switch, target, unit].  Unit "s" counts
every step; unit "n" counts only lines the running thread has not executed before, which spreads the
pre-emptions over the code rather than over its innermost loops.
"""
import os
import sys
import threading
import time

from . import core, locks


class Sched:
    def __init__(self, ctx, switches, root=None, opcodes=False):
        self.opcodes = opcodes
        self.ctx = ctx
        self.root = os.path.realpath(root or os.path.join(core.REPO, "meshiphi")) + os.sep
        self.switches = list(switches)
        self.cond = threading.Condition()
        self.running = None
        self.live = []
        self.steps = 0
        self.k = -1
        self.seen = set()
        self._next()
        self.results = {}
        self.handoffs = 0
        self.trace_log = []
        self._files = {}
        self.waiting = {}                    # thread -> lock of the code under test it waits for
        self.stuck = set()                   # threads found waiting for something else
        self.tids = {}
        self.dead = None

    def me(self):
        return self.tids.get(threading.get_ident())

    def free(self, tid=None):
        return [t for t in self.live if t != tid and t not in self.waiting and t not in self.stuck]

    def block(self, tid, lock):
        """The running thread waits for a lock: the next free thread runs."""
        with self.cond:
            if not self.free(tid) and not self.stuck - {tid}:
                self.dead = f"threads {sorted(set(self.waiting) | {tid})} wait for each other's locks"
            else:
                self.waiting[tid] = lock
                self.running = (self.free(tid) or sorted(self.stuck - {tid}))[0]
                self.trace_log.append((tid, self.running, "lock", 0))
                self.ctx.count("lock_waits")
                self.cond.notify_all()
        self._wait(tid)

    def unblock(self, lock):
        with self.cond:
            self.waiting = {t: x for t, x in self.waiting.items() if x is not lock}

    def _next(self):
        self.k += 1
        self.left, self.unit = -1, "s"
        if self.k < len(self.switches):
            w = self.switches[self.k]
            self.left, self.unit = w[0], (w[2] if len(w) > 2 else "s")

    def _in(self, fn):
        r = self._files.get(fn)
        if r is None:
            r = self._files[fn] = os.path.realpath(fn).startswith(self.root)
        return r

    def _tracer(self, tid):
        want = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == want:
                self.point(tid, frame)
            return local

        def glob(frame, event, arg):
            if self._in(frame.f_code.co_filename):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def point(self, tid, frame):
        self.steps += 1
        self.stuck.discard(tid)
        if self.left < 0:
            if self.running != tid:          # handed away by the watchdog
                self._wait(tid)
            return
        key = (tid, id(frame.f_code), frame.f_lineno)
        new = key not in self.seen
        if new:
            self.seen.add(key)
        if self.unit == "s" or new:
            self.left -= 1
        if self.left <= 0 or self.running != tid:
            if self.left <= 0:
                tgt = self.switches[self.k][1]
                self._next()
                with self.cond:
                    others = self.free(tid)
                    if others:
                        self.running = others[tgt % len(others)]
                        self.trace_log.append((tid, self.running, os.path.basename(frame.f_code.co_filename),
                                               frame.f_lineno))
                        self.ctx.count("fault:preemption")
                        self.cond.notify_all()
            self._wait(tid)

    def _wait(self, tid):
        with self.cond:
            while self.running != tid:
                self.cond.wait(0.5)

    def _body(self, tid, fn):
        self.tids[threading.get_ident()] = tid
        self._wait(tid)
        sys.settrace(self._tracer(tid))
        try:
            self.results[tid] = ("ok", fn())
        except core.SimCrash:
            self.results[tid] = ("crash", None)
        except BaseException as e:           # noqa: BLE001
            self.results[tid] = ("error", e)
        finally:
            sys.settrace(None)
            with self.cond:
                self.live.remove(tid)
                self.stuck.discard(tid)
                self.waiting.pop(tid, None)
                if self.running == tid:
                    if self.live and not self.free() and not self.stuck:
                        self.dead = f"threads {self.live} wait for locks that nobody will release"
                    self.running = (self.free() or self.live or [None])[0]
                self.cond.notify_all()

    def run(self, fns, limit=120):
        ths = []
        for i, fn in enumerate(fns):
            self.live.append(i)
            ths.append(threading.Thread(target=self._body, args=(i, fn), daemon=True))
        for t in ths:
            t.start()
        locks.active = self
        with self.cond:
            self.running = 0
            self.cond.notify_all()
        last, t_step, t_turn, t0 = -1, time.monotonic(), time.monotonic(), time.monotonic()
        turns = 0
        while any(t.is_alive() for t in ths):
            time.sleep(0.01)
            now = time.monotonic()
            if self.dead:
                raise core.Violation("no-progress", f"concurrent operations never finish: {self.dead}")
            if self.steps != last:
                last, t_step, t_turn, turns = self.steps, now, now, 0
            elif now - t_turn > 5 and len(self.live) > 1:
                # the running thread waits for something a paused thread holds
                with self.cond:
                    if self.running is not None:
                        self.stuck.add(self.running)
                    others = self.free() or [t for t in self.live if t != self.running and t not in self.waiting]
                    if others:
                        self.running = others[turns % len(others)]
                        self.handoffs += 1
                        self.cond.notify_all()
                t_turn, turns = now, turns + 1
            if now - t0 > limit / 2:
                self.left, self.k = -1, len(self.switches)       # no more pre-emptions: let them finish
            if now - t_step > limit / 2 and turns > 2 * len(self.live):
                raise core.Violation("no-progress", "concurrent operations never finished (deadlock)")
        locks.active = None
        if self.handoffs:
            self.ctx.count("watchdog_handoffs", self.handoffs)
        return [self.results[i] for i in range(len(fns))]
