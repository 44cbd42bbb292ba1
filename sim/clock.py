"""Simulated wall clock: every clock reading the code under test makes comes from the plan."""
import datetime as _dt
import sys
import time as _time

_RD, _RDATE = _dt.datetime, _dt.date
_rt = {n: getattr(_time, n) for n in ("time", "time_ns", "localtime", "gmtime", "strftime", "ctime")}
_EPOCH = _RD(1970, 1, 1)


class Clock:
    """now = start + simulated elapsed time.  `ticks[n]` seconds pass just before the n-th reading
    (default 0); advance() moves it between phases.  Negative ticks are clock jumps backwards."""

    def __init__(self, ctx, start, ticks=()):
        self.ctx = ctx
        self.t = _RD.fromisoformat(start)
        self.ticks = list(ticks)
        self.reads = []

    def advance(self, seconds):
        self.t += _dt.timedelta(seconds=seconds)
        if seconds < 0:
            self.ctx.count("fault:clock_step_back")
        else:
            self.ctx.sim_seconds += seconds

    def read(self):
        n = len(self.reads)
        if n < len(self.ticks) and self.ticks[n]:
            d = self.ticks[n]
            self.advance(d)
            self.ctx.count("fault:clock_jump_between_reads")
        self.reads.append(self.t)
        self.ctx.ev("clock", self.t.isoformat())
        return self.t

    def __enter__(self):
        clock = self

        def mine(depth=2):
            # only readings made by the code under test (directly or through a std helper)
            f = sys._getframe(depth)
            for _ in range(3):
                if f is None:
                    return False
                if f.f_globals.get("__name__", "").startswith("meshiphi"):
                    return True
                f = f.f_back
            return False

        class _DM(type):
            def __instancecheck__(cls, o):
                return isinstance(o, _RD)

            def __subclasscheck__(cls, c):
                return issubclass(c, _RD)

        class FakeDatetime(_RD, metaclass=_DM):
            @classmethod
            def now(cls, tz=None):
                if not mine():
                    return _RD.now(tz)
                t = clock.read()
                return t if tz is None else t.replace(tzinfo=_dt.timezone.utc).astimezone(tz)

            @classmethod
            def today(cls):
                return clock.read() if mine() else _RD.today()

            @classmethod
            def utcnow(cls):
                return clock.read() if mine() else _RD.utcnow()

        class _DM2(type):
            def __instancecheck__(cls, o):
                return isinstance(o, _RDATE)

            def __subclasscheck__(cls, c):
                return issubclass(c, _RDATE)

        class FakeDate(_RDATE, metaclass=_DM2):
            @classmethod
            def today(cls):
                return clock.read().date() if mine() else _RDATE.today()

        for real, fake in ((_RD, FakeDatetime), (_RDATE, FakeDate)):
            fake.__name__ = real.__name__
            fake.__qualname__ = real.__name__
            fake.__module__ = "datetime"
        secs = lambda: (clock.read() - _EPOCH).total_seconds()      # noqa: E731

        def f_time():
            return secs() if mine() else _rt["time"]()

        def f_time_ns():
            return int(secs() * 1e9) if mine() else _rt["time_ns"]()

        def f_local(s=None):
            return _rt["localtime"](secs() if s is None and mine() else s)

        def f_gm(s=None):
            return _rt["gmtime"](secs() if s is None and mine() else s)

        def f_strf(fmt, t=None):
            if t is None:
                return _rt["strftime"](fmt, _rt["localtime"](secs() if mine() else None))
            return _rt["strftime"](fmt, t)

        def f_ctime(s=None):
            return _rt["ctime"](secs() if s is None and mine() else s)

        fakes_t = {"time": f_time, "time_ns": f_time_ns, "localtime": f_local, "gmtime": f_gm,
                   "strftime": f_strf, "ctime": f_ctime}
        _dt.datetime, _dt.date = FakeDatetime, FakeDate
        for n, f in fakes_t.items():
            setattr(_time, n, f)
        self._mods = []
        swap = {id(_RD): FakeDatetime, id(_RDATE): FakeDate}
        for n, f in fakes_t.items():
            swap[id(_rt[n])] = f
        for name, m in list(sys.modules.items()):
            if name == "meshiphi" or name.startswith("meshiphi."):
                for k, v in list(vars(m).items()):
                    if id(v) in swap:
                        self._mods.append((m, k, v))
                        setattr(m, k, swap[id(v)])
        return self

    def __exit__(self, *a):
        _dt.datetime, _dt.date = _RD, _RDATE
        for n, f in _rt.items():
            setattr(_time, n, f)
        for m, k, v in self._mods:
            setattr(m, k, v)
        return False
