"""
Simulated disk: the file seam.

Everything the code under test does through Python's file API to a path below
`root` goes through SimRaw, which sits under CPython's own buffered and text
layers (so user-space buffering, flush-on-close and destructor behaviour are
the real ones).  A fault is a plan entry

    {"op": "write", "on": "out*.json", "nth": 2, "kind": "error", "errno": "ENOSPC", "arg": 17}

and fires at the nth event of that kind on a path matching the pattern.

Page cache vs platter: writes reach the real file at once (that is what another
process, or this one after a kill, would see); the durable image of a file only
moves at fsync.  restart("machine", policy) rewrites the dirty files the way a
power cut may leave them.
"""
import builtins
import collections
import errno as _errno
import fnmatch
import io
import os
import random
import shutil
import sys

from .core import SimCrash, HarnessError

_real = {
    "open": builtins.open, "listdir": os.listdir, "scandir": os.scandir, "replace": os.replace,
    "rename": os.rename, "remove": os.remove, "unlink": os.unlink, "fsync": os.fsync,
    "truncate": os.truncate, "mkdir": os.mkdir, "rmdir": os.rmdir, "stat": os.stat,
    "os_open": os.open, "write": os.write, "read": os.read, "close": os.close, "ftruncate": os.ftruncate,
    "fdatasync": os.fdatasync, "pwrite": os.pwrite, "writev": os.writev,
}
real_open = builtins.open
_PATCHED = ("listdir", "scandir", "replace", "rename", "remove", "unlink", "fsync", "stat",
            "write", "read", "close", "ftruncate", "truncate", "fdatasync", "pwrite", "writev")


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, path, mode, closefd=True):
        super().__init__()
        self._d = disk
        self._fd = fd
        self._path = path
        self.name = path
        self._mode = mode
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")

    mode = property(lambda s: s._mode)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        if not self._d.dead:
            _real["ftruncate"](self._fd, size)
        return size

    def readinto(self, b):
        d = self._d
        n = len(b)
        f = d.event("read", self._path)
        if f is not None:
            k = f["kind"]
            if k == "error":
                raise d.oserror(f, self._path)
            if k == "short":
                n = max(1, min(n, f.get("arg", 1)))
            elif k == "eintr":
                raise InterruptedError(_errno.EINTR, "interrupted")
            elif k == "eof":
                return 0
        data = _real["read"](self._fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self._d.write_fd(self._fd, self._path, bytes(b))

    def close(self):
        if self.closed:
            return
        d = self._d
        f = None
        try:
            if self._w and not d.dead:
                f = d.event("close", self._path)
                if f is not None and f["kind"] == "crash":
                    d.crash()
                if f is not None and f["kind"] == "error":
                    # delayed-allocation style: the tail never reached the disk
                    size = os.fstat(self._fd).st_size
                    _real["ftruncate"](self._fd, max(0, size - f.get("arg", 0)))
                    raise d.oserror(f, self._path)
        finally:
            super().close()
            if self._closefd:
                d.raw_fds.pop(self._fd, None)
                _real["close"](self._fd)


class SimDisk:
    def __init__(self, root, ctx, faults=(), bufsize=8192, chunk=8192, list_seed=None, capacity=None, cap_on="*"):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f["_seen"] = 0
            f["_done"] = False
        self.stat_faults = any(f["op"] == "stat" for f in self.faults)
        self.bufsize = bufsize
        self.chunk = chunk
        self.list_seed = list_seed
        self.capacity = capacity
        self.cap_on = cap_on
        self.used = 0
        self.dead = False
        self.events = 0
        self.n_fired = 0
        self.hard_fired = 0
        self.wrote_before_fault = False      # had any bytes been written when the first hard fault hit?
        self.durable = {}
        self.dirty = set()
        self.opened_w = []
        self.counts = collections.Counter()
        self.raw_fds = {}                    # descriptors handed out by os.open: fd -> (path, writable)
        self.log = ctx.ev

    # -- one write on a descriptor, by whatever route ----------------------
    def write_fd(self, fd, path, data, at=None):
        if self.dead:
            return len(data)
        f = self.event("write", path)
        if f is not None:
            k = f["kind"]
            arg = f.get("arg", 0)
            if isinstance(arg, float):                   # a share of this write
                arg = int(arg * len(data))
            part = data[:max(0, min(len(data), arg))]
            if k == "error":
                if part:
                    self._put(fd, path, part, at)
                raise self.oserror(f, path)
            if k == "short":
                return self._put(fd, path, data[:max(1, min(len(data), arg))], at)
            if k == "eintr":
                raise InterruptedError(_errno.EINTR, "interrupted")
            if k == "crash":
                if part:
                    self._put(fd, path, part, at)
                self.crash()
        if self.capacity is not None and self.matches_cap(path):
            room = self.capacity - self.used
            if room <= 0:
                self.fired("enospc_full", path)
                raise OSError(_errno.ENOSPC, "No space left on device", path)
            if len(data) > room:
                return self._put(fd, path, data[:room], at)
        return self._put(fd, path, data, at)

    def _put(self, fd, path, data, at=None):
        off = 0
        while off < len(data):
            off += _real["write"](fd, data[off:]) if at is None else _real["pwrite"](fd, data[off:], at + off)
        self.used += len(data)
        self.touched(path)
        return len(data)

    # -- helpers -----------------------------------------------------------
    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p == self.root or p.startswith(self.root + "/"):
            return p
        rp = os.path.realpath(p)
        if rp.startswith(self.root + "/"):
            return rp
        return None

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def matches_cap(self, path):
        return fnmatch.fnmatch(self.rel(path), self.cap_on)

    def fired(self, what, path):
        self.n_fired += 1
        self.ctx.count("fault:" + what)
        self.log("fault", what, self.rel(path))

    def event(self, op, path):
        """One file event.  Returns the fault to apply, or None."""
        self.events += 1
        rel = self.rel(path)
        self.log(op, rel)
        self.counts[(op, rel)] += 1
        hit = None
        for f in self.faults:
            if f["op"] != op or (f["_done"] and not f.get("sticky")):
                continue
            if not fnmatch.fnmatch(rel, f.get("on", "*")):
                continue
            if not f["_done"]:
                n = f["_seen"]
                f["_seen"] += 1
                if n != f.get("nth", 0):
                    continue
                f["_done"] = True
            if hit is None:
                hit = f
        if hit is not None:
            self.fired(f"{op}:{hit['kind']}" + (":" + hit["errno"] if "errno" in hit else ""), path)
            if hit["kind"] in ("error", "crash", "mutate", "eof"):
                self.hard_fired += 1
                if self.hard_fired == 1:
                    self.wrote_before_fault = self.used > 0
            if hit["kind"] == "mutate":
                self.mutate(hit)
                return None
        return hit

    def mutate(self, f):
        """Another party changes a file under our feet."""
        p = os.path.join(self.root, f["target"])
        try:
            sz = _real["stat"](p).st_size
        except OSError:
            return
        how = f["how"]
        if how == "delete":
            _real["remove"](p)
        elif how == "truncate":
            with real_open(p, "r+b") as h:
                h.truncate(int(sz * f.get("frac", 0.5)))
        elif how == "garble":
            with real_open(p, "r+b") as h:
                h.seek(0)
                h.write(b"\x00\xff" * 64)

    def oserror(self, f, path):
        e = getattr(_errno, f.get("errno", "EIO"))
        return OSError(e, os.strerror(e), path)

    def crash(self):
        self.dead = True
        raise SimCrash()

    def touched(self, path):
        self.dirty.add(path)

    # -- durable image -----------------------------------------------------
    def snapshot(self):
        """Everything now on disk is durable."""
        self.durable = {}
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for n in sorted(files):
                p = os.path.join(d, n)
                with real_open(p, "rb") as h:
                    self.durable[p] = h.read()
        self.dirty = set()

    def restart(self, mode, policy):
        """What is on the disk when the machine comes back."""
        self.dead = False
        if mode != "machine":
            self.dirty = set()
            return
        now = {}
        for d, dirs, files in os.walk(self.root):
            for n in sorted(files):
                p = os.path.join(d, n)
                with real_open(p, "rb") as h:
                    now[p] = h.read()
        for p in sorted(set(now) | set(self.durable)):
            cur, old = now.get(p), self.durable.get(p)
            if cur == old:
                continue
            kind = policy["kind"]
            new = cur
            if kind == "old":
                new = old
            elif cur is None:
                new = cur
            elif kind == "empty":
                new = b""
            elif kind == "prefix":
                new = cur[:int(len(cur) * policy["frac"])]
            elif kind == "zeros":
                k = int(len(cur) * policy["frac"])
                blk = policy.get("block", 512)
                k -= k % blk
                new = cur[:k] + b"\0" * min(blk, len(cur) - k) + cur[k + blk:]
            elif kind == "zerotail":
                k = int(len(cur) * policy["frac"])
                new = cur[:k] + b"\0" * (len(cur) - k)
            self.ctx.count("fault:powercut:" + kind)
            self.log("powercut", kind, self.rel(p))
            if new is None:
                if cur is not None:
                    _real["remove"](p)
            else:
                with real_open(p, "wb") as h:
                    h.write(new)
        self.snapshot()

    # -- patched entry points ----------------------------------------------
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            try:
                path = os.readlink(f"/proc/self/fd/{file}")
            except OSError:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            path = self.inside(path) if path.startswith("/") else None
        else:
            path = self.inside(file) if isinstance(file, (str, bytes, os.PathLike)) else None
        if path is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        if self.dead and writing:
            path_fd = _real["os_open"](os.devnull, os.O_RDWR)
            raw = SimRaw(self, path_fd, path, mode)
        else:
            op = "open_w" if writing else "open_r"
            f = self.event(op, path)
            if f is not None and f["kind"] == "error":
                raise self.oserror(f, path)
            if f is not None and f["kind"] == "crash" and f.get("arg", 0) == 0:
                self.crash()
            if isinstance(file, int):
                raw = SimRaw(self, file, path, mode, closefd)
            else:
                base = mode.replace("b", "").replace("t", "")
                fd = real_open(path, base.replace("U", "") + "b", buffering=0, opener=opener)
                newfd = os.dup(fd.fileno())
                self.raw_fds.pop(fd.fileno(), None)
                fd.close()
                raw = SimRaw(self, newfd, path, mode)
                if writing:
                    self.touched(path)
                    self.opened_w.append(self.rel(path))
                if "a" in mode:
                    os.lseek(newfd, 0, os.SEEK_END)
            if f is not None and f["kind"] == "crash":      # after the truncation took effect
                self.crash()
        raw.name = file if isinstance(file, int) else os.fspath(file)
        binary = "b" in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        text._CHUNK_SIZE = self.chunk
        text.mode = mode
        return text

    def _order(self, names, path):
        if self.list_seed is None:
            return names
        names = sorted(names)
        random.Random(f"{self.list_seed}/{self.rel(path)}").shuffle(names)
        self.ctx.count("fault:listing_order")
        return names

    def _listdir(self, path="."):
        p = self.inside(path) if not isinstance(path, int) else None
        if p is None:
            return _real["listdir"](path)
        f = self.event("listdir", p)
        if f is not None and f["kind"] == "error":
            raise self.oserror(f, p)
        return self._order(_real["listdir"](path), p)

    def _scandir(self, path="."):
        p = self.inside(path) if not isinstance(path, int) else None
        if p is None:
            return _real["scandir"](path)
        f = self.event("listdir", p)
        err = self.oserror(f, p) if f is not None and f["kind"] == "error" else None
        if err and not f.get("arg"):
            raise err
        with _real["scandir"](path) as it:
            ents = {e.name: e for e in it}
        ordered = [ents[n] for n in self._order(list(ents), p)]
        if err:                                  # the listing breaks off part way
            return _FakeScandir(ordered[:f["arg"]], err)
        return _FakeScandir(ordered)

    def _stat(self, path, *a, **k):
        if self.stat_faults and not isinstance(path, int):
            p = self.inside(path)
            if p is not None:
                f = self.event("stat", p)
                if f is not None and f["kind"] == "error":
                    raise self.oserror(f, p)
        return _real["stat"](path, *a, **k)

    def _two(self, name):
        real = _real[name]

        def fn(src, dst, *a, **k):
            p = self.inside(src)
            if p is None:
                return real(src, dst, *a, **k)
            if self.dead:
                return None
            f = self.event("rename", p)
            if f is not None:
                if f["kind"] == "error":
                    raise self.oserror(f, p)
                if f["kind"] == "crash":
                    self.crash()
            q = self.inside(dst)
            self.dirty.discard(p)
            if q:
                self.dirty.add(q)
            return real(src, dst, *a, **k)
        return fn

    def _one(self, name):
        real = _real[name]

        def fn(path, *a, **k):
            p = self.inside(path) if not isinstance(path, int) else None
            if p is None:
                return real(path, *a, **k)
            if self.dead:
                return None
            f = self.event("unlink" if name in ("remove", "unlink") else name, p)
            if f is not None and f["kind"] == "error":
                raise self.oserror(f, p)
            return real(path, *a, **k)
        return fn

    def _fsync(self, fd):
        try:
            n = fd if isinstance(fd, int) else fd.fileno()
            path = self.inside(os.readlink(f"/proc/self/fd/{n}"))
        except OSError:
            path = None
        if path is None:
            return _real["fsync"](fd)
        if self.dead:
            return None
        f = self.event("fsync", path)
        if f is not None:
            if f["kind"] == "error":
                raise self.oserror(f, path)
            if f["kind"] == "crash":
                self.crash()
        with real_open(path, "rb") as h:
            self.durable[path] = h.read()
        self.dirty.discard(path)

    # -- descriptor-level calls (os.open, os.write, ...) -------------------
    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None else None
        if p is None or flags & getattr(os, "O_DIRECTORY", 0):
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR))
        if self.dead and (writing or flags & (os.O_CREAT | os.O_TRUNC)):
            return _real["os_open"](os.devnull, os.O_RDWR)
        f = self.event("open_w" if writing else "open_r", p)
        if f is not None and f["kind"] == "error":
            raise self.oserror(f, p)
        if f is not None and f["kind"] == "crash" and f.get("arg", 0) == 0:
            self.crash()
        fd = _real["os_open"](path, flags, mode)
        if writing:
            self.touched(p)
            self.opened_w.append(self.rel(p))
        self.raw_fds[fd] = (p, writing)
        if f is not None and f["kind"] == "crash":
            self.crash()
        return fd

    def _os_write(self, fd, data):
        if fd not in self.raw_fds:
            return _real["write"](fd, data)
        while True:                          # the interpreter retries EINTR itself (PEP 475)
            try:
                return self.write_fd(fd, self.raw_fds[fd][0], bytes(data))
            except InterruptedError:
                pass

    def _os_pwrite(self, fd, data, offset):
        if fd not in self.raw_fds:
            return _real["pwrite"](fd, data, offset)
        while True:
            try:
                return self.write_fd(fd, self.raw_fds[fd][0], bytes(data), offset)
            except InterruptedError:
                pass

    def _os_writev(self, fd, bufs):
        if fd not in self.raw_fds:
            return _real["writev"](fd, bufs)
        return self._os_write(fd, b"".join(bytes(b) for b in bufs))

    def _os_read(self, fd, n):
        if fd not in self.raw_fds:
            return _real["read"](fd, n)
        path = self.raw_fds[fd][0]
        f = self.event("read", path)
        if f is not None:
            if f["kind"] == "error":
                raise self.oserror(f, path)
            if f["kind"] == "short":
                n = max(1, min(n, f.get("arg", 1)))
            elif f["kind"] == "eof":
                return b""
        return _real["read"](fd, n)

    def _os_close(self, fd):
        path, writing = self.raw_fds.pop(fd, (None, False))
        if path is None or not writing or self.dead:
            return _real["close"](fd)
        try:
            f = self.event("close", path)
            if f is not None and f["kind"] == "crash":
                self.crash()
            if f is not None and f["kind"] == "error":
                size = os.fstat(fd).st_size
                _real["ftruncate"](fd, max(0, size - f.get("arg", 0)))
                raise self.oserror(f, path)
        finally:
            _real["close"](fd)

    def _os_ftruncate(self, fd, size):
        if fd in self.raw_fds:
            if self.dead:
                return None
            self.touched(self.raw_fds[fd][0])
        return _real["ftruncate"](fd, size)

    def _os_truncate(self, path, size):
        if not isinstance(path, int):
            p = self.inside(path)
            if p is not None:
                if self.dead:
                    return None
                self.touched(p)
        return _real["truncate"](path, size)

    def __enter__(self):
        self._saved_io_open = io.open
        builtins.open = self._open
        io.open = self._open
        os.listdir = self._listdir
        os.scandir = self._scandir
        os.replace = self._two("replace")
        os.rename = self._two("rename")
        os.remove = self._one("remove")
        os.unlink = self._one("unlink")
        os.fsync = self._fsync
        os.fdatasync = self._fsync
        os.stat = self._stat
        os.open = self._os_open
        os.write = self._os_write
        os.pwrite = self._os_pwrite
        os.writev = self._os_writev
        os.read = self._os_read
        os.close = self._os_close
        os.ftruncate = self._os_ftruncate
        os.truncate = self._os_truncate
        self._sendfile = shutil._USE_CP_SENDFILE
        shutil._USE_CP_SENDFILE = False      # copies go through read and write
        self._patch_nc()
        # names the code under test bound at import time
        import geopandas
        import xarray
        swap = {id(_real[n]): getattr(os, n) for n in _PATCHED}
        swap[id(real_open)] = self._open
        swap[id(_real["os_open"])] = os.open
        swap[id(self._nc[0])] = xarray.open_dataset
        swap[id(self._nc[3])] = geopandas.read_file
        self._bound = []
        for name, m in list(sys.modules.items()):
            if name == "meshiphi" or name.startswith("meshiphi."):
                for k, v in list(vars(m).items()):
                    if id(v) in swap and k != "__builtins__":
                        self._bound.append((m, k, v))
                        setattr(m, k, swap[id(v)])
        return self

    def __exit__(self, *a):
        builtins.open = real_open
        io.open = self._saved_io_open
        for n in _PATCHED:
            setattr(os, n, _real[n])
        os.open = _real["os_open"]
        shutil._USE_CP_SENDFILE = self._sendfile
        for m, k, v in self._bound:
            setattr(m, k, v)
        self._unpatch_nc()
        return False

    # -- netCDF and vector files are opened by C libraries: the seam is the call ----
    def _patch_nc(self):
        import geopandas
        import xarray
        import xarray.backends.api as api
        self._nc = (xarray.open_dataset, xarray.open_mfdataset, api.open_dataset, geopandas.read_file)
        real_od, real_mf, _, real_rf = self._nc

        def guard(path, op="ncopen"):
            if isinstance(path, (str, os.PathLike)):
                p = self.inside(path)
                if p is not None:
                    f = self.event(op, p)
                    if f is not None and f["kind"] == "error":
                        raise self.oserror(f, p)

        def open_dataset(f, *a, **k):
            guard(f)
            return real_od(f, *a, **k)

        def read_file(f, *a, **k):
            guard(f, "ncopen")
            return real_rf(f, *a, **k)

        xarray.open_dataset = open_dataset
        api.open_dataset = open_dataset
        geopandas.read_file = read_file

    def _unpatch_nc(self):
        import geopandas
        import xarray
        import xarray.backends.api as api
        xarray.open_dataset, xarray.open_mfdataset, api.open_dataset, geopandas.read_file = self._nc


class _FakeScandir:
    def __init__(self, ents, err=None):
        self._it = iter(ents)
        self._err = err

    def __iter__(self):
        return self

    def __next__(self):
        try:
            return next(self._it)
        except StopIteration:
            if self._err:
                raise self._err from None
            raise

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def tree(root):
    """path -> bytes of every file below root (unshimmed)."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for n in sorted(files):
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = b"-> " + os.fsencode(os.readlink(p))
                continue
            with real_open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def restore(root, snap):
    cur = tree(root)
    for p in cur:
        if p not in snap:
            _real["remove"](os.path.join(root, p))
    for p, b in snap.items():
        if cur.get(p) != b:
            q = os.path.join(root, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with real_open(q, "wb") as h:
                h.write(b)
