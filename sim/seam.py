"""Seams under the real georinex code: file reads, directory listing, memory,
free-RAM query, program steps (line events), threads.

Installed once in a worker process *before* georinex is imported; inert until a
`World` is entered.  Every decision comes from the world's explicit plan or
from its seeded generator, never from the host.
"""
from __future__ import annotations
import builtins
import errno
import io
import os
import random
import sys
import threading

import numpy as np

REPO = os.environ.get("SIM_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "src", "georinex") + os.sep
TESTS = PKG + "tests" + os.sep

_real_open = io.open
_real_scandir = os.scandir
_real_listdir = os.listdir
_np_real = {k: getattr(np, k) for k in ("empty", "empty_like", "zeros", "full", "asarray", "array")}

WORLD: "World | None" = None


class Crash(BaseException):
    """the simulated process dies here (used for kill points inside Python code)"""


def in_pkg(filename: str) -> bool:
    return filename.startswith(PKG) and not filename.startswith(TESTS)


class SimRaw(io.FileIO):
    """a real read-only file whose delivery the simulator decides"""

    def __init__(self, path, world):
        super().__init__(path, "r")
        self.world = world
        self.spath = os.fspath(path)
        world.handles.append(self)

    def readinto(self, buf):
        w = self.world
        n = w.on_read(self, len(buf))
        if n is None:
            return super().readinto(buf)
        return super().readinto(memoryview(buf)[:n])

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(self.world.bufsize)
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])


def _named(path, what: str) -> bool:
    """what: part of the path, or "=" and the whole file name"""
    return os.path.basename(str(path)) == what[1:] if what.startswith("=") else what in str(path)


class World:
    """one simulated environment

    plan keys:
      root        directory whose files are simulated
      bufsize     size of the read buffer
      short       probability of a short read
      seed        generator for short reads / listing order / memory garbage
      eio         {"at": n, "path": substring or None}   n-th read raises EIO, or
                  {"offset": b, "pass": n}   the n-th read to reach byte b raises EIO
      openerr     {"at": n, "errno": name} or {"path": substring, "errno": name}
      grow        [{"on": "read"|"line", "at": n, "path": p, "data": bytes}]
      poison      None or int: fill of uninitialised memory
      memerr      n: n-th array allocation by georinex raises MemoryError
      ram         None or bytes available
      scandir     seed of listing order or None
      kbd         n: KeyboardInterrupt before the n-th georinex line
      memline     n: MemoryError before the n-th georinex line
      crash       n: Crash before the n-th georinex line
    """

    def __init__(self, plan: dict):
        self.plan = plan
        self.root = os.path.realpath(plan["root"]) + os.sep
        self.rnd = random.Random(plan.get("seed", 0))
        self.bufsize = plan.get("bufsize", 8192)
        self.short = plan.get("short", 0.0)
        self.reads = 0
        self.opens = 0
        self.lines = 0
        self.places: dict | None = {} if plan.get("countlines") else None
        self.allocs = 0
        self.scans = 0
        self.handles: list[SimRaw] = []
        self.fired: dict[str, int] = {}
        self.trace: list = []
        self.eio = plan.get("eio")
        self.openerr = plan.get("openerr")
        self.grow = list(plan.get("grow") or [])
        self.eio_reads = 0
        self.eio_hits = 0
        self.off = 0
        self.line_hook = None

    # ---- bookkeeping
    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.trace.append(("fault", kind, self.reads, self.lines))

    def covers(self, path) -> bool:
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and p.startswith(self.root)

    # ---- events
    def on_open(self, path):
        self.opens += 1
        self.trace.append(("open", os.path.basename(str(path))))
        oe = self.openerr
        if oe and (_named(path, oe["path"]) if oe.get("path") else self.opens == oe["at"]):
            self.fire("open:" + oe["errno"])
            raise OSError(getattr(errno, oe["errno"]), os.strerror(getattr(errno, oe["errno"])), str(path))

    def on_read(self, h: SimRaw, size: int):
        self.reads += 1
        self.do_grow("read", self.reads)
        e = self.eio
        if e and (not e.get("path") or _named(h.spath, e["path"])):
            self.eio_reads += 1
            if "offset" in e:
                # the n-th read that would reach this byte of the file (n counts the openings of it)
                pos = h.tell()
                hit = pos <= e["offset"] < pos + size
                if hit:
                    self.eio_hits += 1
                hit = hit and (self.eio_hits == e["pass"] or (e.get("sticky") and self.eio_hits > e["pass"]))
                if hit:
                    self.fire("read:EIO")
                    raise OSError(errno.EIO, os.strerror(errno.EIO), h.spath)
            elif self.eio_reads == e["at"] or (e.get("sticky") and self.eio_reads > e["at"]):
                self.fire("read:EIO")
                raise OSError(errno.EIO, os.strerror(errno.EIO), h.spath)
        n = None
        if self.short and size > 1 and self.rnd.random() < self.short:
            n = self.rnd.choice([1, 2, 3, self.rnd.randrange(1, size), max(1, size // 2)])
            n = min(n, size)
            self.fired["short_read"] = self.fired.get("short_read", 0) + 1
        self.trace.append(("r", n if n is not None else size))
        return n

    def do_grow(self, on, at):
        for i, g in enumerate(self.grow):
            if i and not self.grow[i - 1].get("done"):  # a logger appends in order
                break
            if g["on"] == on and not g.get("done") and at >= g["at"]:
                g["done"] = True
                data = g["data"]
                with _real_open(g["path"], "ab") as f:
                    f.write(data)
                self.fire("append")

    def on_line(self, frame):
        self.lines += 1
        n = self.lines
        if self.places is not None:
            v = self.places.setdefault((frame.f_code.co_filename, frame.f_lineno), [n, n])
            v[1] = n
        if self.grow:
            self.do_grow("line", n)
        p = self.plan
        if p.get("kbd") == n:
            self.fire("KeyboardInterrupt")
            raise KeyboardInterrupt
        if p.get("memline") == n:
            self.fire("MemoryError:line")
            raise MemoryError("simulated: out of memory")
        if p.get("crash") == n:
            self.fire("crash")
            raise Crash

    def line_at(self, x: float) -> int:
        """the step a fraction stands for: half of them by step, half by place in the code,
        so that places run once are interrupted as often as those in loops"""
        if x < 0.5 or not self.places:
            return 1 + int((2 * x % 1) * self.lines)
        v = sorted(self.places.values())
        k = (2 * x - 1) * len(v)
        return v[int(k)][k % 1 > 0.6]

    # ---- enter/leave
    def __enter__(self):
        global WORLD
        WORLD = self
        p = self.plan
        if any(g["on"] == "line" for g in self.grow) or p.get("kbd") or p.get("memline") or p.get("crash") or p.get("countlines"):
            sys.settrace(_tracer)
        return self

    def __exit__(self, *a):
        global WORLD
        sys.settrace(None)
        WORLD = None
        return False

    def leaked(self):
        return [h.spath for h in self.handles if not h.closed]


def _tracer(frame, event, arg):
    w = WORLD
    if w is None or not in_pkg(frame.f_code.co_filename):
        return None
    return _local


def _local(frame, event, arg):
    w = WORLD
    if event == "line" and w is not None:
        w.on_line(frame)
    return _local


# ---- replacements
def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = WORLD
    if (
        w is None
        or isinstance(file, int)
        or opener is not None
        or any(c in mode for c in "wax+")
        or str(file).endswith((".nc", ".tmp"))
        or not w.covers(file)
    ):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w.on_open(file)
    raw = SimRaw(file, w)
    try:
        if "b" in mode and buffering == 0:
            return raw
        buf = io.BufferedReader(raw, w.bufsize)
        if "b" in mode:
            return buf
        txt = io.TextIOWrapper(buf, encoding, errors, newline)
        txt._CHUNK_SIZE = max(1, w.bufsize)
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


class _Scan:
    def __init__(self, entries):
        self.e = entries
        self.i = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    w = WORLD
    if w is None or w.plan.get("scandir") is None or isinstance(path, int) or not (os.path.realpath(os.fspath(path)) + os.sep).startswith(w.root):
        return _real_scandir(path)
    with _real_scandir(path) as it:
        e = sorted(it, key=lambda d: d.name)
    random.Random(f"{w.plan['scandir']}").shuffle(e)
    w.scans += 1
    w.fired["listing_order"] = w.fired.get("listing_order", 0) + 1
    return _Scan(e)


def sim_listdir(path="."):
    w = WORLD
    if w is None or w.plan.get("scandir") is None or isinstance(path, int) or not (os.path.realpath(os.fspath(path)) + os.sep).startswith(w.root):
        return _real_listdir(path)
    e = sorted(_real_listdir(path))
    random.Random(f"{w.plan['scandir']}").shuffle(e)
    w.fired["listing_order"] = w.fired.get("listing_order", 0) + 1
    return e


def _alloc(name):
    real = _np_real[name]

    def f(*a, **k):
        w = WORLD
        if w is None or not in_pkg(sys._getframe(1).f_code.co_filename):
            return real(*a, **k)
        w.allocs += 1
        if w.plan.get("memerr") == w.allocs:
            w.fire("MemoryError")
            raise MemoryError("simulated: cannot allocate array")
        r = real(*a, **k)
        if name in ("empty", "empty_like") and w.plan.get("poison") is not None:
            w.fired["garbage_memory"] = w.fired.get("garbage_memory", 0) + 1
            seed = w.plan["poison"]
            if r.dtype.kind == "f":
                r.fill([1234.5 + seed, -7.0e3 - seed, float("nan"), 0.0][seed % 4])
            elif r.dtype.kind in "iu":
                r.fill(seed % 100)
            elif r.dtype.kind == "b":
                r.fill(bool(seed % 2))
            elif r.dtype.kind == "M":
                r[...] = np.datetime64(1000000000 + seed, "s")
        return r

    f.__name__ = name
    f.__wrapped__ = real
    return f


class SimLock:
    """lock created by georinex code: waits go through the simulator's scheduler"""

    def __init__(self, re=False):
        self.owner = None
        self.count = 0
        self.re = re

    def acquire(self, blocking=True, timeout=-1):
        import sched_sim

        me = threading.get_ident()
        while True:
            if self.owner is None or (self.re and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            if not sched_sim.yield_blocked(self):
                raise RuntimeError("simulated deadlock")

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


def _lock_factory(real, re):
    def f(*a, **k):
        if in_pkg(sys._getframe(1).f_code.co_filename):
            return SimLock(re)
        return real(*a, **k)

    return f


_real_urandom = os.urandom
ENTROPY = random.Random("entropy")  # one stream per simulated process, never the same twice
_forks = [0]


def new_process():
    """called before a fork: entropy the child is to use"""
    _forks[0] += 1
    return f"entropy {_forks[0]} {ENTROPY.random()}"


def in_new_process(s):
    ENTROPY.seed(s)


def sim_urandom(n):
    """entropy of the operating system: names of temporary files and the like"""
    w = WORLD
    if w is None:
        return _real_urandom(n)
    return ENTROPY.randbytes(n)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        return _real_hex(sim_urandom(4))


def _real_hex(b):
    return "".join("%02x" % i for i in b)


def install():
    io.open = sim_open
    os.urandom = sim_urandom
    import tempfile

    tempfile._name_sequence = _Names()
    builtins.open = sim_open
    import bz2

    bz2._builtin_open = sim_open
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    for k in _np_real:
        setattr(np, k, _alloc(k))
    threading.Lock = _lock_factory(threading.Lock, False)
    threading.RLock = _lock_factory(threading.RLock, True)
    try:
        import psutil

        real_vm = psutil.virtual_memory

        def vm():
            w = WORLD
            r = real_vm()
            if w is None:
                return r._replace(available=64 << 30)
            ram = w.plan.get("ram")
            if ram is None:
                return r._replace(available=64 << 30)
            w.fired["low_memory"] = w.fired.get("low_memory", 0) + 1
            return r._replace(available=ram)

        psutil.virtual_memory = vm
    except ImportError:
        pass
