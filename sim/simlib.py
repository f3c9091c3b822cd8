"""Common machinery of the simulated scenarios: files, containers, calls into
the real georinex, canonical results, forked references."""
from __future__ import annotations
import copy
import base64
import bz2
import gzip
import struct
import zlib
import hashlib
import io
import json
import math
import os
import random
import sys
import traceback
import zipfile
from collections import Counter
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import xarray

import georinex as gr
import gen
import model
import seam


class Viol(Exception):
    def __init__(self, cls: str, msg: str):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Harness(Exception):
    pass


# -------------------------------------------------------------------- run
class Run:
    def __init__(self, task: dict, scratch: str):
        self.task = task
        self.root = scratch
        self.fired: Counter = Counter()
        self.count: Counter = Counter()
        self.sig: list = []
        self.hash = hashlib.sha256()
        self.nontrivial = False
        self.known = set(task.get("known") or [])
        self.knownhits: list = []
        self.sample = None
        self.scn = None
        self.n = 0
        self.fds0 = None

    def note(self, *x):
        self.hash.update(repr(x).encode())

    def dir(self, name=None) -> str:
        self.n += 1
        d = os.path.join(self.root, name or f"d{self.n}")
        os.makedirs(d, exist_ok=True)
        return d

    def world(self, plan: dict) -> seam.World:
        return seam.World({"root": self.root, **{k: v for k, v in plan.items() if v is not None}})

    def absorb(self, w: seam.World, trace=True):
        for k, v in w.fired.items():
            self.fired[k] += v
        self.count["reads"] += w.reads
        self.count["opens"] += w.opens
        self.count["lines"] += w.lines
        self.count["calls"] += 1
        if trace:
            self.note("w", w.trace, w.reads, w.opens, w.allocs)

    def under(self, plan: dict, fn, w=None):
        """(value, exception) of fn() in a simulated environment"""
        w = w or self.world(plan)
        val = exc = None
        with w:
            try:
                val = fn()
            except BaseException as e:
                exc = e
        self.absorb(w)
        self.note("exc", type(exc).__name__)
        self.w = w
        return val, exc

    def forked(self, fn):
        """result of fn() computed in a process of its own: ("ok", value) | ("exit", code) | ("signal", n) | ("error", text)"""
        return forked(fn)


def forked(fn):
    r, w = os.pipe()
    ent = seam.new_process()
    pid = os.fork()
    if pid == 0:
        code = 0
        seam.in_new_process(ent)
        try:
            os.close(r)
            try:
                out = {"ok": fn()}
            except BaseException:
                out = {"error": traceback.format_exc()[-2500:]}
            d = json.dumps(out).encode()
            i = 0
            while i < len(d):
                i += os.write(w, d[i : i + 65536])
        except BaseException:
            code = 98
        os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st))
    code = os.WEXITSTATUS(st)
    if code:
        return ("exit", code)
    try:
        d = json.loads(buf)
    except ValueError:
        return ("exit", 0)
    if "ok" in d:
        return ("ok", d["ok"])
    return ("error", d["error"])


def must(res, what: str):
    """value of a forked reference; a reference that fails is a violation of its own"""
    if res[0] == "ok":
        return res[1]
    if res[0] == "signal":
        raise Viol("crash", f"{what}: the process died by signal {res[1]}")
    raise Viol("reference", f"{what}: {res[1]}")


# -------------------------------------------------------------------- results
def cattr(v):
    """canonical, order and type keeping form of an attribute or header value"""
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), cattr(v.tolist())]
    if isinstance(v, np.generic):
        return cattr(v.item())
    if isinstance(v, float):
        return "nan" if math.isnan(v) else repr(v)
    if isinstance(v, (list, tuple)):
        return [cattr(i) for i in v]
    if isinstance(v, (set, frozenset)):
        return ["set", sorted(repr(i) for i in v)]
    if isinstance(v, dict):
        return [[str(k), cattr(i)] for k, i in v.items()]
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    return repr(v)


def carr(a) -> list:
    a = np.asarray(a)
    if a.dtype.kind == "f":
        a = np.where(np.isnan(a), np.nan, a)
        h = hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:24]
        return [str(a.dtype), list(a.shape), int(np.isnan(a).sum()), h]
    if a.dtype.kind == "M":
        return [str(a.dtype), list(a.shape), a.astype("int64").tolist()]
    return [str(a.dtype), list(a.shape), [str(i) for i in a.ravel().tolist()]]


def canon(x, drop=()) -> dict:
    """ordered parts of a result; two results are the same iff their parts are"""
    p: dict = {}
    if isinstance(x, xarray.Dataset):
        p["type"] = "Dataset"
        p["dims"] = [[str(k), int(v)] for k, v in x.sizes.items()]
        p["variables"] = [[str(k), [str(d) for d in v.dims], str(v.dtype)] for k, v in x.variables.items()]
        p["coords"] = sorted(str(k) for k in x.coords)
        for k, v in x.variables.items():
            p[f"var {k}"] = carr(v.values)
        p["attrs"] = [[str(k), cattr(v)] for k, v in x.attrs.items() if k not in drop]
        p["attrtypes"] = [[str(k), type(v).__name__] for k, v in x.attrs.items() if k not in drop]
    elif isinstance(x, dict) and x and all(isinstance(v, xarray.Dataset) for v in x.values()):
        p["type"] = "dict"
        p["keys"] = [str(k) for k in x]
        for k, v in x.items():
            for q, c in canon(v, drop).items():
                p[f"{k}: {q}"] = c
    elif isinstance(x, np.ndarray):
        p["type"] = "array"
        p["value"] = carr(x)
    elif hasattr(x, "to_csv"):
        p["type"] = "DataFrame"
        p["index"] = [str(i) for i in x.index]
        p["columns"] = [str(i) for i in x.columns]
        p["value"] = [[cattr(c) for c in row] for row in x.values.tolist()]
    elif isinstance(x, dict):
        p["type"] = "dict"
        p["items"] = [[str(k), cattr(v)] for k, v in x.items() if k not in drop]
    else:
        p["type"] = type(x).__name__
        p["value"] = cattr(x)
    return p


def first_diff(a: dict, b: dict) -> str | None:
    if a == b:
        return None
    for k in a:
        if a[k] != b.get(k):
            return f"{k}: {short(a[k])} against {short(b.get(k))}"
    for k in b:
        if k not in a:
            return f"{k}: nothing against {short(b[k])}"
    return "order of parts"


def short(x, n=260):
    s = json.dumps(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def csum(p: dict) -> str:
    return hashlib.sha256(json.dumps(p).encode()).hexdigest()[:24]


def outcome(val, exc, drop=()) -> dict:
    """canonical form of the outcome of a call: its result, or the type of its failure"""
    if exc is not None:
        return {"raised": type(exc).__name__}
    return canon(val, drop)


def loose(v):
    """attribute value irrespective of the container NetCDF gives it"""
    a = np.asarray(v)
    return [("nan" if isinstance(i, float) and math.isnan(i) else i) for i in a.ravel().tolist()]


# -------------------------------------------------------------------- calls
def time_text(us: int, k: int) -> str:
    """a way to write a time limit"""
    t = gen.dt(us)
    fr = f".{t.microsecond:06d}".rstrip("0") if t.microsecond else ""
    sec = f":{t.second:02d}{fr}" if t.second or fr or k & 8 else ""
    return [
        t.isoformat(),
        f"{t.year}-{t.month}-{t.day} {t.hour}:{t.minute:02d}{sec}",
        f"{t:%Y-%m-%d %H:%M}{sec}",
        f"{t:%d %b %Y} {t.hour}:{t.minute:02d}{sec}",
        f"{t:%Y%m%dT%H%M%S}{fr}",
        f"{t:%Y/%m/%d} {t.hour:02d}:{t.minute:02d}{sec}",
        f"{t:%b} {t.day} {t.year} {t:%H:%M}{sec}",
        f"{t:%Y-%m-%dT%H:%M}{sec}",
    ][k & 7]


def time_texts(o: dict) -> tuple:
    k = o["tlimstr"]
    if k is True:
        k = 0
    return time_text(o["tlim"][0], k), time_text(o["tlim"][1], k >> 4)


def load_kw(o: dict) -> dict:
    k: dict = {}
    if o.get("use") is not None:
        k["use"] = o["use"] if isinstance(o["use"], str) else {"list": list, "tuple": tuple, "dup": lambda u: [*u, *u]}.get(o.get("usekind"), set)(o["use"])
    if o.get("meas") is not None:
        k["meas"] = o["meas"] if isinstance(o["meas"], str) else (tuple if o.get("measkind") == "tuple" else list)(o["meas"])
    if o.get("tlim") is not None:
        a, b = (gen.dt(t) for t in o["tlim"])
        k["tlim"] = time_texts(o) if o.get("tlimstr") else (a, b)
    if o.get("interval") is not None:
        us = o["interval"]
        ik = o.get("intkind", "td")
        if ik == "int" and us % 1000000 == 0:
            k["interval"] = us // 1000000
        elif ik == "float" and us % 250000 == 0:
            k["interval"] = us / 1e6
        else:
            k["interval"] = timedelta(microseconds=us)
    for f in ("useindicators", "fast", "verbose"):
        if f in o:
            k[f] = o[f]
    return k


def entries(fmt: str) -> list:
    """the functions that load a file of this format"""
    return ["load_sp3"] if fmt == "sp3" else [f"rinex{fmt[:3]}", f"rinex{fmt}"]


class ArgumentChanged(AssertionError):
    pass


def call(op: str, src, o: dict | None = None, out=None, overwrite=None):
    o = o or {}
    if op == "load":
        k = load_kw(o)
        if out is not None:
            k["out"] = out
        if overwrite is not None:
            k["overwrite"] = overwrite
        via = o.get("via", "load")
        if via.startswith("rinexnav"):
            k = {q: v for q, v in k.items() if q in ("use", "tlim")}
        elif via == "load_sp3":
            k = {"outfn": None}
        if via not in ("load", "rinexobs", "rinexnav") and isinstance(src, str):
            src = Path(src)  # the functions of one format take a Path
        same = copy.deepcopy({q: v for q, v in k.items() if q in ("use", "meas", "tlim", "interval")})
        try:
            return getattr(gr, via)(src, **k)
        finally:
            for q, v in same.items():
                if k[q] != v:  # they serve for the next load, or in another thread, too
                    raise ArgumentChanged(f"the argument {q}={v!r} was changed to {k[q]!r}")
    if op == "time":
        return getattr(gr, o.get("time", "gettime"))(src)
    if op == "header":
        return getattr(gr, o.get("header", "rinexheader"))(src)
    if op == "info":
        return gr.rinexinfo(src)
    raise Harness(op)


def text_of(data: bytes) -> str:
    return data.decode("ascii", "ignore").replace("\r\n", "\n").replace("\r", "\n")


def source(kind: str, path: str, data: bytes):
    if kind == "io":
        return io.StringIO(text_of(data))
    if kind == "str":
        return path
    return Path(path)


def cut_at(cut, data: bytes, recs: list) -> int | None:
    """["rec", i, off] | ["hdr", off] | ["byte", frac] -> byte position"""
    if cut is None:
        return None
    if cut[0] == "hdr":
        return min(cut[1], recs[0]["hend"], len(data))
    if cut[0] == "frac":
        return int(cut[1] * len(data))
    if len(recs) < 2:
        return recs[0]["hend"]
    rec = recs[1 + min(cut[1], len(recs) - 2)]
    if cut[0] == "end":
        return min(rec["end"], len(data))
    if cut[0] == "cend":
        return min(rec["cend"], len(data))
    return min(rec["start"] + int(cut[2] * (rec["end"] - rec["start"])), len(data))


def gen_cut(r: random.Random, sp: dict) -> list:
    n = len(sp.get("epochs", sp.get("recs")))
    i = r.randrange(n)
    x = r.random()
    if x < 0.3:
        return ["end", i]
    if x < 0.4:
        return ["cend", i]
    if x < 0.48:
        return ["hdr", r.randrange(1, 1500)]
    return ["rec", i, r.random()]


def gen_plan(r: random.Random) -> dict:
    p: dict = {"bufsize": r.choice([8192, 8192, 4096, 1024, 333, 128, 81, 64]), "seed": r.randrange(1 << 30)}
    if r.random() < 0.5:
        p["short"] = r.choice([0.05, 0.3, 0.7])
    if r.random() < 0.6:
        p["poison"] = r.randrange(8)
    return p


def gen_eio_line(r: random.Random) -> dict:
    """a read error at the start of a line of some kind (see eio_offset)"""
    return {"cls": r.random(), "ln": r.random(), "pass": r.random(), "sticky": r.random() < 0.15, "in": r.choice([0, 0, 1, 30])}


def eio_offset(data: bytes, e: dict, hits: int | None = None) -> dict:
    """lines are told apart by their shape, so that rare kinds of line are hit as often as common ones"""
    kinds: dict = {}
    pos = 0
    for ln in data.splitlines(keepends=True):
        shape = "".join("9" if chr(c).isdigit() else "a" if chr(c).isalpha() else chr(c) for c in ln[:4] + ln[32:35])
        kinds.setdefault(shape + ("|" if len(ln) > 61 and chr(ln[60]).isalpha() else ""), []).append((pos, len(ln)))
        pos += len(ln)
    if not kinds:
        return {"offset": 0, "pass": 1}
    ks = sorted(kinds)
    k = kinds[ks[int(e["cls"] * len(ks))]]
    a, n = k[int(e["ln"] * len(k))]
    return {"offset": a + min(e["in"], n - 1), "pass": 0 if hits is None else 1 + int(e["pass"] * hits), "sticky": e["sticky"]}


def fast_refusal_ok(sp: dict, size: int, n: int) -> bool:
    """the documented limit of the speculative allocation: more epochs than the file size suggests"""
    return sp["fmt"] == "obs2" and size / 80 / (6 * math.ceil(len(sp["types"]) / 5)) < n


def is_fast_refusal(exc) -> bool:
    return isinstance(exc, IndexError) and "fast" in str(exc)


def records(sp):
    return sp.get("epochs", sp.get("recs"))


# -------------------------------------------------------------------- containers
def lzw(data: bytes) -> bytes:
    import ncompress

    return ncompress.compress(data)


def crx_able(sp: dict) -> bool:
    st = sp["style"]
    return sp["fmt"] in ("obs2", "obs3") and not st.get("sp7") and not st.get("blankG") and not st.get("lead") and not any(e.get("clk") for e in sp["epochs"])


def to_crx(sp: dict, data: bytes) -> bytes | None:
    """Hatanaka form, only if the tool itself gives the text back"""
    import hatanaka

    try:
        t = text_of(data)
        c = hatanaka.rnx2crx(t)
        back = hatanaka.crx2rnx(c)
    except Exception:
        return None
    if [x.rstrip() for x in back.splitlines()] != [x.rstrip() for x in t.splitlines()]:
        return None
    return c.encode("ascii")


def gzip_member(b: bytes, level: int, flg: int) -> bytes:
    """one gzip member with any of the optional header fields (RFC 1952)"""
    h = b"\x1f\x8b\x08" + bytes([flg]) + (b"\x00" * 4 if not flg else b"\x78\x56\x34\x12") + b"\x00\x03"
    if flg & 4:
        h += b"\x06\x00AB\x02\x00xy"
    if flg & 8:
        h += b"name 1.18o\x00"
    if flg & 16:
        h += b"a comment\x00"
    if flg & 2:
        h += struct.pack("<H", zlib.crc32(h) & 0xFFFF)
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return h + c.compress(b) + c.flush() + struct.pack("<II", zlib.crc32(b), len(b) & 0xFFFFFFFF)


def pack(data: bytes, form: dict, inner: str) -> bytes:
    c = form.get("c")
    if c in ("gz", "bz2"):
        k = form.get("members", 1)
        n = len(data)
        cuts = [n * i // k for i in range(k + 1)]
        lv = form.get("level", 9)
        z = (lambda b: gzip_member(b, lv, form.get("flg", 0))) if c == "gz" else (lambda b: bz2.compress(b, lv))
        return b"".join(z(data[a:b]) for a, b in zip(cuts, cuts[1:]))
    if c == "zip":
        o = io.BytesIO()
        with zipfile.ZipFile(o, "w", zipfile.ZIP_STORED if form.get("stored") else zipfile.ZIP_DEFLATED) as z:
            if form.get("dir"):
                z.writestr(zipfile.ZipInfo("data/", (1980, 1, 1, 0, 0, 0)), b"")
                inner = "data/" + inner
            i = zipfile.ZipInfo(inner, (1980, 1, 1, 0, 0, 0))
            i.compress_type = z.compression
            z.writestr(i, data)
        return o.getvalue()
    if c == "Z":
        return lzw(data)
    return data


SUFFIX = {"gz": [".gz", ".GZ"], "bz2": [".bz2"], "zip": [".zip", ".ZIP"], "Z": [".Z", ".z"]}


def put(path: str, data: bytes):
    with seam._real_open(path, "wb") as f:
        f.write(data)


def get(path: str) -> bytes:
    with seam._real_open(path, "rb") as f:
        return f.read()


# -------------------------------------------------------------------- output files
def nc_state(path: str):
    """content of a NetCDF output: None if absent, {"group": parts}; read with xarray alone"""
    if not os.path.exists(path):
        return None
    out = {}
    for g in ("OBS", "NAV"):
        try:
            with xarray.open_dataset(path, group=g) as d:
                d.load()
        except OSError as e:
            if "group not found" in str(e):
                continue
            return {"unreadable": f"{type(e).__name__}: {str(e)[:80]}"}
        out[g] = canon(d)
    if not out:  # files of orbits have no group
        try:
            with xarray.open_dataset(path) as d:
                d.load()
        except Exception as e:
            return {"unreadable": f"{type(e).__name__}: {str(e)[:80]}"}
        out["ROOT"] = canon(d)
    return out


def state_diff(a, b) -> str | None:
    if a == b:
        return None
    if a is None or b is None:
        return "file missing" if b is None else "file appeared"
    if set(a) != set(b):
        return f"holds {sorted(a)}, not {sorted(b)}" + (f" ({b['unreadable']})" if "unreadable" in b else "")
    for k in a:
        d = first_diff(a[k], b[k]) if isinstance(a[k], dict) else f"{a[k]} / {b[k]}"
        if d:
            return f"{k}: {d}"
    return None


def listing(d: str) -> list:
    out = []
    for base, _dirs, files in os.walk(d):
        for f in files:
            out.append(os.path.relpath(os.path.join(base, f), d))
    return sorted(out)
