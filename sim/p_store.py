"""C09 NetCDF outputs over any history, C10 outputs under crashes and disk faults."""
from __future__ import annotations
import ctypes
import errno
import hashlib
import json
import os
import random
import struct
from pathlib import Path

import numpy as np
import xarray

import georinex as gr
import gen
import model
import seam
from p_env import gen_form, materialise
from p_fidelity import fname, gen_opts
from simlib import (
    Run, Viol, call, canon, crx_able, csum, first_diff, forked, gen_plan, get, listing, load_kw, loose, must, nc_state,
    outcome, put, records, state_diff,
)

GROUP = {"obs2": "OBS", "obs3": "OBS", "nav2": "NAV", "nav3": "NAV", "sp3": "ROOT"}
OWN = ("SITE2", "archive")  # groups of the caller's naming, given to rinexobs and rinexnav


def usual(st: dict) -> dict:
    """what load looks for in an output"""
    return {g: v for g, v in st.items() if g not in OWN}


# -------------------------------------------------------------------- content
def lcanon(ds) -> dict:
    """content of a dataset, irrespective of the containers NetCDF gives it"""
    p: dict = {"dims": {str(k): int(v) for k, v in sorted(ds.sizes.items())}, "vars": {}, "attrs": {}}
    for k, v in ds.variables.items():
        a = np.asarray(v.values)
        if a.size == 0:
            x = ["empty"]
        elif a.dtype.kind == "f":
            a = a.astype("float64")
            a = np.where(np.isnan(a), np.nan, a)
            x = ["f", int(np.isnan(a).sum()), hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:24]]
        elif a.dtype.kind == "M":
            x = ["M"] + a.astype("datetime64[ns]").astype("int64").ravel().tolist()
        else:
            x = ["s"] + [str(i) for i in a.ravel().tolist()]
        p["vars"][str(k)] = [sorted(str(d) for d in v.dims), list(v.dims) and [str(d) for d in v.dims], x]
    for k, v in ds.attrs.items():
        p["attrs"][str(k)] = [i if isinstance(i, (str, int, float)) else str(i) for i in loose(v)]
    return p


def ldiff(want: dict, got: dict) -> str | None:
    if json.loads(json.dumps(want)) == json.loads(json.dumps(got)):
        return None
    if want["dims"] != got["dims"]:
        return f"dimensions {want['dims']} became {got['dims']}"
    for s in ("vars", "attrs"):
        for k in sorted(set(want[s]) | set(got[s])):
            a, b = want[s].get(k), got[s].get(k)
            if json.loads(json.dumps(a)) != json.loads(json.dumps(b)):
                return f"{'variable' if s == 'vars' else 'attribute'} {k}: {str(a)[:200]} became {str(b)[:200]}"
    return "?"


def lstate(path: str):
    """{group: content} of an output file, read with xarray alone; None if there is none"""
    if not os.path.exists(path):
        return None
    out = {}
    for g in ("OBS", "NAV", *OWN):
        try:
            with xarray.open_dataset(path, group=g) as d:
                d.load()
                out[g] = lcanon(d)
        except OSError as e:
            if "group not found" in str(e):
                continue
            return {"unreadable": type(e).__name__}
        except Exception as e:
            return {"unreadable": type(e).__name__}
    if not out:
        try:
            with xarray.open_dataset(path) as d:
                d.load()
                out["ROOT"] = lcanon(d)
        except Exception as e:
            return {"unreadable": type(e).__name__}
    return out


class Reader:
    """a process that reads output files, each time in a child of its own: the state of the
    HDF5 library in the simulated process has no part in the verdict"""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                q = os.fdopen(a[0], "r")
                for ln in q:
                    d = json.dumps(list(forked(lambda: lstate(json.loads(ln))))).encode() + b"\n"
                    i = 0
                    while i < len(d):
                        i += os.write(b[1], d[i : i + 65536])
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w = a[1]
        self.r = os.fdopen(b[0], "r")

    def __call__(self, path):
        os.write(self.w, json.dumps(path).encode() + b"\n")
        return must(tuple(json.loads(self.r.readline())), "reading the output")

    def close(self):
        os.close(self.w)
        self.r.close()
        os.waitpid(self.pid, 0)


def sdiff(want, got) -> str | None:
    """want, got: {group: content} or None"""
    if want is None and got is None:
        return None
    if got is None:
        return "there is no output file"
    if want is None:
        return f"an output file holding {sorted(got)} appeared"
    if "unreadable" in want and "unreadable" in got:
        return None
    if "unreadable" in got:
        return f"the output cannot be read: {got['unreadable']}"
    if set(want) != set(got):
        return f"the output holds {sorted(got)}, not {sorted(want)}"
    for g in sorted(want):
        d = ldiff(want[g], got[g])
        if d:
            return f"group {g}: {d}"
    return None


# --------------------------------------------------------------------------
class C09:
    @classmethod
    def gen(cls, r, task):
        files = []
        for i in range(r.randrange(2, 5)):
            fmt = r.choice(["obs2", "obs3", "nav2", "nav3", "obs2", "obs3", "nav2", "nav3", "sp3"]) if i > 1 else [r.choice(["obs2", "obs3"]), r.choice(["nav2", "nav3"])][i]
            sp = gen.gen(r, fmt, nep=r.choice([1, 2, 3, 5])) if fmt in ("obs2", "obs3", "sp3") else gen.gen(r, fmt, nrec=r.choice([1, 2, 4, 6]))
            files.append({"spec": sp, "name": f"f{i}_" + fname(r, sp), "form": gen_form(r, sp, 0.2)})
        ntarget = r.choice([1, 1, 1, 2])
        ops = []
        for _ in range(r.randrange(3, 10)):
            x = r.random()
            t = r.randrange(ntarget)
            if x < 0.62:
                i = r.randrange(len(files))
                o = gen_opts(r, files[i]["spec"]) if files[i]["spec"]["fmt"] != "sp3" and r.random() < 0.35 else {}
                ops.append({"k": "conv", "i": i, "t": t, "ow": r.random() < 0.35, "o": o, "dir": r.random() < 0.15, "str": r.random() < 0.2, "restart": r.random() < 0.3, "hold": r.random() < 0.25, "via": r.choice(["load", "load", "load", "direct"])})
                if ops[-1]["via"] == "direct" and r.random() < 0.5:
                    ops[-1]["grp"] = r.choice(OWN)
            elif x < 0.72:
                ops.append({"k": "fail", "i": r.randrange(len(files)), "t": t, "how": r.choice(["eio", "kbd", "cut", "mem"]), "at": r.random(), "ow": r.random() < 0.4})
            elif x < 0.78:
                ops.append({"k": "info", "t": t})
            elif x < 0.86:
                ops.append({"k": "badread", "t": t, "what": r.choice(["load", "load", "load", "info", "header"]), "how": r.choice(["rerrno", "rerrno", "rerrno", "rshort", "rsticky"]), "err": r.choice(RERR), "at": sorted(r.random() for _ in range(4))})
            else:
                ops.append({"k": "reload", "t": t})
        p = gen_plan(r)
        p.pop("poison", None)
        return {"files": files, "ops": ops, "plan": p}

    @classmethod
    def run(cls, R, s):
        reader = Reader()
        try:
            cls.play(R, s, reader)
        finally:
            reader.close()

    @classmethod
    def play(cls, R, s, lstate):
        plan = s["plan"]
        din, dout = R.dir("in"), R.dir("out")
        paths, exps = [], []
        for i, f in enumerate(s["files"]):
            name, blob = materialise(f)
            if f["spec"]["fmt"] == "sp3" and f.get("form") and f["form"].get("naming") == "magic":
                name = name.replace("_sp3", ".sp3")
            p = os.path.join(R.dir(f"in/{i}"), name)
            put(p, blob)
            paths.append(p)
            exps.append(gen.render(f["spec"]))

        okey = lambda i, o: f"{i} {json.dumps(o, sort_keys=True)}"  # noqa: E731
        asked = {okey(x["i"], x.get("o") or {}): (x["i"], x.get("o") or {}) for x in s["ops"] if x["k"] in ("conv", "fail") and x["i"] < len(paths)}

        def fresh():
            out = {}
            for k, (i, o) in asked.items():
                val, exc = R.under(plan, lambda: call("load", Path(paths[i]), o))
                out[k] = {"raised": type(exc).__name__} if exc is not None else {"c": lcanon(val)}
                if exc is not None and not isinstance(exc, Exception):
                    raise exc
            return out

        ref = must(forked(fresh), "plain load")
        state: dict = {}  # target path -> {group: content}
        held = []
        hist = []

        def target(x):
            return os.path.join(dout, f"result{x['t']}.nc")

        def check(path, what):
            want = state.get(path)
            d = sdiff(want, lstate(path))
            if d:
                raise Viol("content", f"after {hist}: {what}: {d}")
            extra = [q for q in listing(dout) if os.path.join(dout, q) not in state]
            if extra:
                raise Viol("litter", f"after {hist}: {len(extra)} other files in the output directory ({sorted(set(os.path.splitext(q)[1] for q in extra))})")

        for x in s["ops"]:
            k = x["k"]
            tp = target(x)
            if k in ("conv", "fail") and x["i"] >= len(paths):
                continue
            if k == "conv":
                i, o = x["i"], x["o"]
                fmt = s["files"][i]["spec"]["fmt"]
                own = x.get("grp") if x["via"] == "direct" and fmt != "sp3" and not x["dir"] else None
                g = own or GROUP[fmt]
                arg = tp
                if x["dir"]:
                    arg = dout
                    tp = os.path.join(dout, os.path.basename(paths[i]) + ".nc")
                if fmt == "sp3" and g not in state.get(tp, {g: 0}):
                    continue  # orbits replace the whole file: not mixed with the other kinds here
                if fmt != "sp3" and "ROOT" in state.get(tp, {}):
                    continue
                rf = ref[okey(i, o)]
                exists = g in state.get(tp, {}) and fmt != "sp3"
                if x["hold"] and fmt != "sp3" and "raised" not in rf and usual(state.get(tp, {})) and (x["ow"] or not exists):
                    # an earlier load of this output is still open while it is replaced
                    val, exc = R.under(plan, lambda: gr.load(Path(tp)))
                    if exc is not None:
                        raise Viol("reload", f"after {hist}: {type(exc).__name__}: {exc}")
                    held.append((val, {q: state[tp][q] for q in usual(state[tp])}, list(hist)))
                    val = None
                    hist.append("hold")
                hist.append(f"conv({fmt}{' ow' if x['ow'] else ''}{' ' + own if own else ''})")

                def do():
                    if x["via"] == "direct" and fmt != "sp3" and not x["dir"]:
                        kw = load_kw(o)
                        if own:
                            kw["group"] = own
                        if fmt.startswith("obs"):
                            return gr.rinexobs(Path(paths[i]), Path(tp), overwrite=x["ow"], **kw)
                        return gr.rinexnav(Path(paths[i]), Path(tp), overwrite=x["ow"], **{q: kw[q] for q in ("use", "tlim", "group") if q in kw})
                    return call("load", Path(paths[i]), o, out=arg if x["str"] else Path(arg), overwrite=x["ow"])

                if x["restart"]:

                    def inproc():
                        val, exc = R.under(plan, do)
                        return {"raised": type(exc).__name__, "m": str(exc)[:200]} if exc is not None else {"c": lcanon(val)}

                    got = must(forked(inproc), "conversion in a process of its own")
                else:
                    val, exc = R.under(plan, do)
                    got = {"raised": type(exc).__name__, "m": str(exc)[:200]} if exc is not None else {"c": lcanon(val)}
                    if exc is None:
                        e = model.expect(s["files"][i]["spec"], exps[i][1], None, o)
                        if not o:
                            d = model.compare(val, fmt, e)
                            if d:
                                raise Viol("returned", f"after {hist}: data returned by the conversion: {d}")
                        del val
                R.sig.append((fmt, "new" if tp not in state else "+".join(sorted(state[tp])), x["ow"], x["dir"], x["restart"], "refused" if "raised" in got else "ok", bool(held)))
                if "raised" in rf:
                    if "raised" not in got:
                        raise Viol("accepted", f"after {hist}: the plain load raises {rf['raised']}, the conversion succeeded")
                elif exists and not x["ow"]:
                    if "raised" not in got:
                        raise Viol("overwritten", f"after {hist}: {g} was already in the output, the conversion without permission to overwrite was not refused")
                    R.count["refusals"] += 1
                    R.fired["refused_conversion"] += 1
                elif "raised" in got:
                    raise Viol("refused", f"after {hist}: conversion of a good file failed: {got['raised']}: {got['m']}")
                else:
                    d = ldiff(rf["c"], got["c"])
                    if d:
                        raise Viol("returned", f"after {hist}: data returned by the conversion against the plain load: {d}")
                    other = {q: v for q, v in state.get(tp, {}).items() if q != g}
                    if x["ow"] and other:
                        now = lstate(tp)
                        if now is not None and set(now) == {g}:
                            other = {}
                            R.count["overwrite_dropped_other_kind"] += 1
                    state[tp] = {**other, g: rf["c"]}
                    R.nontrivial = True
                    R.count["conversions"] += 1
                check(tp, "content of the output")
            elif k == "fail":
                i = x["i"]
                if "ROOT" in state.get(tp, {}) or GROUP[s["files"][i]["spec"]["fmt"]] == "ROOT":
                    continue
                hist.append(f"fail({x['how']})")
                p = dict(plan)
                src = paths[i]
                do = lambda: call("load", Path(src), {}, out=Path(tp), overwrite=x["ow"])  # noqa: E731
                if x["how"] == "cut":
                    src = os.path.join(os.path.dirname(paths[i]), "cut." + os.path.basename(paths[i]))
                    b = get(paths[i])
                    put(src, b[: max(1, len(b) // 20)])
                else:

                    def dry():
                        w = R.world({**plan, "countlines": True})
                        R.under(None, lambda: call("load", Path(paths[i])), w)
                        return {"r": w.reads, "l": w.line_at(x["at"]), "a": w.allocs}

                    n = must(forked(dry), "plain load")
                    if x["how"] == "eio":
                        p["eio"] = {"at": 1 + int(x["at"] * n["r"])}
                    elif x["how"] == "kbd":
                        p["kbd"] = n["l"]
                    else:
                        if not n["a"]:
                            continue
                        p["memerr"] = 1 + int(x["at"] * n["a"])
                _v, exc = R.under(p, do)
                if exc is None:
                    # the little that was delivered may be a file of its own: not judged here
                    st = lstate(tp)
                    if st is not None and "unreadable" not in st:
                        state[tp] = st
                    else:
                        check(tp, "content of the output")
                    continue
                R.fired[f"failed_conversion:{x['how']}"] += 1
                check(tp, f"content of the output after a conversion that failed ({type(exc).__name__})")
            elif k == "info":
                if not usual(state.get(tp, {})) or "ROOT" in state[tp]:
                    continue
                hist.append("info")
                val, exc = R.under(plan, lambda: gr.rinexinfo(Path(tp)))
                want = sorted(q.lower() for q in usual(state[tp]))
                if exc is not None:
                    raise Viol("info", f"after {hist}: {type(exc).__name__}: {exc}")
                t = val["rinextype"]
                got = sorted([t] if isinstance(t, str) else t)
                if got != want:
                    raise Viol("info", f"after {hist}: type of the output is given as {got}, it holds {want}")
            elif k == "badread":
                if not usual(state.get(tp, {})) or "ROOT" in state[tp]:
                    continue
                hist.append(f"{x['what']} while reading the output fails" if x["how"] != "rshort" else f"{x['what']} in short reads")
                cls.badread(R, x, tp, usual(state[tp]), plan, hist)
            elif k == "reload":
                if tp not in state or "ROOT" in state[tp]:
                    continue
                hist.append(k)
                for g in sorted(set(state[tp]) & set(OWN)):
                    for f in (gr.rinexobs, gr.rinexnav):
                        val, exc = R.under(plan, lambda: f(Path(tp), group=g))
                        if exc is not None:
                            raise Viol("reload", f"after {hist}: group {g}: {type(exc).__name__}: {exc}")
                        d = ldiff(state[tp][g], lcanon(val))
                        val.close()
                        if d:
                            raise Viol("reload", f"after {hist}: group {g}: {d}")
                known = usual(state[tp])
                if not known:
                    continue
                val, exc = R.under(plan, lambda: gr.load(Path(tp)))
                if exc is not None:
                    raise Viol("reload", f"after {hist}: {type(exc).__name__}: {exc}")
                parts = {q.upper(): v for q, v in val.items()} if isinstance(val, dict) else {next(iter(known)): val}
                if set(parts) != set(known):
                    raise Viol("reload", f"after {hist}: load gives {sorted(parts)}, the output holds {sorted(known)}")
                for q in sorted(parts):
                    d = ldiff(known[q], lcanon(parts[q]))
                    if d:
                        raise Viol("reload", f"after {hist}: {q}: {d}")
                for v in parts.values():
                    v.close()
        for tp in sorted(state):
            check(tp, "content of the output at the end")
        for val, known, then in held:
            # what was loaded from an output is not altered by replacing that output
            parts = {q.upper(): v for q, v in val.items()} if isinstance(val, dict) else {next(iter(known)): val}
            for q in sorted(parts):
                d = ldiff(known.get(q), lcanon(parts[q]))
                if d:
                    raise Viol("held", f"after {hist}: data loaded after {then}: {q}: {d}")
                parts[q].close()
            R.count["held_loads"] += 1
        R.note(csum({k: v for k, v in sorted(ref.items())}), hist)

    @classmethod
    def badread(cls, R, x, tp, want, plan, hist):
        """reading an output back while reads of it fail: fails, or gives what it holds, all of it"""

        def attempt(fault):
            def body():
                shim = Shim()
                shim.begin(os.path.dirname(tp))
                if fault:
                    shim.rfault(*fault)
                try:
                    if x["what"] == "load":
                        val = gr.load(Path(tp))
                        parts = {q.upper(): v for q, v in val.items()} if isinstance(val, dict) else {next(iter(want)) if len(want) == 1 else "only one": val}
                        res = {q: lcanon(v.load()) for q, v in parts.items()}
                    else:
                        h = (gr.rinexinfo if x["what"] == "info" else gr.rinexheader)(Path(tp))
                        t = h["rinextype"]
                        res = {q.upper(): None for q in ([t] if isinstance(t, str) else t)}
                    exc = None
                except Exception as e:
                    res, exc = None, type(e).__name__
                n, f = shim.d.simshim_reads(), shim.d.simshim_rfired()
                shim.end()
                return {"res": res, "exc": exc, "n": n, "fired": f}

            return forked(body)

        r0 = must(attempt(None), "reading the output")
        for a in x["at"]:
            at = min(int(a * r0["n"]), r0["n"] - 1)
            if at < 0:
                return
            res = attempt((at, x["how"], getattr(errno, x["err"])))
            if res[0] == "signal" and x["how"] != "rshort":
                R.count["library_died_of_fault"] += 1
                continue
            r1 = must(res, "reading the output")
            if not r1["fired"]:
                continue
            R.fired[f"{x['how']}:{x['what']}"] += 1
            what = f"after {hist}: {x['how']} at read {at} of {r0['n']}"
            R.sig.append((x["what"], x["how"], "+".join(sorted(want)), r1["exc"]))
            if r1["exc"] is not None:
                if x["how"] == "rshort":
                    raise Viol("reload", f"{what}: {r1['exc']} raised although no read failed")
                continue
            if set(r1["res"]) != set(want):
                raise Viol("reload", f"{what}: {x['what']} gives {sorted(r1['res'])}, the output holds {sorted(want)}")
            if x["what"] == "load":
                d = sdiff(want, r1["res"])
                if d:
                    raise Viol("reload", f"{what}: {d}")


# --------------------------------------------------------------------------
KIND = {"errno": 1, "short": 2, "kill": 3, "tornkill": 4, "sticky": 5}
RKIND = {"rerrno": 1, "rshort": 2, "rsticky": 3}
RERR = ["EIO", "EIO", "EMFILE", "ENOMEM", "EACCES", "ESTALE"]
OPS = {1: "create", 2: "write", 3: "trunc", 4: "fsync", 5: "rename", 6: "unlink", 7: "close", 8: "openw", 9: "fault"}
MUT = ("create", "write", "trunc", "fsync", "rename", "unlink")


class Shim:
    def __init__(self):
        d = ctypes.CDLL(None)
        self.d = d
        d.simshim_begin.argtypes = [ctypes.c_char_p]
        d.simshim_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
        d.simshim_rfault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
        for q in (d.simshim_reads, d.simshim_rfired, d.simshim_ropens):
            q.restype = ctypes.c_long
        d.simshim_ops.restype = ctypes.c_long
        d.simshim_fired.restype = ctypes.c_long
        d.simshim_loglen.restype = ctypes.c_size_t
        d.simshim_log.restype = ctypes.c_void_p

    def begin(self, root):
        self.d.simshim_begin(os.path.realpath(root).encode())

    def fault(self, at, kind, err=0):
        self.d.simshim_fault(at, KIND[kind], err)

    def rfault(self, at, kind, err=0):
        self.d.simshim_rfault(at, RKIND[kind], err)

    def end(self):
        self.d.simshim_end()
        n = self.d.simshim_loglen()
        return ctypes.string_at(self.d.simshim_log(), n) if n else b""


def parse_log(b: bytes) -> list:
    out = []
    i = 0
    while i < len(b):
        kind, l1, l2, off, n = struct.unpack_from("=IIIqQ", b, i)
        i += 28
        p1 = b[i : i + l1].decode()
        i += l1
        p2 = b[i : i + l2].decode()
        i += l2
        data = b""
        if OPS[kind] == "write":
            data = b[i : i + n]
            i += n
        out.append((OPS[kind], p1, p2, off, data))
    return out


def opkinds(log) -> list:
    """kinds of the numbered operations, in order"""
    return [e[0] for e in log if e[0] in MUT]


class Disk:
    """what a file system guarantees about the files of one directory: data of a file is
    durable up to its last flush, later writes may be lost singly or torn at sectors;
    names change atomically and in order."""

    def __init__(self, files: dict):
        self.ino: dict[int, dict] = {}
        self.names: dict[str, int] = {}
        self.n = 0
        for p, b in files.items():
            self.names[p] = self.new(b)
        self.dur = dict(self.names)
        self.meta: list = []

    def new(self, b=b""):
        self.n += 1
        self.ino[self.n] = {"dur": b, "pend": []}
        return self.n

    def apply(self, e):
        op, p, p2, off, data = e
        if op == "create":
            if p in self.names:
                self.ino[self.names[p]]["pend"].append(("t", 0, b""))
            else:
                i = self.new()
                self.names[p] = i
                self.meta.append(("link", p, i))
        elif op == "write" and p in self.names:
            self.ino[self.names[p]]["pend"].append(("w", off, data))
        elif op == "trunc" and p in self.names:
            self.ino[self.names[p]]["pend"].append(("t", off, b""))
        elif op == "fsync" and p in self.names:
            f = self.ino[self.names[p]]
            f["dur"] = self.play(f["dur"], f["pend"])
            f["pend"] = []
            self.commit(len(self.meta))
        elif op == "rename" and p in self.names:
            i = self.names.pop(p)
            self.names[p2] = i
            self.meta.append(("mv", p, p2, i))
        elif op == "unlink" and p in self.names:
            self.names.pop(p)
            self.meta.append(("rm", p))

    def commit(self, k, names=None):
        n = self.dur if names is None else names
        for m in self.meta[:k]:
            if m[0] == "link":
                n[m[1]] = m[2]
            elif m[0] == "mv":
                n.pop(m[1], None)
                n[m[2]] = m[3]
            else:
                n.pop(m[1], None)
        if names is None:
            del self.meta[:k]

    @staticmethod
    def play(b, pend):
        b = bytearray(b)
        for k, off, d in pend:
            if k == "t":
                if off < len(b):
                    del b[off:]
                else:
                    b += bytes(off - len(b))
            else:
                if off > len(b):
                    b += bytes(off - len(b))
                b[off : off + len(d)] = d
        return bytes(b)

    def image(self, r: random.Random) -> dict:
        """the files after power is lost now"""
        names = dict(self.dur)
        k = r.choice([len(self.meta), len(self.meta), r.randrange(len(self.meta) + 1)])
        self.commit(k, names)
        how = r.choice(["all", "none", "some", "some", "torn"])
        out = {}
        for p in sorted(names):
            f = self.ino[names[p]]
            pend = []
            for q in f["pend"]:
                if how == "all":
                    pend.append(q)
                elif how != "none" and r.random() < 0.6:
                    if how == "torn" and q[0] == "w" and len(q[2]) > 512 and r.random() < 0.5:
                        a = 512 * r.randrange(1, (len(q[2]) + 511) // 512)
                        pend.append(("w", q[1], q[2][:a]))
                    else:
                        pend.append(q)
            out[p] = self.play(f["dur"], pend)
        return out


class C10:
    @classmethod
    def gen(cls, r, task):
        case = r.choice(["new", "new", "overwrite", "append", "append", "append", "sp3", "sp3over", "refuse", "broken"])
        fmt = "sp3" if case.startswith("sp3") else r.choice(["obs2", "obs3", "nav2", "nav3"])

        def draw(f):
            big = r.random() < 0.15
            if f in ("obs2", "obs3", "sp3"):
                return gen.gen(r, f, nep=r.choice([1, 2, 4, 30 if big else 6]))
            return gen.gen(r, f, nrec=r.choice([1, 3, 20 if big else 5]))

        sp = draw(fmt)
        files = [{"spec": sp, "name": fname(r, sp), "form": None}]
        if case in ("overwrite", "append", "sp3over", "refuse"):
            f2 = {"overwrite": ["obs2", "nav3", fmt], "append": ["nav2", "nav3"] if fmt.startswith("obs") else ["obs2", "obs3"], "sp3over": ["sp3"], "refuse": ["obs2", "obs3"] if fmt.startswith("obs") else ["nav2", "nav3"]}[case]
            s2 = draw(r.choice(f2))
            files.append({"spec": s2, "name": "old_" + fname(r, s2), "form": None})
        faults = []
        for _ in range(r.randrange(3, 8)):
            k = r.choice(["kill", "kill", "tornkill", "errno", "errno", "errno", "short", "sticky", "sticky", "power", "power", "power"])
            f = {"k": k, "at": ["frac", r.random()] if r.random() < 0.55 else ["kind", r.choice(["create", "write", "write", "fsync", "rename", "rename", "unlink", "trunc", "last"]), r.choice([0, 1, 2, -1, -2])]}
            if k in ("errno", "sticky"):
                f["err"] = r.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG", "EACCES"])
            if case in ("append", "refuse", "overwrite") and r.random() < 0.35:
                f["k"] = r.choice(["rerrno", "rerrno", "rerrno", "rshort", "rsticky"])
                f["at"] = ["frac", r.random()]
                f["err"] = r.choice(RERR)
                faults.append(f)
                continue
            if k == "power":
                f["seed"] = r.randrange(1 << 30)
                f["images"] = r.randrange(2, 6)
            faults.append(f)
        p = gen_plan(r)
        p.pop("poison", None)
        broken = []
        if case == "broken":
            faults = []
            for _ in range(r.randrange(2, 5)):
                broken.append({"what": r.choice(["text", "random", "sign", "head", "cut", "cut", "zeroed", "flip"]), "n": r.choice([1, 7, 40, 511, 512, 900, 1023, 1024, 1025, 4096, 20000]), "at": r.random(), "seed": r.randrange(1 << 30), "ow": r.random() < 0.3})
        return {"case": case, "files": files, "faults": faults, "broken": broken, "plan": p, "via": r.choice(["load", "load", "direct"])}

    @classmethod
    def broken(cls, R, s):
        """what is there already cannot be read as a result: never taken as empty, never replaced unasked"""
        f = s["files"][0]
        fmt, plan = f["spec"]["fmt"], s["plan"]
        g = GROUP[fmt]
        src = os.path.join(R.dir("in"), f["name"])
        put(src, gen.render(f["spec"])[0])
        tp = os.path.join(R.dir("out"), "result.nc")

        def conv(ow):
            def body():
                val, exc = R.under(plan, lambda: call("load", Path(src), {"fast": False} if fmt.startswith("obs") else {}, out=Path(tp), overwrite=ow))
                return {"exc": None if exc is None else type(exc).__name__, "c": None if exc is not None else lcanon(val)}

            return must(forked(body), "conversion")

        r0 = conv(False)
        if r0["exc"]:
            raise Viol("output", f"conversion without faults failed: {r0['exc']}")
        good = get(tp)
        want = must(forked(lambda: lstate(tp)), "reading the output")
        for x in s["broken"]:
            q = random.Random(x["seed"])
            b = {
                "text": lambda: b"notes of the observer, not data\n" * (1 + x["n"] // 32),
                "random": lambda: q.randbytes(x["n"]),
                "sign": lambda: b"\x89HDF\r\n\x1a\n" + bytes(x["n"]),
                "head": lambda: good[: x["n"]],
                "cut": lambda: good[: 1 + int(x["at"] * (len(good) - 1))],
                "zeroed": lambda: bytes(x["n"]),
                "flip": lambda: bytes(8) + good[8:],
            }[x["what"]]()
            if b == good:
                continue
            put(tp, b)
            got = conv(x["ow"])
            R.nontrivial = True
            R.fired[f"unreadable_output:{x['what']}"] += 1
            R.sig.append(("broken", fmt, x["what"], len(b).bit_length(), x["ow"], got["exc"]))
            what = f"existing output of {len(b)} bytes that cannot be read ({x['what']})"
            if x["ow"]:
                if got["exc"]:
                    raise Viol("output", f"{what}: conversion allowed to overwrite failed: {got['exc']}")
                d = sdiff(want, must(forked(lambda: lstate(tp)), "reading the output"))
                if d:
                    raise Viol("output", f"{what}: overwritten: {d}")
            else:
                if get(tp) != b:
                    raise Viol("replaced", f"{what}: replaced without permission ({got['exc'] or 'success reported'})")
                if got["exc"] is None:
                    raise Viol("output", f"{what}: success reported, nothing was written")
            if listing(os.path.dirname(tp)) != ["result.nc"]:
                raise Viol("litter", f"{what}: conversion left other files")

    @classmethod
    def run(cls, R, s):
        case, plan = s["case"], s["plan"]
        if case == "broken":
            return cls.broken(R, s)
        f = s["files"][0]
        fmt = f["spec"]["fmt"]
        g = GROUP[fmt]
        src = os.path.join(R.dir("in"), f["name"])
        put(src, gen.render(f["spec"])[0])
        ow = case == "overwrite"
        old = None
        oldstate = None
        have = len(s["files"]) > 1
        if have != (case in ("overwrite", "append", "sp3over", "refuse")):
            return  # a file was taken away while minimising
        if have:
            o2 = s["files"][1]
            p2 = os.path.join(R.dir("in2"), o2["name"])
            put(p2, gen.render(o2["spec"])[0])
            oldp = os.path.join(R.dir("old"), "result.nc")

            def mk():
                val, exc = R.under(plan, lambda: gr.load(Path(p2), out=Path(oldp), fast=False))
                if exc is not None:
                    raise exc
                return lstate(oldp)

            oldstate = must(forked(mk), "conversion without faults")
            old = get(oldp)

        def fresh():
            val, exc = R.under(plan, lambda: gr.load(Path(src), fast=False))
            if exc is not None:
                raise exc
            return lcanon(val)

        new = must(forked(fresh), "plain load")
        newstate = {**({} if ow or case == "sp3over" or oldstate is None else oldstate), g: new}
        shim = Shim()

        def attempt(name, fault=None, overwrite=None, keep=False):
            """conversion in a process of its own, dying or failing where the fault says"""
            d = R.dir(name)
            tp = os.path.join(d, "result.nc")
            if old is not None and not keep:
                put(tp, old)
            log = os.path.join(R.root, f"log.{name}")

            def body():
                shim.begin(d)
                if fault:
                    (shim.rfault if fault[1] in RKIND else shim.fault)(*fault)
                kw = {"overwrite": ow if overwrite is None else overwrite}

                def do():
                    if fmt.startswith("obs"):
                        kw["fast"] = False
                    if s["via"] == "direct" and fmt != "sp3":
                        return (gr.rinexobs if fmt.startswith("obs") else gr.rinexnav)(Path(src), Path(tp), **kw)
                    return gr.load(Path(src), out=Path(tp), **kw)

                val, exc = R.under(plan, do)
                ops, fired, reads = shim.d.simshim_ops(), shim.d.simshim_fired() + shim.d.simshim_rfired(), shim.d.simshim_reads()
                b = shim.end()
                put(log, b)
                return {"exc": None if exc is None else type(exc).__name__, "msg": str(exc)[:200], "ops": ops, "fired": fired, "reads": reads}

            res = forked(body)
            return d, tp, res, log

        def content(tp):
            """content of an output, read by another process"""
            if not os.path.exists(tp):
                return None
            if old is not None and get(tp) == old:
                return oldstate
            return must(forked(lambda: lstate(tp)), "reading the output")

        def judge(tp, what, allow_new=True, allow_old=True):
            st = content(tp)
            if allow_old and sdiff(oldstate, st) is None:
                return "old"
            if allow_new:
                d = sdiff(newstate, st)
                if d is None:
                    return "new"
                if ow and st is not None and oldstate and set(st) == set(oldstate) | {g} and sdiff({**oldstate, g: new}, st) is None:
                    return "new"
            else:
                d = sdiff(oldstate, st)
            raise Viol("atomic" if allow_new and allow_old else "output", f"{case} {fmt}: {what}: neither the old content nor the complete new one: {d}" if allow_old and allow_new else f"{case} {fmt}: {what}: {d}")

        # ---- without faults
        d, tp, res, log = attempt("dry")
        r0 = must(res, "conversion without faults")
        if case == "refuse":
            if r0["exc"] is None:
                raise Viol("output", f"{case}: conversion onto an output holding {g} was not refused")
            judge(tp, "refused conversion", allow_new=False)
            if listing(d) != ["result.nc"]:
                raise Viol("litter", f"{case}: refused conversion left {len(listing(d))} files")
            entries = parse_log(get(log))
            if any(e[0] in MUT for e in entries):
                R.count["refusal_wrote"] += 1
            R.sig.append((case, fmt))
        else:
            if r0["exc"]:
                raise Viol("output", f"{case} {fmt}: conversion without faults failed: {r0['exc']}: {r0['msg']}")
            judge(tp, "conversion without faults", allow_old=False)
            if listing(d) != ["result.nc"]:
                raise Viol("litter", f"{case}: conversion left {len(listing(d))} files")
            entries = parse_log(get(log))
        os.unlink(log)
        kinds = opkinds(entries)
        R.count["storage_operations"] += len(kinds)
        R.note(case, fmt, hashlib.sha256(repr(kinds).encode()).hexdigest())
        for q, x in enumerate(s["faults"]):
            if x["k"] in RKIND:
                cls.badread(R, s, x, q, r0["reads"], attempt, judge)
                continue
            if not kinds:
                continue
            if x["at"][0] == "frac":
                at = min(int(x["at"][1] * len(kinds)), len(kinds) - 1)
            else:
                idx = [i for i, kk in enumerate(kinds) if kk == x["at"][1]] or [len(kinds) - 1]
                at = idx[max(-len(idx), min(x["at"][2], len(idx) - 1))]
            k = x["k"]
            R.count["faults_tried"] += 1
            if k == "power":
                cls.power(R, s, x, at, entries, os.path.realpath(d), old, oldstate, newstate, judge)
                continue
            fd, tp2, res, log = attempt(f"f{q}", (at, k, getattr(__import__("errno"), x.get("err", "EIO"))))
            what = f"{k}{' ' + x['err'] if 'err' in x else ''} at storage operation {at} of {len(kinds)} ({kinds[at]})"
            R.nontrivial = True
            if res[0] == "signal" and k in ("errno", "short", "sticky"):
                # libhdf5 itself may die of a failed write: for the output that is one more way to crash
                R.count["library_died_of_fault"] += 1
                res = ("exit", 97)
            if res[0] == "exit" and res[1] == 97:
                R.fired[f"{k}:{kinds[at]}"] += 1
                got = judge(tp2, what)
                R.sig.append((case, fmt, k, kinds[at], got))
                # after restart the conversion is done again
                d3, tp3, res, log = attempt(f"f{q}", None, overwrite=ow, keep=True)
                r1 = must(res, "conversion after restart")
                if got == "old" and case != "refuse":
                    if r1["exc"]:
                        raise Viol("restart", f"{case} {fmt}: {what}: conversion after restart failed: {r1['exc']}: {r1['msg']}")
                    judge(tp3, what + ", then converted again", allow_old=False)
                else:
                    judge(tp3, what + ", then converted again")
                continue
            r1 = must(res, f"{case}: {what}")
            ents = parse_log(get(log))
            os.unlink(log)
            if not r1["fired"]:
                continue
            R.fired[f"{k}{':' + x['err'] if 'err' in x else ''}:{kinds[at]}"] += 1
            left = listing(fd)
            litter = [z for z in left if z != "result.nc"]
            fk = [e for e in ents if e[0] == "fault"]
            unl = any(OPS.get(e[3]) == "unlink" for e in fk)
            moved = False
            for e in ents:
                if e[0] == "fault":
                    break
                if e[0] == "rename" and e[2] == os.path.realpath(tp2):
                    moved = True
            R.sig.append((case, fmt, k, kinds[at], x.get("err"), r1["exc"]))
            if r1["exc"] is None:
                if case == "refuse":
                    raise Viol("output", f"{case}: {what}: conversion onto an output holding {g} was not refused")
                judge(tp2, what + ": success was reported", allow_old=False)
            else:
                R.count["errors_reported"] += 1
                judge(tp2, what + f": {r1['exc']} was raised", allow_new=moved or unl)
            if litter and not unl:
                raise Viol("litter", f"{case} {fmt}: {what}: {'failed' if r1['exc'] else 'successful'} conversion left {len(litter)} other files in the directory")
            # the disk is well again
            if case != "refuse" and r1["exc"] and not moved:
                d3, tp3, res, log = attempt(f"f{q}", None, overwrite=ow, keep=True)
                r2 = must(res, "conversion after the fault is gone")
                if r2["exc"] and not unl:
                    raise Viol("restart", f"{case} {fmt}: {what}: conversion once the disk is well again failed: {r2['exc']}: {r2['msg']}")
                if not r2["exc"]:
                    judge(tp3, what + ", then converted again", allow_old=False)

    @classmethod
    def badread(cls, R, s, x, q, reads, attempt, judge):
        """reads of the output that is there already fail, or deliver less than asked for"""
        case, k = s["case"], x["k"]
        if not reads:
            return
        at = min(int(x["at"][1] * reads), reads - 1)
        fd, tp, res, log = attempt(f"f{q}", (at, k, getattr(errno, x["err"])))
        what = f"{k}{' ' + x['err'] if k != 'rshort' else ''} at read {at} of {reads} of the output"
        if res[0] == "signal" and k != "rshort":
            R.count["library_died_of_fault"] += 1
            judge(tp, what, allow_new=case != "refuse")
            return
        r1 = must(res, f"{case}: {what}")
        os.unlink(log)
        if not r1["fired"]:
            return
        R.nontrivial = True
        R.count["faults_tried"] += 1
        R.fired[k + (":" + x["err"] if k != "rshort" else "")] += 1
        R.sig.append((case, k, r1["exc"]))
        left = listing(fd)
        if r1["exc"] is None:
            if case == "refuse":
                raise Viol("output", f"{case}: {what}: conversion onto an output holding data of that kind was not refused")
            judge(tp, what + ": success was reported", allow_old=False)
        else:
            if k == "rshort" and case != "refuse":
                raise Viol("output", f"{case}: {what}: {r1['exc']} raised although no read failed: {r1['msg']}")
            judge(tp, what + f": {r1['exc']} was raised", allow_new=False)
        if left != ["result.nc"]:
            raise Viol("litter", f"{case}: {what}: conversion left {len(left) - 1} other files in the directory")

    @classmethod
    def power(cls, R, s, x, at, entries, d, old, oldstate, newstate, judge):
        r = random.Random(x["seed"])
        nums = [i for i, e in enumerate(entries) if e[0] in MUT]
        tp = os.path.join(d, "result.nc")
        seen = set()
        for j in range(x["images"]):
            k = at if j == 0 else r.choice([r.randrange(len(nums)), len(nums) - 1, max(0, len(nums) - 2)])
            disk = Disk({tp: old} if old is not None else {})
            for e in entries[: nums[k] + 1]:
                disk.apply(e)
            img = disk.image(r)
            R.fired["power_loss"] += 1
            b = img.get(tp)
            h = (hashlib.sha256(b).hexdigest() if b is not None else None)
            if h in seen:
                continue
            seen.add(h)
            di = R.dir()
            ip = os.path.join(di, "result.nc")
            if b is not None:
                put(ip, b)
            R.nontrivial = True
            got = judge(ip, f"power lost after storage operation {k} of {len(nums)} ({entries[nums[k]][0]}), unflushed writes lost or torn")
            R.sig.append((s["case"], "power", entries[nums[k]][0], got))
            if b is not None:
                os.unlink(ip)
