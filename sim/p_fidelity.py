"""C02 C03 C04 fidelity under truncation and read errors, C05 containers,
C06 selection, C14 time listing and header."""
from __future__ import annotations
import copy
import bz2
import gzip
import io
import json
import math
import os
import random
from datetime import datetime
from pathlib import Path

import numpy as np

import georinex as gr
import gen
import model
import seam
from simlib import (
    SUFFIX, Run, Viol, call, canon, cattr, crx_able, csum, cut_at, entries, eio_offset, fast_refusal_ok, first_diff, gen_cut, gen_eio_line, gen_plan,
    get, is_fast_refusal, loose, outcome, pack, put, records, source, text_of, to_crx,
)

INF = 1 << 60
NAMES = ["site1230", "with space1230", "UPPER123", "a.b1230"]


def fname(r: random.Random, sp: dict) -> str:
    return r.choice(NAMES[:1] * 4 + NAMES) + gen.suffix(sp)


def whole_records(recs, cut):
    return [i for i, q in enumerate(recs[1:]) if q["cend"] <= cut]


def at_boundary(recs, cut, size):
    """nothing is cut through: every touched record is whole"""
    return all(q["cend"] <= cut or q["start"] >= cut for q in recs[1:]) and cut >= recs[0]["hend"]


def check_attrs(R: Run, ds, sp, o, cut, name=None):
    """what the header states, as attributes of the load"""
    a = ds.attrs
    if sp["fmt"] == "sp3":
        want = {"coord_sys": sp["hd"][0], "orbit_type": sp["hd"][1], "agency": sp["hd"][2].strip(), "Nepoch": sp.get("nep", len(sp["epochs"]))}
        for k, v in want.items():
            if (a.get(k).strip() if isinstance(a.get(k), str) else a.get(k)) != v:
                raise Viol("attrs", f"{k}: file says {v!r}, attribute is {a.get(k)!r}")
        if ds["t0"].values.astype("datetime64[us]").astype("int64").item() != sp["epochs"][0]["t"]:
            raise Viol("attrs", f"t0: file says {gen.dt(sp['epochs'][0]['t'])}, the load gives {ds['t0'].values}")
        return
    want = {"rinextype": sp["fmt"][:3], **({"filename": name} if name else {})}
    for k, v in want.items():
        if a.get(k) != v:
            raise Viol("attrs", f"{k}: should be {v!r}, attribute is {a.get(k)!r}")
    if sp["fmt"] in ("obs2", "obs3"):
        if sp.get("pos"):
            want = [float(f"{p / 1000:14.4f}") for p in sp["pos"]]
            if [float(x) for x in a.get("position", [])] != want:
                raise Viol("attrs", f"position: file says {want}, attribute is {a.get('position')}")
            g = a.get("position_geodetic")
            if g is not None:
                back = model.ecef(*(float(x) for x in g))
                if len(g) != 3 or max(abs(x - y) for x, y in zip(back, want)) > 100:  # pymap3d is exact near the surface only
                    raise Viol("attrs", f"geodetic position {tuple(map(float, g))} is at {back}, file says {want}")
        if sp.get("interval") and float(a.get("interval", -1)) != float(sp["interval"]):
            raise Viol("attrs", f"interval: file says {sp['interval']}, attribute is {a.get('interval')}")
        if float(a.get("version", -1)) != float(sp["ver"]):
            raise Viol("attrs", f"version: file says {sp['ver']}, attribute is {a.get('version')}")
        want = {"time_system": sp["tsys"] or {"G": "GPS", "S": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN"}[sp["sys"]]}
        if sp["fmt"] == "obs2":
            want["rxmodel"] = "RX MODEL"
        elif sp.get("rcvclk") is not None:
            want["receiver_clock_offset_applied"] = sp["rcvclk"]
        for k, v in want.items():
            if a.get(k) != v:
                raise Viol("attrs", f"{k}: file says {v!r}, attribute is {a.get(k)!r}")
        if sp["fmt"] == "obs3" and cut is None:
            keep = model.keep_epochs([x["t"] for x in sp["epochs"]], o.get("tlim"), o.get("interval"))
            want = [float(x["clk"]) for x, kp in zip(sp["epochs"], keep) if kp and x.get("clk") is not None]
            if [float(x) for x in a.get("time_offset", [])] != want:
                raise Viol("attrs", f"time_offset: file says {want}, attribute is {a.get('time_offset')}")
        if not sp.get("interval"):
            t = ds.time.values.astype("datetime64[us]").astype(np.int64)
            want = float(np.median(np.diff(t))) / 1e6 if t.size > 1 else None
            got = float(a.get("interval", 0))
            if want is None and not math.isnan(got) or want is not None and abs(got - want) > 1e-6:
                raise Viol("attrs", f"interval: the epochs are {want} s apart, attribute is {got}")
    elif sp["fmt"] in ("nav2", "nav3"):
        if float(a.get("version", -1)) != float(sp["ver"]):
            raise Viol("attrs", f"version: file says {sp['ver']}, attribute is {a.get('version')}")
        f = lambda x: float(x.replace("D", "E"))  # noqa: E731
        io_ = sp.get("iono") or {}
        want = {}
        if sp["fmt"] == "nav2":
            if "A" in io_ and "B" in io_:
                want["GPS"] = [f(x) for x in io_["A"] + io_["B"]]
        else:
            if "GAL" in io_:
                want["GAL"] = [f(x) for x in io_["GAL"]]
            for k, n in (("GPS", "GPS"), ("BDS", "BDS"), ("QZS", "QZS"), ("IRN", "IRN")):
                if k + "A" in io_ and k + "B" in io_:
                    want[n] = [f(x) for x in io_[k + "A"] + io_[k + "B"]]
        got = {k[len("ionospheric_corr_") :]: [float(x) for x in np.asarray(v).ravel()] for k, v in a.items() if k.startswith("ionospheric_corr_")}
        if got != want:
            raise Viol("attrs", f"ionospheric coefficients: file says {want}, attributes are {got}")


class Fidelity:
    """load of a generated file: whole, cut short, or failing in a read"""

    fmts: tuple = ()

    @classmethod
    def gen(cls, r: random.Random, task: dict) -> dict:
        fmt = r.choice(cls.fmts)
        sp = gen.gen(r, fmt, long=True)
        x = r.random()
        mode = "plain" if x < 0.35 else ("cut" if x < 0.75 else "eio")
        scn = {"spec": sp, "name": fname(r, sp), "src": r.choice(["path", "path", "str"] + (["io"] if fmt != "sp3" and mode != "eio" else [])), "mode": mode, "plan": gen_plan(r), "opts": {}}
        if fmt in ("obs2", "obs3"):
            if r.random() < 0.4:
                scn["opts"]["useindicators"] = True
            if r.random() < 0.4:
                scn["opts"]["fast"] = False
        if r.random() < 0.05:
            scn["opts"]["verbose"] = True
        if r.random() < 0.25:
            scn["opts"]["via"] = r.choice(entries(fmt))
        if mode == "cut":
            scn["cut"] = gen_cut(r, sp)
        if mode == "eio":
            scn["eio"] = [r.random(), r.random() < 0.3]
            if scn["plan"]["bufsize"] == 8192:
                scn["plan"]["bufsize"] = r.choice([128, 333, 1024])
            if r.random() < 0.6:
                scn["eioln"] = gen_eio_line(r)
                scn["plan"]["bufsize"] = r.choice([16, 32, 64, 81])
        return scn

    @classmethod
    def run(cls, R: Run, s: dict):
        sp, o, plan = s["spec"], s["opts"], s["plan"]
        data, recs = gen.render(sp)
        cut = cut_at(s.get("cut"), data, recs)
        if cut is not None:
            data = data[:cut]
            R.fired["truncated_file"] += 1
        path = os.path.join(R.dir("in"), s["name"])
        put(path, data)

        def op():
            return call("load", source(s["src"], path, data), o)

        eio = None
        if s["mode"] == "eio":
            w = R.world({**plan, "eio": {**eio_offset(data, s["eioln"]), "sticky": False}} if s.get("eioln") else plan)
            _v, exc = R.under(plan, op, w)
            if exc is not None:
                if is_fast_refusal(exc) and fast_refusal_ok(sp, len(data), len(records(sp))):
                    return
                raise Viol("load-raised", f"intact file refused: {type(exc).__name__}: {exc}")
            eio = {"at": 1 + int(s["eio"][0] * w.reads), "sticky": s["eio"][1]}
            if s.get("eioln"):
                eio = eio_offset(data, s["eioln"], w.eio_hits)
            plan = {**plan, "eio": eio}
        ds, exc = R.under(plan, op)
        fmt = sp["fmt"]
        R.sig.append((fmt, sp.get("ver"), s["mode"], s["src"], sorted(o), plan.get("bufsize"), type(exc).__name__, min(len(records(sp)), 4)))
        if s["mode"] == "eio":
            if not R.w.fired.get("read:EIO"):
                return
            R.nontrivial = True
            if exc is None:
                raise Viol("partial-after-eio", f"read {eio.get('at', eio)} failed with an I/O error, yet the load returned {dict(ds.sizes)}")
            return
        n = len(records(sp))
        if exc is not None:
            if not isinstance(exc, Exception):
                raise Viol("load-raised", f"{type(exc).__name__}: {exc}")
            if is_fast_refusal(exc) and fast_refusal_ok(sp, len(data), n):
                ds, exc = R.under(plan, lambda: call("load", source(s["src"], path, data), {**o, "fast": False}))
                R.count["fast_refusals"] += 1
        if exc is not None:
            if cut is None:
                raise Viol("load-raised", f"intact file refused: {type(exc).__name__}: {exc}")
            if at_boundary(recs, cut, len(data)) and whole_records(recs, cut):
                raise Viol("load-raised", f"file ending between two records refused: {type(exc).__name__}: {exc}")
            R.count["refused_cut_files"] += 1
            R.nontrivial = True
            return
        torn = cut is not None and not at_boundary(recs, cut, len(data))
        e = model.expect(sp, recs, cut, o)
        d = model.compare(ds, fmt, e, torn=torn)
        if d:
            raise Viol("data", d)
        R.count["values_checked"] += len(e.req)
        R.nontrivial = bool(e.req or e.opt)
        if cut is None or cut >= recs[0]["hend"]:
            if records(sp) and (e.req or cut is None):
                check_attrs(R, ds, sp, o, cut, s["name"] if s["src"] != "io" else None)
        R.note(csum(canon(ds)))


class C02(Fidelity):
    fmts = ("obs2", "obs3")


class C03(Fidelity):
    fmts = ("nav2", "nav3")


class C04(Fidelity):
    fmts = ("sp3",)


# --------------------------------------------------------------------------
class C05:
    @classmethod
    def gen(cls, r, task):
        fmt = r.choice(["obs2", "obs3", "obs2", "obs3", "nav2", "nav3", "sp3"])
        sp = gen.gen(r, fmt, long=True)
        if fmt in ("obs2", "obs3") and r.random() < 0.6:
            sp["style"].update(sp7=False, blankG=False, lead=0)
            for e in sp["epochs"]:
                e.pop("clk", None)
        form = {"c": r.choice(["gz", "gz", "bz2", "zip", "Z"]), "crx": False}
        if crx_able(sp) and r.random() < 0.7:
            form["crx"] = True
            if r.random() < 0.3:
                form["c"] = None
        if form["c"] in ("gz", "bz2"):
            form["members"] = r.choice([1, 1, 1, 2, 3])
            form["level"] = r.choice([9, 9, 1, 3, 6])
            if form["c"] == "gz" and r.random() < 0.4:
                form["flg"] = r.randrange(32)
        if form["c"] == "zip":
            form["stored"] = r.random() < 0.3
            form["dir"] = r.random() < 0.2
        form["naming"] = r.choice(["suffix", "suffix", "magic"])
        form["as"] = r.choice([".dat", ".dat", "", "plain"])
        form["sfx"] = r.randrange(2)
        x = r.random()
        mode = "plain" if x < 0.5 else ("cut" if x < 0.8 else "eio")
        s = {"spec": sp, "form": form, "mode": mode, "plan": gen_plan(r), "opts": {}, "name": "site1230" + gen.suffix(sp)}
        if mode == "cut":
            s["ccut"] = r.choice([r.random(), 1 - r.random() * 0.1, 1 - r.random() * 0.02])
        if mode == "eio":
            s["eio"] = [r.random(), r.random() < 0.3]
            s["plan"]["bufsize"] = r.choice([64, 128, 333, 1024])
        if fmt in ("obs2", "obs3"):
            if r.random() < 0.3:
                s["opts"]["useindicators"] = True
            if r.random() < 0.3:
                s["opts"]["fast"] = False
        return s

    @classmethod
    def run(cls, R, s):
        sp, o, plan, form = s["spec"], s["opts"], s["plan"], s["form"]
        fmt = sp["fmt"]
        data, recs = gen.render(sp)
        name = s["name"]
        body = data
        crx = False
        if form.get("crx") and crx_able(sp):
            c = to_crx(sp, data)
            if c is not None:
                body = c
                crx = True
                name = name[:-1] + "d" if fmt == "obs2" else name[:-4] + ".crx"
        if not form.get("c") and not crx:
            form = {**form, "c": "gz", "members": 1}
        blob = pack(body, form, name)
        if form.get("c"):
            if form["naming"] == "suffix":
                name += SUFFIX[form["c"]][form["sfx"] % len(SUFFIX[form["c"]])]
            elif form.get("as") != "plain":  # else the name is that of the plain file
                name = name.replace(".", "_") + form.get("as", ".dat")
        if s.get("ccut") is not None:
            k = min(int(s["ccut"] * len(blob)), len(blob) - 1)
            blob = blob[:k]
            R.fired["truncated_container"] += 1
        dn = R.dir("in")
        path = os.path.join(dn, name)
        put(path, blob)
        op = lambda: call("load", Path(path), o)  # noqa: E731
        size = len(data)
        if s["mode"] == "eio":
            w = R.world(plan)
            _v, exc = R.under(plan, op, w)
            if exc is None:
                plan = {**plan, "eio": {"at": 1 + int(s["eio"][0] * w.reads), "sticky": s["eio"][1]}}
        ds, exc = R.under(plan, op)
        R.sig.append((fmt, form.get("c"), crx, form["naming"], form.get("members"), s["mode"], type(exc).__name__))
        if s["mode"] == "eio" and R.w.fired.get("read:EIO"):
            R.nontrivial = True
            if exc is None:
                raise Viol("partial-after-eio", f"a read of {name} failed with an I/O error, yet the load returned {dict(ds.sizes)}")
            return
        if exc is not None and is_fast_refusal(exc) and (crx or fast_refusal_ok(sp, size, len(records(sp)))):
            ds, exc = R.under(plan, lambda: call("load", Path(path), {**o, "fast": False}))
        if s.get("ccut") is None:
            if exc is not None:
                raise Viol("load-raised", f"intact {form.get('c')} {'CRINEX' if crx else ''} file refused: {type(exc).__name__}: {exc}")
            e = model.expect(sp, recs, None, o)
            d = model.compare(ds, fmt, e)
            if d:
                raise Viol("data", f"in {form.get('c')}{' CRINEX' if crx else ''}: {d}")
            check_attrs(R, ds, sp, o, None)
            ppath = os.path.join(R.dir("plain"), s["name"])
            put(ppath, data)
            pds, pexc = R.under({}, lambda: call("load", Path(ppath), {**o, "fast": False} if fmt == "obs2" else o))
            if pexc is not None:
                raise Viol("plain-raised", f"plain file refused: {type(pexc).__name__}: {pexc}")
            drop = ("filename", "fast_processing")
            a = {k: loose(v) for k, v in pds.attrs.items() if k not in drop}
            b = {k: loose(v) for k, v in ds.attrs.items() if k not in drop}
            if json.dumps(cattr(a)) != json.dumps(cattr({k: b.get(k) for k in a})) or set(a) != set(b):
                raise Viol("attrs", f"attributes differ: plain {a}, {form.get('c')} {b}")
            R.count["values_checked"] += len(e.req)
            R.nontrivial = bool(e.req)
            R.note(csum(canon(ds)))
            return
        # lost tail
        R.nontrivial = True
        if exc is not None:
            R.count["refused_cut_files"] += 1
            return
        e = model.expect(sp, recs, None, o)
        if form.get("members", 1) > 1:
            try:  # cut between two members: an intact file of fewer members
                (gzip if form["c"] == "gz" else bz2).decompress(blob)
                return
            except (EOFError, OSError, ValueError):
                pass
        if form.get("c") in ("gz", "bz2", "zip"):
            d = model.compare(ds, fmt, e)
            if d:
                raise Viol("partial", f"{form['c']} file without its tail was loaded in part: {d}")
            return
        # .Z and CRINEX: only data truly in the file.  How much of it was delivered is known for .Z.
        if form.get("c") == "Z" and not crx:
            got, _ = model.dataset_values(ds, fmt)
            t = _unz(blob)
            if t is not None:
                e = model.expect(sp, recs, len(t), o)
                d = model.compare(ds, fmt, e, torn=True)
                if d:
                    raise Viol("data", f"cut .Z file: {d}")
                return
        cls.subset(ds, fmt, e, sp, recs)

    @staticmethod
    def subset(ds, fmt, e, sp, recs):
        """all values true ones, except within the record cut through"""
        got, facts = model.dataset_values(ds, fmt)
        bad = {}
        for k in sorted(got):
            if k in e.req and model.same(got[k], e.req[k], e.tol.get(k, 0)):
                continue
            bad.setdefault(k[1], k)
        if len(bad) > 1:
            k = sorted(bad.values())[0]
            raise Viol("data", f"cut file gives data not in it, in {len(bad)} epochs: {k}: {got[k]!r}, file says {e.req.get(k)!r}")
        if bad:
            k = list(bad.values())[0]
            later = [q for q in got if q[1] > k[1]]
            if later:
                raise Viol("data", f"cut file gives data not in it before its end: {k}: {got[k]!r}, file says {e.req.get(k)!r}")


def _unz(blob):
    import ncompress

    try:
        return ncompress.decompress(blob)
    except Exception:
        return None


# --------------------------------------------------------------------------
def gen_opts(r: random.Random, sp: dict, n=None) -> dict:
    """options of a load, in any combination"""
    o: dict = {}
    fmt = sp["fmt"]
    ts = sorted({x["t"] for x in records(sp)})
    obs = fmt in ("obs2", "obs3")
    if r.random() < (0.5 if obs else 0.75) and ts:
        a, b = r.choice(ts), r.choice(ts)
        a, b = min(a, b), max(a, b)
        x = r.random()
        if x < 0.3:
            a += r.choice([-1, 1]) * r.choice([1, 1000, 500000, 10_000_000])
        if x > 0.6:
            b += r.choice([-1, 1]) * r.choice([1, 1000, 500000, 10_000_000])
        if a > b:
            a, b = b, a
        o["tlim"] = [a, b]
        if r.random() < 0.25:
            o["tlimstr"] = r.choice([True, 1 + r.randrange(255)])
    if fmt != "sp3" and r.random() < 0.5:
        have = sorted(sp["types"]) if fmt == "obs3" else sorted({q[0] for x in records(sp) for q in ([x["sv"]] if fmt.startswith("nav") else [y[0] for y in x["o"]])})
        if have:
            k = r.randrange(1, len(have) + 1)
            u = r.sample(have, k)
            if r.random() < 0.15:
                u.append(r.choice("GRECJS"))
            if r.random() < 0.15:
                u = [r.choice("GRECJSI")]  # likely none of the file's
            o["use"] = u[0] if len(u) == 1 and r.random() < 0.5 else sorted(set(u))
            if r.random() < 0.3:
                o["usekind"] = r.choice(["list", "tuple", "dup"])
    if obs:
        types = sp["types"] if fmt == "obs2" else sorted({t for v in sp["types"].values() for t in v})
        if r.random() < 0.5:
            m = r.sample(types, min(len(types), r.randrange(1, 4)))
            if r.random() < 0.3:
                m = [x[: r.choice([1, 2])] for x in m]
            if r.random() < 0.1:
                m.append("Z9")
            o["meas"] = m[0] if r.random() < 0.2 else m
            if r.random() < 0.2:
                o["measkind"] = "tuple"
        if r.random() < 0.4:
            o["useindicators"] = True
        if r.random() < 0.4:
            o["fast"] = False
        if r.random() < 0.45:
            d = [b - a for a, b in zip(ts, ts[1:])] or [30_000_000]
            step = min(d)
            o["interval"] = max(0, r.choice([step, step, 2 * step, 3 * step, step * 3 // 2, step // 2, 1_000_000, 0]))
            o["intkind"] = r.choice(["td", "int", "float"])
    return o


class C06:
    known = "nav2-tlim-nonmonotonic"

    @classmethod
    def pinned(cls):
        sp = gen.gen(random.Random(6), "nav2", simple=True, nrec=1)
        sp["sys"] = "G"
        n = len(gen.NAV2_FIELDS["G"])
        t0 = gen.us(datetime(2018, 7, 29, 0, 0, 0))
        val = lambda k: [[1000000000000 + k * 1000 + i, 0] for i in range(n)]  # noqa: E731
        sp["recs"] = [
            {"t": t0, "sv": "G01", "v": val(1)},
            {"t": t0 + 7200_000000, "sv": "G01", "v": val(2)},
            {"t": t0, "sv": "G02", "v": val(3)},
        ]
        sp.pop("iono", None)
        return {"spec": sp, "opts": {"tlim": [t0, t0 + 60_000000]}, "plan": {}, "src": "path", "name": "site1230.18n"}

    @classmethod
    def gen(cls, r, task):
        if task.get("index") == 0:
            return cls.pinned()
        fmt = r.choice(["obs2", "obs2", "obs2", "obs3", "obs3", "obs3", "nav2", "nav3"])
        kw = {"long": True}
        if fmt in ("obs2", "obs3"):
            kw["nep"] = r.choice([1, 2, 3, 5, 8, 12, 16])
        if fmt == "nav2":
            kw["monotonic"] = r.random() < 0.9 or None
        sp = gen.gen(r, fmt, **kw)
        s = {"spec": sp, "opts": gen_opts(r, sp), "plan": gen_plan(r), "src": r.choice(["path", "path", "str", "io"]), "name": fname(r, sp)}
        if r.random() < 0.2:
            s["opts"]["via"] = entries(fmt)[0] if "tlim" in s["opts"] else r.choice(entries(fmt))
        return s

    @classmethod
    def run(cls, R, s):
        sp, o, plan = s["spec"], s["opts"], s["plan"]
        fmt = sp["fmt"]
        data, recs = gen.render(sp)
        path = os.path.join(R.dir("in"), s["name"])
        put(path, data)
        ds, exc = R.under(plan, lambda: call("load", source(s["src"], path, data), o))
        if exc is not None and is_fast_refusal(exc):
            n = sum(model.keep_epochs([x["t"] for x in records(sp)], o.get("tlim"), o.get("interval")))
            if fast_refusal_ok(sp, len(data), n):
                R.count["fast_refusals"] += 1
                o = {**o, "fast": False}
                ds, exc = R.under(plan, lambda: call("load", source(s["src"], path, data), o))
        R.sig.append((fmt, sp.get("ver"), s["src"], sorted(o), type(exc).__name__))
        if exc is not None:
            u = model.use_set(o.get("use"))
            if isinstance(exc, KeyError) and u and fmt == "obs3" and not u & set(sp["types"]):
                R.count["absent_system_refused"] += 1
                return
            raise Viol("load-raised", f"load with {o} refused: {type(exc).__name__}: {exc}")
        e = model.expect(sp, recs, None, o)
        d = model.compare(ds, fmt, e)
        if d and fmt == "nav2" and o.get("tlim") and cls.known in R.known:
            if model.compare(ds, fmt, model.expect(sp, recs, None, o, breaktlim=True)) is None:
                R.knownhits.append(cls.known)
                d = None
        if d:
            raise Viol("data", f"with {o}: {d}")
        R.count["values_checked"] += len(e.req)
        R.nontrivial = bool(o) and len(e.req) > 0
        R.note(csum(canon(ds)))


# --------------------------------------------------------------------------
class C14:
    @classmethod
    def gen(cls, r, task):
        fmt = r.choice(["obs2", "obs3", "nav2", "nav3"])
        sp = gen.gen(r, fmt, long=True)
        disorder = fmt.startswith("obs") and len(sp["epochs"]) > 1 and r.random() < 0.12
        if disorder:  # files put together out of several: epochs out of order, or twice
            e = sp["epochs"]
            sp.setdefault("t0", e[0]["t"])
            if r.random() < 0.7:
                e.insert(r.randrange(len(e) + 1), copy.deepcopy(r.choice(e)))
            if r.random() < 0.7:
                k = r.randrange(1, len(e))
                sp["epochs"] = e[k:] + e[:k]
        s = {"spec": sp, "plan": gen_plan(r), "name": fname(r, sp), "src": r.choice(["path", "path", "str", "io"]), "mode": r.choice(["plain", "plain", "cut", "eio"])}
        if s["mode"] == "eio" and s["src"] == "io":
            s["src"] = "path"
        if r.random() < 0.25:
            s["via"] = {"time": f"{fmt[:3]}time{fmt[3]}"}
        if r.random() < 0.25:
            s.setdefault("via", {})["header"] = f"{fmt[:3]}header{fmt[3]}"
        if s["mode"] == "cut":
            s["cut"] = gen_cut(r, sp)
        elif s["mode"] == "eio":
            s["eop"] = r.choice(["time", "time", "header", "info"])
            s["eio"] = [r.random(), False]
            s["plan"]["bufsize"] = r.choice([64, 128, 333])
            if r.random() < 0.6:
                s["eioln"] = gen_eio_line(r)
                s["plan"]["bufsize"] = r.choice([16, 32, 64, 81])
        elif s["src"] != "io" and r.random() < 0.35:
            s["form"] = {"c": r.choice(["gz", "bz2", "zip", "Z", None]), "crx": not disorder and crx_able(sp) and r.random() < 0.6, "members": 1, "naming": "suffix", "sfx": 0}
        return s

    @staticmethod
    def truth(sp, n=None):
        """epochs of the records, to the millisecond (rounded down)"""
        ts = [x["t"] for x in records(sp)[:n]]
        if sp["fmt"] in ("nav2", "nav3"):
            ts = sorted(set(ts))
        return [t // 1000 for t in ts]

    @classmethod
    def run(cls, R, s):
        sp, plan = s["spec"], s["plan"]
        fmt = sp["fmt"]
        data, recs = gen.render(sp)
        cut = cut_at(s.get("cut"), data, recs)
        if cut is not None:
            data = data[:cut]
            R.fired["truncated_file"] += 1
        name = s["name"]
        blob = data
        crx = False
        if s.get("form"):
            f = s["form"]
            body = data
            if f.get("crx") and crx_able(sp):
                c = to_crx(sp, data)
                if c is not None:
                    body, crx = c, True
                    name = name[:-1] + "d" if fmt == "obs2" else name[:-4] + ".crx"
            blob = pack(body, f, name)
            if f.get("c"):
                name += SUFFIX[f["c"]][0]
        path = os.path.join(R.dir("in"), name)
        put(path, blob)
        src = lambda: source(s["src"], path, data)  # noqa: E731
        via = s.get("via")
        top = lambda: call(s.get("eop", "time"), src(), via)  # noqa: E731
        if s["mode"] == "eio":
            w = R.world({**plan, "eio": {**eio_offset(data, s["eioln"]), "sticky": False}} if s.get("eioln") else plan)
            R.under(plan, top, w)
            plan = {**plan, "eio": eio_offset(data, s["eioln"], w.eio_hits) if s.get("eioln") else {"at": 1 + int(s["eio"][0] * w.reads)}}
        t, exc = R.under(plan, top)
        R.sig.append((fmt, sp.get("ver"), s["mode"], s["src"], str((s.get("form") or {}).get("c")), crx, type(exc).__name__))
        if s["mode"] == "eio":
            if R.w.fired.get("read:EIO"):
                R.nontrivial = True
                if exc is None:
                    raise Viol("partial-after-eio", f"a read failed with an I/O error, yet the {s.get('eop', 'time')} operation returned {str(t)[:80]}")
            return
        want = cls.truth(sp)
        if cut is None:
            if exc is not None:
                raise Viol("time-raised", f"time listing of an intact file: {type(exc).__name__}: {exc}")
            got = cls.ms(t)
            if got != want:
                raise Viol("times", cls.diff(got, want))
        else:
            if exc is None:
                got = cls.ms(t)
                whole = whole_records(recs, cut)
                cls.check_cut(got, sp, whole, fmt)
            elif at_boundary(recs, cut, len(data)) and whole_records(recs, cut):
                raise Viol("time-raised", f"time listing of a file ending between two records: {type(exc).__name__}: {exc}")
        R.nontrivial = True
        if cut is not None and cut < recs[0]["hend"]:
            return
        # ---- header
        h, hexc = R.under(s["plan"], lambda: call("header", src(), via))
        if hexc is not None:
            raise Viol("header-raised", f"header of a readable file: {type(hexc).__name__}: {hexc}")
        cls.header(h, sp, crx)
        i, iexc = R.under(s["plan"], lambda: call("info", src()))
        if iexc is not None:
            raise Viol("header-raised", f"type detection of a readable file: {type(iexc).__name__}: {iexc}")
        if i.get("rinextype") != fmt[:3] or (not crx and float(i.get("version")) != float(sp["ver"])):
            raise Viol("header", f"type detection gives {i}")
        # ---- agreement with the data
        ds, lexc = R.under(s["plan"], lambda: call("load", src(), {"fast": False} if fmt == "obs2" else {}))
        if lexc is None and exc is None:
            dt = [x // 1000 for x in model.dataset_values(ds, fmt)[1]["time"]] if ds["time"].size else []
            x = sorted(set(dt) - set(cls.ms(t)))
            if x:
                raise Viol("times", f"epochs of the load are not in the time listing: {[str(gen.dt(i * 1000)) for i in x[:3]]}")
        R.note(csum(canon(t)) if exc is None else None, csum(canon(h)))

    @staticmethod
    def ms(t):
        a = np.asarray(t)
        if a.size == 0:
            return []
        if a.dtype.kind != "M":
            raise Viol("times", f"time listing has dtype {a.dtype}")
        return a.astype("datetime64[us]").astype("int64").ravel().tolist() and [x // 1000 for x in a.astype("datetime64[us]").astype("int64").ravel().tolist()]

    @staticmethod
    def diff(got, want):
        x = [f"{gen.dt(i * 1000)}" for i in want if i not in set(got)][:3]
        y = [f"{gen.dt(i * 1000)}" for i in got if i not in set(want)][:3]
        if x or y:
            return f"time listing: missing {x}, not in the file {y}"
        return f"time listing: {len(got)} entries in another order or number than the {len(want)} of the file"

    @classmethod
    def check_cut(cls, got, sp, whole, fmt):
        recs = [x["t"] // 1000 for x in records(sp)]
        have = [recs[i] for i in whole]
        if fmt in ("obs2", "obs3"):
            if got[: len(have)] != have or len(got) > len(have) + 1:
                raise Viol("times", "cut file: " + cls.diff(got, have))
        else:
            h = sorted(set(have))
            extra = [x for x in got if x not in set(h)]
            if got != sorted(set(got)) or [x for x in h if x not in set(got)] or len(extra) > 1:
                raise Viol("times", "cut file: " + cls.diff(got, h))

    @staticmethod
    def header(h, sp, crx):
        fmt = sp["fmt"]

        def need(what, got, want):
            if got != want:
                raise Viol("header", f"header {what}: file says {want!r}, header reading gives {got!r}")

        need("type", h.get("rinextype"), fmt[:3])
        if not crx:
            need("version", float(h.get("version")), float(sp["ver"]))
        if fmt in ("obs2", "obs3"):
            need("system", h.get("systems"), sp["sys"])
            need("fields", h.get("fields") if fmt == "obs2" else {k: list(v) for k, v in h.get("fields").items()}, sp["types"])
            if sp.get("pos"):
                need("position", [float(x) for x in h.get("position", [])], [float(f"{p / 1000:14.4f}") for p in sp["pos"]])
            else:
                need("position", h.get("position"), None)
            need("interval", h.get("interval"), float(sp["interval"]) if sp.get("interval") else None)
            t0 = sp.get("t0", sp["epochs"][0]["t"] if sp["epochs"] else None)
            if t0 is not None:
                need("first observation", h.get("t0"), gen.dt(t0))
        else:
            need("system", h.get("systems"), sp["sys"])
            io_ = sp.get("iono") or {}
            if fmt == "nav3" and io_:
                need("ionospheric", {k: [float(x) for x in v] for k, v in h.get("IONOSPHERIC CORR", {}).items()}, {k: [float(x.replace("D", "E")) for x in v] for k, v in io_.items()})
            if fmt == "nav3" and sp.get("tcorr"):
                need("time system corrections", {k: [float(x) for x in v] for k, v in h.get("TIME SYSTEM CORR", {}).items()}, {k: [*(float(x.replace("D", "E")) for x in v[:2]), *(float(x) for x in v[2:4])] for k, v in sp["tcorr"].items()})
