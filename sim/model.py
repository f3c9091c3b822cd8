"""Reference model: what a load of a generated file must return.

Works on the spec (the truth) only.  An expectation is
    req   {(var, time_us, sv): value}   must be present and equal
    opt   {(var, time_us, sv): value}   may be present, then equal
    wild  {(var, time_us, sv)}          cut through: anything or absent
    vars  set of variable names that may exist (None: unchecked)
"""
from __future__ import annotations
import math
import numpy as np

import gen

INF = 1 << 60


class Exp:
    def __init__(self):
        self.req = {}
        self.opt = {}
        self.wild = set()
        self.vars = None
        self.times = None  # allowed time stamps (None: unchecked)
        self.tol = {}
        self.svs = None

    def add(self, key, val, required: bool):
        (self.req if required else self.opt)[key] = val


def msel(field: str, meas) -> bool:
    if not meas:
        return True
    if isinstance(meas, str):
        meas = [meas]
    if not meas[0].strip():
        return True
    return any(field.startswith(m) for m in meas)


def keep_epochs(ts: list[int], tlim, interval) -> list[bool]:
    """time window and decimation: grid anchored at the first epoch in window"""
    out = []
    last = None
    for t in ts:
        if tlim is not None and not (tlim[0] <= t <= tlim[1]):
            out.append(False)
            continue
        if interval is not None:
            if last is None:
                last = t
            elif t - last < interval:
                out.append(False)
                continue
            else:
                last += interval
        out.append(True)
    return out


def ecef(lat: float, lon: float, alt: float) -> list:
    """WGS84 geodetic to Cartesian"""
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    p, q = math.radians(lat), math.radians(lon)
    n = a / math.sqrt(1 - e2 * math.sin(p) ** 2)
    return [(n + alt) * math.cos(p) * math.cos(q), (n + alt) * math.cos(p) * math.sin(q), (n * (1 - e2) + alt) * math.sin(p)]


def use_set(use):
    if not use:
        return None
    return {use} if isinstance(use, str) else set(use)


def exp_obs(sp: dict, recs: list, cut: int | None, opts: dict) -> Exp:
    """opts: use, meas, tlim (us), interval (us), useindicators"""
    v3 = sp["fmt"] == "obs3"
    cut = INF if cut is None else cut
    e = Exp()
    use = use_set(opts.get("use"))
    meas = opts.get("meas")
    ind = bool(opts.get("useindicators"))
    eps = sp["epochs"]
    ts = [x["t"] for x in eps]
    keep = keep_epochs(ts, opts.get("tlim"), opts.get("interval"))

    def lli_ok(f):
        return f.startswith("L")

    def ssi_ok(f):
        return v3 or not f.startswith("S")

    names = set()
    for k, ty in sp["types"].items() if v3 else [("", sp["types"])]:
        if v3 and use is not None and k not in use:
            continue
        for f in ty:
            if msel(f, meas):
                names.add(f)
                if ind:
                    if lli_ok(f):
                        names.add(f + "lli")
                    if ssi_ok(f):
                        names.add(f + "ssi")
    if cut > recs[0]["hend"]:
        e.vars = names
    e.times = set()
    e.svs = set()
    for ep, rec, kp in zip(eps, recs[1:], keep):
        if not kp:
            continue
        if rec["start"] < cut:
            e.times.add(ep["t"])
        whole = rec["cend"] <= cut
        k = 0
        for sv, vals in ep["o"]:
            ty = sp["types"][sv[0]] if v3 else sp["types"]
            for j, (v, l, q) in enumerate(vals):
                ssv, jj, a = rec["spans"][k]
                k += 1
                assert ssv == sv and jj == j
                if use is not None and sv[0] not in use:
                    continue
                f = ty[j]
                e.svs.add(sv)
                if not msel(f, meas):
                    continue
                if v is not None:
                    if a + 14 <= cut:
                        e.add((f, ep["t"], sv), float(gen.f14_3(v)), whole)
                    elif a < cut:
                        e.wild.add((f, ep["t"], sv))
                if ind:
                    if l is not None and lli_ok(f) and a + 15 <= cut:
                        e.add((f + "lli", ep["t"], sv), float(l), whole)
                    if q is not None and ssi_ok(f) and a + 16 <= cut:
                        e.add((f + "ssi", ep["t"], sv), float(q), whole)
    return e


def exp_nav(sp: dict, recs: list, cut: int | None, opts: dict, breaktlim: bool = False) -> Exp:
    v3 = sp["fmt"] == "nav3"
    cut = INF if cut is None else cut
    e = Exp()
    tl = opts.get("tlim")
    use = use_set(opts.get("use"))
    copies: dict = {}
    e.vars = set()
    e.times = set()
    e.svs = set()
    if not v3:  # one system: its parameters, whatever is selected
        e.vars = set(gen.NAV2_FIELDS[sp["sys"]])
    for r, rec in zip(sp["recs"], recs[1:]):
        sv = r["sv"]
        F = gen.nav_fields(sp, sv, r)
        if rec["start"] >= cut:
            break
        if tl is not None and not (tl[0] <= r["t"] <= tl[1]):
            if breaktlim and r["t"] > tl[1]:
                break
            continue
        if use is not None and sv[0] not in use:
            continue
        whole = rec["cend"] <= cut
        name = sv
        if v3:
            c = copies.get((sv, r["t"]), 0)
            copies[(sv, r["t"])] = c + 1
            if c:
                name = f"{sv}_{c}"
        e.times.add(r["t"])
        e.svs.add(name)
        e.vars |= set(gen.NAV3_FIELDS[sv[0]]) if v3 else set(F)

        def blank(f):
            if whole:
                e.add((f, r["t"], name), 0.0, False)
            else:
                e.wild.add((f, r["t"], name))

        full = gen.NAV3_FIELDS[sv[0]] if v3 else F
        for f in F[len(r["v"]) :] + [f for f in full if f not in F]:
            blank(f)  # not given (optional trailing fields, omitted spares): zero or missing
        for (ssv, k, a), val in zip(rec["spans"], r["v"]):
            f = F[k]
            key = (f, r["t"], name)
            if val is None:  # left blank: zero or missing
                blank(f)
                continue
            v = gen.navfloat(*val)
            if f in gen.KM and sv[0] in "RS":
                v *= 1000
                e.tol[key] = 1e-12
            if not whole and rec["lastline"] < cut and k >= 20 and sv[0] in "CE" and v3:
                # what is left of the last line may itself be a well-formed shorter layout
                # (spare fields left out), in which later fields have other places
                e.wild.add(key)
            elif a + 19 <= cut:
                e.add(key, v, whole and not f.startswith("spare"))
            else:
                # on a cut line, what is missing may read as the cut number or as blank (zero);
                # lines not delivered at all give nothing
                if rec["lastline"] < cut:
                    e.wild.add(key)
    if v3 and cut >= recs[0]["hend"]:
        # a satellite known by records of different systems never shares parameters: vars is the union
        pass
    return e


def exp_sp3(sp: dict, recs: list, cut: int | None, opts: dict) -> Exp:
    cut = INF if cut is None else cut
    e = Exp()
    vn = ["position.x", "position.y", "position.z", "clock", "velocity.x", "velocity.y", "velocity.z", "dclock"]
    e.vars = set(vn)
    e.times = set()
    e.svs = set(sp["svs"])
    for ep, rec in zip(sp["epochs"], recs[1:]):
        if rec["start"] < cut:
            e.times.add(ep["t"])
        whole = rec["cend"] <= cut
        idx = {s: i for i, s in enumerate(sp["svs"])}
        for sv, k, a in rec["spans"]:
            i = idx[sv]
            val = ep["p"][i][k] if k < 4 else ep["v"][i][k - 4]
            key = (vn[k], ep["t"], sv)
            if a + 14 <= cut:
                e.add(key, val / 1e6 if False else float(f"{'-' if val < 0 else ''}{abs(val) // 1000000}.{abs(val) % 1000000:06d}"), whole)
            elif a < cut:
                e.wild.add(key)
    return e


def expect(sp, recs, cut=None, opts=None, **kw) -> Exp:
    opts = opts or {}
    f = {"obs2": exp_obs, "obs3": exp_obs, "nav2": exp_nav, "nav3": exp_nav, "sp3": exp_sp3}[sp["fmt"]]
    return f(sp, recs, cut, opts, **kw)


# --------------------------------------------------------------------------
def dataset_values(ds, fmt: str) -> tuple[dict, dict]:
    """{(var, time_us, sv): value} of all non-missing values, and coordinate facts"""
    facts = {}
    t = np.asarray(ds["time"].values)
    if t.size == 0:
        tl = []
    else:
        if t.dtype.kind != "M":
            raise AssertionError(f"time coordinate has dtype {t.dtype}")
        if np.isnat(t).any():
            raise AssertionError("time coordinate has NaT")
        tl = t.astype("datetime64[us]").astype("int64").tolist()
    svl = [str(s) for s in np.asarray(ds["sv"].values).tolist()]
    facts["time"] = tl
    facts["sv"] = svl
    out = {}
    names = []
    for k in ds.data_vars:
        v = ds[k]
        if fmt == "sp3" and k == "t0":
            continue
        d = v.dims
        if set(d) == {"time", "sv"}:
            a = np.asarray(v.transpose("time", "sv").values)
            names.append(str(k))
            _collect(out, str(k), a, tl, svl)
        elif set(d) == {"time", "sv", "ECEF"}:
            a = np.asarray(v.transpose("time", "sv", "ECEF").values)
            for i, c in enumerate(ds["ECEF"].values.tolist()):
                names.append(f"{k}.{c}")
                _collect(out, f"{k}.{c}", a[:, :, i], tl, svl)
        else:
            raise AssertionError(f"variable {k} has dimensions {d}")
    facts["vars"] = names
    return out, facts


def _collect(out, name, a, tl, svl):
    a = a.astype(float)
    ii, jj = np.nonzero(~np.isnan(a))
    for i, j in zip(ii.tolist(), jj.tolist()):
        out[(name, tl[i], svl[j])] = float(a[i, j])


def same(a: float, b: float, tol: float) -> bool:
    if a == b:
        return True
    return tol > 0 and math.isclose(a, b, rel_tol=tol, abs_tol=0)


def compare(ds, fmt: str, e: Exp, torn: bool = False) -> str | None:
    """None, or the first difference in a fixed order"""
    try:
        got, facts = dataset_values(ds, fmt)
    except AssertionError as x:
        return f"malformed dataset: {x}"
    if len(set(facts["time"])) != len(facts["time"]):
        return "repeated epochs in the time coordinate"
    if len(set(facts["sv"])) != len(facts["sv"]):
        return "repeated satellites in the sv coordinate"
    for k in sorted(e.req):
        if k not in got:
            if k in e.wild:
                continue
            return f"lost value {k}: file says {e.req[k]!r}, result has none"
        if not same(got[k], e.req[k], e.tol.get(k, 0)):
            return f"wrong value {k}: file says {e.req[k]!r}, result {got[k]!r}"
    for k in sorted(got):
        if k in e.req or k in e.wild:
            continue
        if k not in e.opt:
            return f"invented value {k}: {got[k]!r} is nowhere in what was delivered"
        if not same(got[k], e.opt[k], e.tol.get(k, 0)):
            return f"wrong value {k}: file says {e.opt[k]!r}, result {got[k]!r}"
    if e.vars is not None and not torn:
        x = sorted(set(facts["vars"]) - e.vars)
        if x:
            return f"unexpected variables {x}"
    if e.times is not None and not torn:
        x = sorted(set(facts["time"]) - e.times)
        if x:
            return f"unexpected epochs {[str(gen.dt(i)) for i in x[:3]]}"
    if e.svs is not None and not torn:
        x = sorted(set(facts["sv"]) - e.svs)
        if x:
            return f"unexpected satellites {x}"
    return None
