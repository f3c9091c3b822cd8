"""Candidates for a smaller failing scenario (explicit JSON in, explicit JSON out)."""
from __future__ import annotations
import copy


def cp(x):
    return copy.deepcopy(x)


def specs(scn):
    """(path getter) of every spec in the scenario"""
    out = []
    if isinstance(scn.get("spec"), dict):
        out.append(lambda s: s["spec"])
    for i, f in enumerate(scn.get("files") or []):
        if isinstance(f.get("spec"), dict):
            out.append(lambda s, i=i: s["files"][i]["spec"])
    return out


def chunks(n):
    """index sets to drop: halves, quarters, ..., singles"""
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield a, min(n, a + size)
        if size == 1:
            break
        size //= 2


def candidates(scn):
    # schedules
    ab = (scn.get("sched") or {}).get("abs")
    if ab:
        for a, b in chunks(len(ab)):
            c = cp(scn)
            del c["sched"]["abs"][a:b]
            yield c
    # lists of operations, files, threads
    for key, least in (("ops", 1), ("files", 1), ("threads", 1), ("hist", 0), ("faults", 1), ("below", 0)):
        v = scn.get(key)
        if isinstance(v, list) and len(v) > least:
            for a, b in chunks(len(v)):
                if len(v) - (b - a) < least:
                    continue
                c = cp(scn)
                del c[key][a:b]
                yield c
    # options, plan
    for key in ("opts", "plan"):
        for k in sorted(scn.get(key) or {}):
            c = cp(scn)
            del c[key][k]
            yield c
    for k in ("form",):
        if isinstance(scn.get(k), dict):
            for q, dflt in (("crx", False), ("members", 1), ("dir", False), ("stored", False), ("naming", "suffix"), ("sfx", 0)):
                if scn[k].get(q, dflt) != dflt:
                    c = cp(scn)
                    c[k][q] = dflt
                    yield c
    # contents of files
    for g in specs(scn):
        sp = g(scn)
        key = "epochs" if "epochs" in sp else "recs"
        n = len(sp[key])
        if n > 1:
            for a, b in chunks(n):
                if b - a < n:
                    c = cp(scn)
                    del g(c)[key][a:b]
                    yield c
        if sp["fmt"] in ("obs2", "obs3"):
            svs = sorted({o[0] for e in sp["epochs"] for o in e["o"]})
            if len(svs) > 1:
                for a, b in chunks(len(svs)):
                    drop = set(svs[a:b])
                    c = cp(scn)
                    for e in g(c)["epochs"]:
                        e["o"] = [o for o in e["o"] if o[0] not in drop]
                    yield c
            if sp["fmt"] == "obs2" and len(sp["types"]) > 1:
                for a, b in chunks(len(sp["types"])):
                    if b - a == len(sp["types"]):
                        continue
                    c = cp(scn)
                    del g(c)["types"][a:b]
                    for e in g(c)["epochs"]:
                        for o in e["o"]:
                            del o[1][a:b]
                    yield c
            if sp["fmt"] == "obs3":
                for k in sorted(sp["types"]):
                    ty = sp["types"][k]
                    if len(sp["types"]) > 1 and k not in {o[0][0] for e in sp["epochs"] for o in e["o"]}:
                        c = cp(scn)
                        del g(c)["types"][k]
                        yield c
                    if len(ty) > 1:
                        for a, b in chunks(len(ty)):
                            if b - a == len(ty):
                                continue
                            c = cp(scn)
                            del g(c)["types"][k][a:b]
                            for e in g(c)["epochs"]:
                                for o in e["o"]:
                                    if o[0][0] == k:
                                        del o[1][a:b]
                            yield c
            for i, e in enumerate(sp["epochs"]):
                for k in ("pre", "clk", "flag"):
                    if e.get(k):
                        c = cp(scn)
                        del g(c)["epochs"][i][k]
                        yield c
        if sp["fmt"] == "sp3" and len(sp["svs"]) > 1:
            for a, b in chunks(len(sp["svs"])):
                if b - a == len(sp["svs"]):
                    continue
                c = cp(scn)
                q = g(c)
                del q["svs"][a:b]
                for e in q["epochs"]:
                    del e["p"][a:b]
                    if e["v"]:
                        del e["v"][a:b]
                yield c
        for k, v in sorted(sp["style"].items()):
            if v and k != "exp":
                c = cp(scn)
                g(c)["style"][k] = [] if isinstance(v, list) else (0 if isinstance(v, int) and not isinstance(v, bool) else False)
                yield c
        for k in ("iono", "leap", "rcvclk", "pos", "interval"):
            if sp.get(k) is not None:
                c = cp(scn)
                g(c).pop(k)
                yield c
