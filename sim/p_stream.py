"""C07 text streams under any history, C08 files growing while they are read."""
from __future__ import annotations
import io
import os
import random
from pathlib import Path

import numpy as np

import georinex as gr
import gen
import model
import seam
from p_fidelity import C14, check_attrs, fname, gen_opts
from simlib import (
    Run, Viol, call, canon, crx_able, csum, fast_refusal_ok, first_diff, forked, gen_plan, is_fast_refusal, must,
    outcome, put, records, text_of, to_crx,
)


class C07:
    @classmethod
    def gen(cls, r, task):
        fmt = r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3"])
        sp = gen.gen(r, fmt)
        crx = fmt.startswith("obs") and r.random() < 0.25
        if crx:
            sp["style"].update(sp7=False, blankG=False, lead=0)
            for e in sp["epochs"]:
                e.pop("clk", None)
        ops = []
        for _ in range(r.randrange(2, 9)):
            k = r.choice(["info", "header", "time", "load", "load", "seek", "read", "readline", "iterate", "fail", "other"])
            x: dict = {"k": k}
            if k == "load":
                x["o"] = gen_opts(r, sp) if r.random() < 0.6 else {}
            elif k in ("seek", "read"):
                x["f"] = r.choice([0.0, 1.0, r.random(), r.random()])
            elif k in ("readline", "iterate"):
                x["n"] = r.randrange(1, 30)
            elif k == "fail":
                x["how"] = r.choice(["mem", "mem", "tlim", "interval", "kbd", "kbd", "use"])
                x["at"] = r.random()
                x["op"] = r.choice(["load", "load", "time", "header"])
            elif k == "other":
                x["what"] = r.choice(["garbage", "cut", "cut", "empty", "blank", "sp3", "spec", "spec"])
                x["f"] = r.random()
                x["op"] = r.choice(["load", "load", "time", "header", "info"])
                if x["what"] == "spec":
                    x["spec"] = gen.gen(r, r.choice(["obs2", "obs3", "nav2", "nav3"]), **({"simple": True} if r.random() < 0.5 else {}))
            ops.append(x)
        kind = "handle" if not crx and r.random() < 0.25 else "io"
        if kind == "handle":
            for x in ops:
                if x["k"] in ("load", "time", "fail", "other"):
                    x.clear()
                    x["k"] = r.choice(["info", "header"])
        return {"spec": sp, "crx": crx, "ops": ops, "kind": kind, "plan": gen_plan(r), "name": fname(r, sp)}

    @classmethod
    def run(cls, R, s):
        sp = s["spec"]
        fmt = sp["fmt"]
        data, recs = gen.render(sp)
        crx = False
        if s["crx"] and crx_able(sp):
            c = to_crx(sp, data)
            if c is not None:
                data, crx = c, True
        text = text_of(data)
        plan = dict(s["plan"])
        plan.pop("poison", None)
        path = os.path.join(R.dir("in"), s["name"])
        put(path, data)

        # answers of fresh streams, in a process of their own
        asked = sorted({("load", repr(sorted((x.get("o") or {}).items()))) if x["k"] == "load" else (x["k"], "") for x in s["ops"] if x["k"] in ("info", "header", "time", "load")})
        opts = {repr(sorted((x.get("o") or {}).items())): x.get("o") or {} for x in s["ops"] if x["k"] == "load"}

        def stream():
            if s["kind"] == "io":
                return io.StringIO(text)
            return open(path, "r", encoding="ascii", errors="ignore")

        def fresh():
            out = {}
            for k, o in asked:
                f = stream()
                val, exc = R.under(plan, lambda: call(k, f, opts.get(o)))
                out[k + o] = outcome(val, exc)
                f.close()
            return out

        ref = must(forked(fresh), "operation on a fresh stream")
        w0 = R.world(plan)
        with w0:
            f = stream()
        R.absorb(w0)
        size = len(text) if s["kind"] == "io" else len(data)
        hist = []
        for x in s["ops"]:
            k = x["k"]
            hist.append(k if k != "fail" else f"fail({x['how']})")
            if k == "seek":
                f.seek(int(x["f"] * size))
                continue
            if k == "read":
                f.read(int(x["f"] * 400))
                continue
            if k == "readline":
                for _ in range(x["n"]):
                    f.readline()
                continue
            if k == "iterate":
                for _, _ln in zip(range(x["n"]), f):
                    pass
                continue
            if k == "other":
                cls.other(R, x, f, plan, text)
            elif k == "fail":
                cls.fail(R, x, f, plan, sp)
            else:
                o = x.get("o") or {}
                key = k + (repr(sorted(o.items())) if k == "load" else "")
                val, exc = R.under(plan, lambda: call(k, f, o))
                d = first_diff(ref[key], outcome(val, exc))
                if d:
                    raise Viol("history", f"{k} {o or ''} after {hist[:-1]} differs from one on a fresh stream: {d}" + (f" ({type(exc).__name__}: {exc})" if exc else ""))
                if k == "load" and not o and exc is None and not crx:
                    e = model.expect(sp, recs, None, {})
                    d = model.compare(val, fmt, e)
                    if d:
                        raise Viol("data", d)
                R.sig.append((fmt, crx, s["kind"], k, hist[-2] if len(hist) > 1 else "-", type(exc).__name__))
            if f.closed:
                raise Viol("closed", f"the caller's stream was closed by {hist[-1]} ({hist})")
            if s["kind"] == "io" and f.getvalue() != text:
                raise Viol("text", f"the text of the caller's stream was changed by {hist[-1]}")
        R.nontrivial = len(hist) > 1
        f.close()
        R.note(csum(ref))

    @staticmethod
    def other(R, x, f, plan, text):
        """for a while, the caller's stream holds another text: not valid, cut, or another file"""
        w = x["what"]
        if w == "garbage":
            t = "this is not RINEX at all 2.11" + " " * int(x["f"] * 100) + "\n" + text[:500][::-1]
        elif w == "cut":
            t = text[: int(x["f"] * len(text))]
        elif w == "sp3":
            t = "#cP2019  2 15  0  0  0.00000000       1 ORBIT IGS14 HLM  SIM\n" * 3
        elif w == "spec":
            t = text_of(gen.render(x["spec"])[0])
        else:
            t = "" if w == "empty" else "\n" * int(1 + x["f"] * 20)

        def fresh():
            return outcome(*R.under(plan, lambda: call(x["op"], io.StringIO(t), {})))

        want = must(forked(fresh), "operation on a fresh stream")
        f.seek(0)
        f.truncate()
        f.write(t)
        f.seek(int(x["f"] * len(t)))
        val, exc = R.under(plan, lambda: call(x["op"], f, {}))
        R.fired["text_replaced"] += 1
        if f.closed:
            raise Viol("closed", f"the caller's stream was closed by {x['op']} of a text that is {w}")
        if f.getvalue() != t:
            raise Viol("text", f"the text of the caller's stream was changed by {x['op']} of a text that is {w}")
        d = first_diff(want, outcome(val, exc))
        if d:
            raise Viol("history", f"{x['op']} of a stream given another text ({w}) differs from one on a fresh stream: {d}")
        f.seek(0)
        f.truncate()
        f.write(text)

    @staticmethod
    def fail(R, x, f, plan, sp):
        how = x["how"]
        p = dict(plan)
        o = {}
        op = x["op"]
        if how == "tlim":
            op, o = "load", {"tlim": [10**15 + 5, 10**15]}
        elif how == "interval":
            op, o = "load", {"interval": -1_000_000, "intkind": "int"}
        elif how == "use":
            op, o = "load", {"use": ["Q"]}
        elif how in ("mem", "kbd"):

            def dry():
                w = R.world({**plan, "countlines": True})
                R.under(None, lambda: call(op, f, o), w)
                return {"a": w.allocs, "l": w.line_at(x["at"])}

            pos = f.tell()
            n = must(forked(dry), "operation to be failed")
            f.seek(pos)
            if how == "mem":
                if not n["a"]:
                    return
                p["memerr"] = 1 + int(x["at"] * n["a"])
            else:
                p["kbd"] = n["l"]
        _v, exc = R.under(p, lambda: call(op, f, o))
        if exc is not None:
            R.fired[f"failed_operation:{how}"] += 1


class C08:
    @classmethod
    def gen(cls, r, task):
        fmt = r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3"])
        if fmt in ("obs2", "obs3"):
            sp = gen.gen(r, fmt, nep=r.choice([2, 3, 5, 8, 12]))
        elif fmt == "sp3":
            sp = gen.gen(r, fmt, nep=r.choice([2, 3, 5]))
            sp["style"]["noeof"] = True
        else:
            sp = gen.gen(r, fmt, nrec=r.choice([3, 5, 8, 12]))
        sp["style"]["nofinalnl"] = False
        n = len(records(sp))
        k = r.randrange(1, n + 1) if n else 1
        grow = []
        left = k
        while left < n and len(grow) < 6:
            m = r.randrange(1, n - left + 1)
            grow.append({"on": r.choice(["read", "line", "line"]), "f": r.random(), "to": left + m})
            left += m
        s = {"spec": sp, "have": k, "grow": grow, "plan": gen_plan(r), "name": fname(r, sp), "op": r.choice(["load", "load", "load", "time"]) if fmt != "sp3" else "load", "opts": {}}
        s["plan"]["bufsize"] = r.choice([64, 128, 333, 1024, 8192])
        if fmt in ("obs2", "obs3"):
            if r.random() < 0.3:
                s["opts"]["useindicators"] = True
            if r.random() < 0.5:
                s["opts"]["fast"] = False
        return s

    @classmethod
    def run(cls, R, s):
        sp, o = s["spec"], s["opts"]
        fmt = sp["fmt"]
        data, recs = gen.render(sp)
        n = len(recs) - 1
        have = min(s["have"], n)
        pos = lambda i: recs[min(i, n)]["end"] if i > 0 else recs[0]["hend"]  # noqa: E731
        path = os.path.join(R.dir("in"), s["name"])
        start = pos(have)
        put(path, data[:start])
        op = s["op"]
        plan = dict(s["plan"])
        dopath = lambda: call(op, Path(path), o if op == "load" else {})  # noqa: E731

        def dry():
            w = R.world({**plan, "countlines": True})
            R.under(None, dopath, w)
            return {"read": w.reads, "line": w.lines}

        cnt = must(forked(dry), "load of the file at rest")
        g = []
        at = start
        frs = sorted(x["f"] for x in s["grow"])
        for x, fr in zip(s["grow"], frs):
            b = pos(x["to"])
            if b <= at:
                continue
            g.append({"on": x["on"], "at": 1 + int(fr * cnt[x["on"]]), "path": path, "data": data[at:b]})
            at = b
        w = R.world({**plan, "grow": g})
        val, exc = R.under(None, dopath, w)
        R.sig.append((fmt, op, sorted(o), tuple((x["on"], bool(x.get("done"))) for x in g), type(exc).__name__))
        if any(x.get("done") for x in g):
            R.nontrivial = True
        final = start + sum(len(x["data"]) for x in g if x.get("done"))
        if exc is not None:
            if not isinstance(exc, Exception):
                raise Viol("load-raised", f"{type(exc).__name__}: {exc}")
            if op == "load" and fmt == "obs2" and final > start:
                R.count["refused_grown_file"] += 1
                return
            if is_fast_refusal(exc) and fast_refusal_ok(sp, start, have):
                return
            raise Viol("load-raised", f"{op} of a file {'being written' if final > start else 'at rest'} refused: {type(exc).__name__}: {exc}")
        if op == "time":
            got = C14.ms(val)
            req, full = C14.truth(sp, have), C14.truth(sp, cls.nrec(recs, final))
            if fmt in ("obs2", "obs3"):
                if got != full[: len(got)] or len(got) < len(req):
                    raise Viol("times", "file being written: " + C14.diff(got, full if len(got) > len(full) else req))
            else:
                if got not in [C14.truth(sp, j) for j in range(have, cls.nrec(recs, final) + 1)]:
                    raise Viol("times", "file being written: " + C14.diff(got, full))
            return
        e = model.expect(sp, recs, start, o)
        e2 = model.expect(sp, recs, final, o)
        for k, v in e2.req.items():
            if k not in e.req:
                e.opt[k] = v
        e.opt.update({k: v for k, v in e2.opt.items() if k not in e.req})
        e.wild |= e2.wild
        e.tol.update(e2.tol)
        e.vars, e.times, e.svs = e2.vars, e2.times, e2.svs
        d = model.compare(val, fmt, e)
        if d:
            raise Viol("data", f"file of {have} records, {cls.nrec(recs, final)} at the end of the load: {d}")
        # the file had whole records at every moment: what was loaded is what it held at one of them
        # (RINEX 2 observations are read once per satellite system, each system at its own moment)
        if fmt == "obs2":
            got, facts = model.dataset_values(val, fmt)
            part: dict = {}
            for k, x in got.items():
                part.setdefault(k[2][0], {})[k] = x
            states = [model.expect(sp, recs, pos(j), o) for j in range(have, cls.nrec(recs, final) + 1)]
            for u, g in sorted(part.items()):
                if not any(g.keys() >= {k for k in q.req if k[2][0] == u} and all(k in q.req or k in q.opt or k in q.wild for k in g) for q in states):
                    raise Viol("data", f"file of {have} records, {cls.nrec(recs, final)} at the end of the load; satellite system {u} is as in none of the states between")
            empty = set(facts["time"]) - {k[1] for k in got}
            if empty:
                raise Viol("data", f"file being written: epochs without any value {sorted(str(gen.dt(t)) for t in empty)[:3]}")
            R.note(csum(canon(val)))
            return
        last = None
        for j in range(cls.nrec(recs, final), have - 1, -1):
            d = model.compare(val, fmt, model.expect(sp, recs, pos(j), o))
            if d is None:
                break
            last = last or d
        else:
            raise Viol("data", f"file of {have} records, {cls.nrec(recs, final)} at the end of the load; the result is none of the states between: {last}")
        R.count["values_checked"] += len(e.req)
        R.note(csum(canon(val)))

    @staticmethod
    def nrec(recs, size):
        return sum(q["end"] <= size for q in recs[1:])
