"""C01 independence of the environment, C13 failures leave no trace."""
from __future__ import annotations
import ctypes
import io
import json
import os
import random
import time
from pathlib import Path

import gen
import model
import seam
from p_fidelity import fname, gen_opts
from simlib import (
    SUFFIX, Run, Viol, call, canon, crx_able, csum, eio_offset, first_diff, forked, gen_eio_line, gen_plan, get, listing, must, nc_state, outcome,
    pack, put, records, short, source, state_diff, text_of, to_crx,
)


def gen_form(r, sp, p=0.3):
    if r.random() > p:
        return None
    return {"c": r.choice(["gz", "bz2", "zip", "Z", None]), "crx": crx_able(sp) and r.random() < 0.5, "members": 1, "naming": r.choice(["suffix", "magic"]), "sfx": 0}


def materialise(f: dict) -> tuple[str, bytes]:
    """(name, bytes) of a generated file in its stored form"""
    sp = f["spec"]
    data, _ = gen.render(sp)
    name = f["name"]
    form = f.get("form")
    if not form:
        return name, data
    body = data
    if form.get("crx") and crx_able(sp):
        c = to_crx(sp, data)
        if c is not None:
            body = c
            name = name[:-1] + "d" if sp["fmt"] == "obs2" else name[:-4] + ".crx"
    blob = pack(body, form, name)
    if form.get("c"):
        name = name + SUFFIX[form["c"]][0] if form["naming"] == "suffix" else name.replace(".", "_") + ".dat"
    return name, blob


class C01:
    TZ = ["UTC0", "EST5EDT", "JST-9"]
    YEAR = 31557600
    CLOCK = [1_735_000_000, 1_735_000_000 + 40 * YEAR, 1_735_000_000 - 24 * YEAR]  # the machine's clock is wrong, or it is another day

    @classmethod
    def gen(cls, r, task):
        fmt = r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "nav3", "sp3"])
        sp = gen.gen(r, fmt)
        ops = r.choice([["load"], ["load"], ["load"], ["time", "load"], ["header"], ["time"], ["info", "header"]])
        if fmt == "sp3":
            ops = ["load"]
        h = []
        for _ in range(r.choice([0, 1, 2])):
            f2 = r.choice([fmt, "obs2", "obs3", "nav2", "nav3", "sp3"])
            s2 = gen.gen(r, f2, nep=2) if f2 in ("obs2", "obs3", "sp3") else gen.gen(r, f2, nrec=3)
            h.append({"spec": s2, "name": fname(r, s2), "op": "load" if f2 == "sp3" else r.choice(["load", "load", "time", "header"]), "fail": r.random() < 0.3, "opts": gen_opts(r, s2) if f2 != "sp3" and r.random() < 0.4 else {}})
        if r.random() < 0.25 and fmt != "sp3":
            p2 = gen.gen(r, fmt, nep=3) if fmt in ("obs2", "obs3") else gen.gen(r, fmt, nrec=3)
            prev = p2
        else:
            prev = None
        return {
            "files": [{"spec": sp, "name": fname(r, sp), "form": gen_form(r, sp)}],
            "ops": ops,
            "opts": gen_opts(r, sp) if fmt != "sp3" and r.random() < 0.6 else {},
            "src": r.choice(["path", "path", "io"]) if fmt != "sp3" else "path",
            "hist": h,
            "prev": prev,
            "plans": [{}, gen_plan(r), {**gen_plan(r), "poison": r.randrange(8), "ram": r.choice([None, None, 10**3, 10**5, 3 * 10**5, 10**7])}],
        }

    @classmethod
    def run(cls, R, s):
        v = R.task.get("variant", 0)
        f = s["files"][0]
        name, blob = materialise(f)
        if s["src"] == "io":
            blob = gen.render(f["spec"])[0]
            name = f["name"]
        plan = s["plans"][v]
        # ---- what happened outside the file before
        os.environ["TZ"] = cls.TZ[v]
        time.tzset()
        ctypes.CDLL(None).simshim_clock(ctypes.c_long(cls.CLOCK[v] - int(time.time())))
        assert abs(time.time() - cls.CLOCK[v]) < 1000
        if v:
            R.fired["clock_jump"] += 1
        d = R.dir(["in", "some where", "x" * 40][v])
        os.chdir([R.root, d, "/"][v])
        path = os.path.join(d, name)
        if v:
            hist = s["hist"] if v == 1 else list(reversed(s["hist"]))
            for i, h in enumerate(hist):
                data, _ = gen.render(h["spec"])
                if h["fail"]:
                    data = data[: len(data) // 2]
                hp = os.path.join(R.dir(f"h{i}"), h["name"])
                put(hp, data)
                p = dict(plan)
                p.pop("ram", None)
                R.under(p, lambda: call(h["op"], Path(hp), h["opts"] if h["op"] == "load" else {}))
                R.count["earlier_operations"] += 1
            if v == 2 and s.get("prev") and s["src"] != "io":
                # another file had this name before
                pdata = materialise({**f, "spec": s["prev"]})[1]
                put(path, pdata)
                os.utime(path, ns=(10**18, 10**18))
                for op in s["ops"]:
                    R.under({}, lambda: call(op, Path(path), {}))
        put(path, blob)
        os.utime(path, ns=(10**18 + (v == 1) * 10**15,) * 2)
        # ---- the operation
        parts: dict = {}
        low = False
        src = source(s["src"], path, blob) if s["src"] == "io" else Path(path)
        for k, op in enumerate(s["ops"]):
            for rep in range(2 if v == 1 else 1):
                val, exc = R.under(plan, lambda: call(op, src, s["opts"] if op == "load" else {}))
                if exc is not None and not isinstance(exc, Exception):
                    raise exc
                p = outcome(val, exc)
                if rep and p != parts_k:
                    raise Viol("env", f"{op} gives another result when repeated: {first_diff(parts_k, p)}")
                parts_k = p
            if exc is not None and R.w.fired.get("low_memory"):
                low = True
                R.count["refused_for_memory"] += 1
            for q, x in p.items():
                parts[f"{op}: {q}"] = x
            R.sig.append((f["spec"]["fmt"], op, s["src"], str((f.get("form") or {}).get("c")), sorted(s["opts"]), v, "raised" in p))
        if v == 0:
            R.nontrivial = True
        R.note(csum(parts))
        return {"digest": {"sum": csum(parts), "lowmem": low, "parts": {k: short(x, 400) for k, x in parts.items()}}}


# --------------------------------------------------------------------------
BAD_CALLS = ["tlim-reversed", "tlim-three", "interval-negative", "interval-type", "out-unknown", "absent"]


class C13:
    FAULTS = ["open", "open", "read", "read", "mem", "mem", "line", "line", "memline", "memline", "ram", "content", "call"]

    @classmethod
    def gen(cls, r, task):
        fmt = r.choice(["obs2", "obs3", "nav2", "nav3", "obs2", "obs3", "nav2", "nav3", "sp3"])
        sp = gen.gen(r, fmt)
        op = r.choice(["load", "load", "load", "time", "header", "info"]) if fmt != "sp3" else "load"
        fault = r.choice(cls.FAULTS)
        src = r.choice(["path", "path", "io"]) if fmt != "sp3" else "path"
        if fault in ("open", "read"):
            src = "path"
        if fault == "ram":
            op = "load"
        s = {
            "files": [{"spec": sp, "name": fname(r, sp), "form": gen_form(r, sp, 0.35) if src == "path" else None}],
            "ops": [op],
            "opts": gen_opts(r, sp) if op == "load" and fmt != "sp3" and r.random() < 0.5 else {},
            "src": src,
            "fault": fault,
            "at": r.random(),
            "errno": r.choice(["EMFILE", "ENFILE", "EACCES", "EIO", "ENOENT", "ENOMEM"]),
            "out": op == "load" and r.random() < 0.35,
            "plan": gen_plan(r),
            "bad": r.choice(BAD_CALLS),
            "cut": r.random(),
        }
        if fault == "read":
            s["plan"]["bufsize"] = r.choice([64, 128, 333])
            if r.random() < 0.5 and not s["files"][0].get("form"):
                s["eioln"] = gen_eio_line(r)
                s["plan"]["bufsize"] = r.choice([16, 32, 64])
        if op != "load" and fault == "call":
            s["bad"] = "absent"
            s["src"] = "path"
        if fault in ("line", "memline"):
            s["more"] = [(1 + r.random()) / 2 for _ in range(8)]
        return s

    @classmethod
    def run(cls, R, s):
        f = s["files"][0]
        fmt = f["spec"]["fmt"]
        name, blob = materialise(f)
        if s["src"] == "io":
            blob = gen.render(f["spec"])[0]
            name = f["name"]
        din = R.dir("in")
        path = os.path.join(din, name)
        put(path, blob)
        op = s["ops"][0]
        opts = s["opts"]
        out = R.dir("out") if s["out"] else None
        outp = os.path.join(out, "result.nc") if out else None
        plan = dict(s["plan"])
        plan.pop("poison", None)
        text = text_of(blob)
        stream = io.StringIO(text) if s["src"] == "io" else None

        def do(o=opts, pth=path, target=outp):
            return call(op, stream if stream is not None else Path(pth), o, out=Path(target) if target else None)

        # ---- what the operation gives in a fresh process
        def fresh():
            val, exc = R.under(plan, lambda: do(target=os.path.join(R.dir("ref"), "result.nc") if outp else None))
            return {"o": outcome(val, exc), "nc": nc_state(os.path.join(R.root, "ref", "result.nc"))}

        ref = must(forked(fresh), "operation without fault")
        # ---- a dry run in a process of its own tells how many steps there are
        def dry():
            w = R.world({**plan, "countlines": True, **({"eio": {**eio_offset(blob, s["eioln"]), "sticky": False}} if s.get("eioln") else {})})
            R.under(None, lambda: do(target=os.path.join(R.dir("dry"), "result.nc") if outp else None), w)
            return {"opens": w.opens, "reads": w.reads, "allocs": w.allocs, "lines": w.lines, "line_at": w.line_at(s["at"]), "more": [w.line_at(x) for x in s.get("more", [])], "hits": w.eio_hits}

        n = must(forked(dry), "operation without fault")
        p = dict(plan)
        fault = s["fault"]
        at = lambda k: 1 + int(s["at"] * n[k])  # noqa: E731
        # ---- at further places of the code only whether the failure reaches the caller
        for k in n["more"] if fault in ("line", "memline") else ():

            def there():
                w = R.world({**plan, "kbd" if fault == "line" else "memline": k})
                _v, e = R.under(None, lambda: do(target=os.path.join(R.dir("there"), "result.nc") if outp else None), w)
                return {"e": type(e).__name__ if e is not None else None, "fired": {q: v for q, v in w.fired.items() if q != "short_read"}}

            got = must(forked(there), "operation with a fault")
            if got["fired"]:
                for q, v in got["fired"].items():
                    R.fired[q] += v
                if got["e"] is None or fault == "line" and got["e"] != "KeyboardInterrupt":
                    raise Viol("swallowed", f"{'interruption by the user' if fault == 'line' else 'running out of memory'} at line event {k} came out of {op} as {got['e']}")
        o2, pth2, out2 = opts, path, outp
        must_raise = True
        if fault == "open":
            p["openerr"] = {"at": at("opens"), "errno": s["errno"]}
        elif fault == "read":
            p["eio"] = eio_offset(blob, s["eioln"], n["hits"]) if s.get("eioln") else {"at": at("reads")}
        elif fault == "mem":
            p["memerr"] = at("allocs")
        elif fault == "line":
            p["kbd"] = n["line_at"]
        elif fault == "memline":
            p["memline"] = n["line_at"]
        elif fault == "ram":
            p["ram"] = 1000
            must_raise = False
        elif fault == "content":
            must_raise = False
            if stream is not None:
                stream2 = io.StringIO(text[: int(s["cut"] * len(text))])
            else:
                pth2 = os.path.join(din, "cut-" + name)
                put(pth2, blob[: int(s["cut"] * len(blob))])
        else:
            b = s["bad"]
            if b == "tlim-reversed":
                o2 = {**opts, "tlim": [10**15 + 5, 10**15], "tlimstr": False}
            elif b == "interval-negative" and fmt.startswith("obs"):
                o2 = {**opts, "interval": -5_000_000, "intkind": "int"}
            elif b == "out-unknown" and op == "load":
                out2 = os.path.join(R.dir("out"), "result.unknown")
            else:
                pth2 = os.path.join(din, "not-there.18o")
                if stream is not None:
                    o2 = {**opts, "tlim": [10**15 + 5, 10**15], "tlimstr": False}
            if op != "load":
                pth2 = os.path.join(din, "not-there.18o")
        if fault == "content" and stream is not None:
            keep, stream = stream, stream2
            val, exc = R.under(p, lambda: do(target=None))
            if stream2.closed:
                raise Viol("stream", "the caller's text stream was closed by a failed operation")
            stream = keep
            R.under(p, lambda: None)
        else:
            val, exc = R.under(p, lambda: do(o2, pth2, out2))
        w = R.w
        fired = bool({k: v for k, v in w.fired.items() if k not in ("short_read",)}) or fault in ("content", "call")
        R.sig.append((fmt, op, fault, s["src"], str((f.get("form") or {}).get("c")), type(exc).__name__, s["errno"] if fault == "open" else "", bool(out)))
        if not fired:
            return
        if fault in ("content", "call"):
            R.fired["invalid_input" if fault == "content" else "invalid_call"] += 1
        if fault == "line" and exc is None:
            raise Viol("swallowed", f"interruption by the user at line event {p['kbd']} did not reach the caller of {op}")
        if fault == "line" and not isinstance(exc, KeyboardInterrupt):
            raise Viol("swallowed", f"interruption by the user came out of {op} as {type(exc).__name__}: {exc}")
        if fault == "memline" and exc is None:
            raise Viol("swallowed", f"running out of memory at line event {p['memline']} did not reach the caller of {op}")
        if exc is not None and not isinstance(exc, (Exception, KeyboardInterrupt)):
            raise Viol("swallowed", f"{type(exc).__name__}: {exc}")
        if exc is None and must_raise:
            raise Viol("swallowed", f"{op} reported success although {fault} {p.get('openerr') or p.get('eio') or p.get('memerr') or s['bad']} failed")
        if exc is None and fault == "ram" and canon(val) != ref["o"]:
            raise Viol("swallowed", f"{op} with little memory: {first_diff(ref['o'], canon(val))}")
        R.nontrivial = True
        if exc is not None:
            R.count["failures_reported"] += 1
            if fault not in ("line", "memline"):
                leak = w.leaked()
                if leak:
                    raise Viol("leak", f"{op} failed with {type(exc).__name__} and left open: {sorted(set(os.path.basename(x) for x in leak))}")
            if s["out"] and fault in ("line", "memline"):
                # an interruption may come after the output is complete, or within the cleaning up
                st = nc_state(outp)
                if st is not None and state_diff(ref["nc"], st):
                    raise Viol("output", f"interrupted {op} left an incomplete output: {state_diff(ref['nc'], st)}")
                x = [q for q in listing(out) if q.endswith(".nc") and q != "result.nc"]
                if x:
                    raise Viol("output", f"interrupted {op} left {x}")
            elif s["out"] and listing(out):
                raise Viol("output", f"failed {op} ({type(exc).__name__}) left {listing(out)} in the output directory")
        elif fault != "ram":
            pass
        if stream is not None:
            if stream.closed:
                raise Viol("stream", f"the caller's text stream was closed by a failed {op}")
            if stream.getvalue() != text:
                raise Viol("stream", "the text of the caller's stream changed")
        del val, exc
        # ---- the same again, without the fault
        if outp and os.path.exists(outp):
            os.unlink(outp)
        val, exc = R.under(plan, do)
        d = first_diff(ref["o"], outcome(val, exc))
        if d:
            raise Viol("redo", f"{op} after a failed one ({fault}) differs from one in a fresh process: {d}" + (f" ({type(exc).__name__}: {exc})" if exc else ""))
        leak = R.w.leaked()
        if leak:
            raise Viol("leak", f"successful {op} left open: {sorted(set(os.path.basename(x) for x in leak))}")
        if outp:
            d = state_diff(ref["nc"], nc_state(outp))
            if d:
                raise Viol("redo", f"output of the conversion after a failed one: {d}")
        R.note(csum(ref["o"]))
