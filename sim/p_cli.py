"""C17 the command-line tools against the library."""
from __future__ import annotations
import contextlib
import errno
import io
import json
import os
import random
import re
from datetime import datetime
from pathlib import Path

import georinex as gr
import gen
import model
from p_batch import cli
from p_env import gen_form, materialise
from p_fidelity import C14, fname, gen_opts
from p_store import GROUP, Reader, Shim, lcanon, sdiff
from simlib import Run, Viol, call, canon, first_diff, forked, gen_plan, get, listing, must, put, time_texts

SYS = "GCESJRI"


def argv_of(o: dict) -> list:
    a = []
    if o.get("use") is not None:
        a += ["-u", *(o["use"] if not isinstance(o["use"], str) else [o["use"]])]
    if o.get("meas") is not None:
        a += ["-m", *(o["meas"] if not isinstance(o["meas"], str) else [o["meas"]])]
    if o.get("tlim") is not None:
        a += ["-t", *time_texts({"tlimstr": True, **o})]
    if o.get("interval") is not None:
        a += ["-interval", repr(o["interval"] / 1e6)]
    if o.get("useindicators"):
        a += ["-useindicators"]
    if o.get("fast") is False:
        a += ["-strict"]
    if o.get("verbose"):
        a += ["-v"]
    return a


def same_opts(o: dict) -> dict:
    """the same options, given to the library"""
    q = dict(o)
    if isinstance(q.get("use"), str):
        q["use"] = [q["use"]]
    if isinstance(q.get("meas"), str):
        q["meas"] = [q["meas"]]
    if "tlim" in q:
        q["tlimstr"] = False
    if "interval" in q:
        q["intkind"] = "td"
    q.pop("verbose", None)
    return q


class C17:
    @classmethod
    def gen(cls, r, task):
        tool = r.choice(["read", "read", "read", "time"])
        fmt = r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3"] if tool == "read" else ["obs2", "obs3", "nav2", "nav3"])
        sp = gen.gen(r, fmt, nep=r.choice([1, 2, 3, 5, 8])) if fmt in ("obs2", "obs3", "sp3") else gen.gen(r, fmt, nrec=r.choice([1, 2, 4, 8]), **({"monotonic": True} if fmt == "nav2" else {}))
        o = gen_opts(r, sp) if tool == "read" and fmt != "sp3" and r.random() < 0.75 else {}
        if isinstance(o.get("use"), list):
            o["use"] = [x for x in o["use"] if x in SYS] or None
        elif o.get("use") not in (None, *SYS):
            o["use"] = None
        if o.get("use", 0) is None:
            del o["use"]
        if "tlim" in o:
            o["tlimstr"] = r.choice([True, 1 + r.randrange(255)])
        if r.random() < 0.1:
            o["verbose"] = True
        p = gen_plan(r)
        p.pop("poison", None)
        return {
            "tool": tool,
            "files": [{"spec": sp, "name": fname(r, sp), "form": gen_form(r, sp, 0.35)}],
            "opts": o,
            "order": r.randrange(1 << 20),
            "path": r.choice(["abs", "abs", "rel", "dot", "up", "home"]),
            "out": r.choice([None, "file", "file", "relfile", "homefile", "dir", "reldir", "homedir"]) if tool == "read" else None,
            "have": r.choice([None, None, None, "other", "same"]),
            "fault": r.choice([None, None, None, "eio", "mem", "memline", "kbd", "open", "cut", "garbage", "absent", "disk", "disk", "badout", "badarg", "tlimrev"]),
            "at": r.random(),
            "err": r.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE"]),
            "plan": p,
        }

    @classmethod
    def run(cls, R, s):
        reader = Reader()
        try:
            cls.play(R, s, reader)
        finally:
            reader.close()

    @classmethod
    def play(cls, R, s, read):
        f = s["files"][0]
        sp = f["spec"]
        fmt = sp["fmt"]
        tool, o, plan, fault = s["tool"], s["opts"], dict(s["plan"]), s["fault"]
        name, blob = materialise(f)
        if fmt == "sp3" and f.get("form") and f["form"].get("naming") == "magic":
            name = name.replace("_sp3", ".sp3")
        home = R.dir("home")
        din = R.dir("home/data")
        path = os.path.join(din, name)
        if fault == "cut":
            blob = blob[: int(s["at"] * len(blob))]
        elif fault == "garbage":
            blob = random.Random(s["order"]).randbytes(300)
        if fault != "absent":
            put(path, blob)
        work = R.dir("home/work")
        given = {"abs": path, "rel": os.path.join("..", "data", name), "dot": os.path.join(".", "..", "data", name), "up": os.path.join(work, "..", "data", name), "home": os.path.join("~", "data", name)}[s["path"]]
        qo = same_opts(o)
        if fault == "tlimrev":
            qo["tlim"] = [10**15 + 5 * 10**6, 10**15]
            o = {**o, "tlim": qo["tlim"]}

        # ---- the output, and what is there before
        dout = R.dir("home/out")
        outarg = outp = None
        if s["out"]:
            base = {"rel": os.path.join("..", "out"), "hom": os.path.join("~", "out")}.get(s["out"][:3], dout)
            isdir = s["out"].endswith("dir")
            outp = os.path.join(dout, name + ".nc" if isdir else "result.nc")
            outarg = base if isdir else os.path.join(base, "result.nc")
        before = None
        old = None
        if outp and s["have"] and fmt != "sp3":
            f2 = fmt if s["have"] == "same" else ("nav2" if fmt.startswith("obs") else "obs2")
            q = random.Random(s["order"] + 1)
            s2 = gen.gen(q, f2, nep=2) if f2.startswith("obs") else gen.gen(q, f2, nrec=2)
            p2 = os.path.join(R.dir("other"), fname(q, s2))
            put(p2, gen.render(s2)[0])

            def mk():
                val, exc = R.under({}, lambda: call("load", Path(p2), {"fast": False} if f2.startswith("obs") else {}, out=Path(outp)))
                if exc is not None:
                    raise exc

            must(forked(mk), "earlier conversion")
            before = read(outp)
            old = get(outp)
        if fault == "badout" and tool == "read":
            outarg = os.path.join(dout, "result.unknown")
        argv = [given]
        extra = argv_of(o)
        if fault == "badarg":
            extra += ["--no-such-option"]
        if outarg:
            argv = argv + ["-o", outarg] + extra if s["order"] % 2 else argv + extra + ["-o", outarg]
        else:
            argv = argv + extra

        # ---- the library
        def library():
            val, exc = R.under(plan, lambda: call("load", Path(path), qo, out=Path(R.dir("ref"), "result.nc") if outp else None))
            if exc is not None:
                return {"exc": type(exc).__name__}
            t = io.StringIO()
            with contextlib.redirect_stdout(t):
                print(val)  # as returned with an output asked for: the times have another resolution then
            d = model.compare(val, fmt, model.expect(sp, gen.render(sp)[1], None, qo)) if fault not in ("cut", "garbage") else None
            return {"exc": None, "text": t.getvalue(), "c": lcanon(val), "truth": d}

        def command(p, shim=None, argv=argv):
            os.environ["HOME"] = home
            os.chdir(work)
            o_ = io.StringIO()

            def do():
                with contextlib.redirect_stdout(o_):
                    cli("georinex." + tool, argv)

            sh = Shim() if shim is not None or p.get("dry") else None
            w = R.world({k: v for k, v in p.items() if k != "dry"})
            if sh:
                sh.begin(dout)
                if shim:
                    sh.fault(*shim)
            val, exc = R.under(None, do, w)
            n = {"opens": w.opens, "reads": w.reads, "allocs": w.allocs, "lines": w.lines, "line_at": w.line_at(s["at"])}
            if sh:
                n["ops"] = sh.d.simshim_ops()
                n["fired"] = sh.d.simshim_fired()
                sh.end()
            code = 0
            if isinstance(exc, SystemExit):
                code = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
            elif exc is not None:
                code = 1
            return {"code": code, "exc": type(exc).__name__ if exc is not None else None, "msg": str(exc)[:200], "out": o_.getvalue(), "n": n, "fired": dict(w.fired)}

        def restore():
            for q in os.listdir(dout):
                os.unlink(os.path.join(dout, q))
            if old is not None:
                put(outp, old)

        what = f"georinex.{tool} {' '.join(a for a in argv[1:] if '/' not in a)}"
        if tool == "time":
            return cls.time(R, s, sp, fault, path, command, plan, what)
        lib = must(forked(library), "plain load")
        R.sig.append((tool, fmt, s["path"], s["out"], s["have"], fault, tuple(sorted(o)), lib["exc"]))
        g = GROUP[fmt]
        if lib.get("truth"):
            raise Viol("library", f"the load itself: {lib['truth']}")
        refused = bool(before) and g in before
        fails = lib["exc"] or refused or fault in ("badout", "badarg", "absent", "tlimrev")
        want = before if fails or not outp else {**(before or {}), g: lib["c"]}

        def judge(res, w, how):
            left = [q for q in listing(dout) if outp is None or os.path.join(dout, q) != outp]
            if left:
                raise Viol("output", f"{what}: {how}: left {sorted(os.path.splitext(q)[1] for q in left)} in the output directory")
            d = sdiff(w, read(outp)) if outp else None
            if d:
                raise Viol("output", f"{what}: {how}: {d}")

        # ---- the command
        res = must(forked(lambda: command(plan)), what)
        R.nontrivial = True
        if fails:
            if res["code"] == 0:
                raise Viol("status", f"{what}: reported success, the library {lib['exc'] or 'refuses'} {fault or ''}")
            R.fired[f"command_failed:{fault or ('refused' if refused else lib['exc'])}"] += 1
            judge(res, before, "failed")
        else:
            if res["code"]:
                raise Viol("status", f"{what}: failed with {res['exc']}: {res['msg']}, the library does not")
            judge(res, want, "output")
            if not res["out"].endswith(lib["text"]):
                raise Viol("printed", f"{what}: printed {res['out'][-300:]!r}, the data are {lib['text'][-300:]!r}")
            if outp and "ROOT" not in want and not fault:
                # the command on what it has written
                def reload():
                    val, exc = R.under({}, lambda: gr.load(Path(outp)))
                    if exc is not None:
                        raise exc
                    t = io.StringIO()
                    with contextlib.redirect_stdout(t):
                        print(val)
                    return t.getvalue()

                text = must(forked(reload), "loading the output")
                held = get(outp)
                res = must(forked(lambda: command(plan, argv=[outarg if outarg.endswith(".nc") else os.path.join(outarg, name + ".nc")])), what + " on the output")
                if res["code"] or res["out"] != text:
                    raise Viol("printed", f"{what}: on the output: status {res['code']}, printed {res['out'][-300:]!r}, the data are {text[-300:]!r}")
                if get(outp) != held:
                    raise Viol("output", f"{what}: reading the output changed it")
                R.count["outputs_read"] += 1
        R.note(res["code"], lib["exc"])
        if fails or fault not in ("eio", "mem", "memline", "kbd", "open", "disk"):
            return
        # ---- the command again, something failing on the way
        restore()
        n = must(forked(lambda: command({**plan, "countlines": True, "dry": True})), what)["n"]
        restore()
        p = dict(plan)
        shim = None
        k = {"eio": "reads", "mem": "allocs", "kbd": "lines", "memline": "lines", "open": "opens", "disk": "ops"}[fault]
        if not n.get(k):
            return
        at = n["line_at"] if k == "lines" else 1 + int(s["at"] * n[k])
        if fault == "eio":
            p["eio"] = {"at": at}
        elif fault == "mem":
            p["memerr"] = at
        elif fault == "kbd":
            p["kbd"] = at
        elif fault == "memline":
            p["memline"] = at
        elif fault == "open":
            p["openerr"] = {"at": at, "errno": "EIO"}
        else:
            shim = (at - 1, "sticky", getattr(errno, s["err"]))
        got = forked(lambda: command(p, shim))
        if got[0] == "signal" and fault == "disk":
            R.count["library_died_of_fault"] += 1
            return
        res = must(got, what)
        if not (res["fired"].keys() - {"short_read"} or res["n"].get("fired")):
            return
        R.fired[f"command:{fault}"] += 1
        if res["code"] == 0:
            if fault == "disk" and outp:
                judge(res, want, "success reported on a failing disk")
                return
            raise Viol("status", f"{what}: reported success although {fault} failed at {at} of {n[k]}")
        st = read(outp) if outp else None
        if fault in ("kbd", "memline") and outp and sdiff(want, st) is None:
            return
        if fault in ("kbd", "memline"):
            if outp and sdiff(before, st):
                raise Viol("output", f"{what}: interrupted: {sdiff(before, st)}")
            return
        if fault == "disk" and outp and sdiff(want, st) is None:
            return
        judge(res, before, f"failed with {res['exc']} ({fault})")

    @classmethod
    def time(cls, R, s, sp, fault, path, command, plan, what):
        """what the time command says of one file"""

        def library():
            val, exc = R.under(plan, lambda: gr.gettime(Path(path)))
            if exc is None:
                h, exc = R.under(plan, lambda: gr.rinexheader(Path(path)))
            if exc is not None:
                return {"exc": type(exc).__name__}
            return {"exc": None, "t": [str(t) for t in val], "text": str(val), "interval": h.get("interval")}

        lib = must(forked(library), "plain time listing")
        res = must(forked(lambda: command(plan)), what)
        R.sig.append(("time", sp["fmt"], s["path"], fault, lib["exc"], res["exc"]))
        R.nontrivial = True
        if lib["exc"] or fault == "badarg" or not lib["t"]:
            if res["code"] == 0:
                raise Viol("status", f"{what}: reported success, the library: {lib['exc']}")
            R.fired[f"command_failed:{fault}"] += 1
            return
        if fault == "tlimrev" or s["opts"]:
            if res["code"] == 0:
                raise Viol("status", f"{what}: an option it does not have was accepted")
            return
        if res["code"]:
            raise Viol("status", f"{what}: failed with {res['exc']}: {res['msg']}, the library does not")
        m = re.search(r"^(.*): (\d{4}-\d\d-\d\dT\S+) (\d{4}-\d\d-\d\dT\S+) (\d+)( \S+)?$", res["out"], re.M)
        if not m:
            raise Viol("printed", f"{what}: printed {res['out'][:300]!r}")
        us = lambda x: gen.us(datetime.fromisoformat(x))  # noqa: E731
        a = [m.group(1), us(m.group(2)), us(m.group(3)), int(m.group(4))]
        b = [os.path.basename(path), us(lib["t"][0][:26]), us(lib["t"][-1][:26]), len(lib["t"])]
        if a != b:
            raise Viol("printed", f"{what}: printed {a}, the library gives {b}")
        if lib["text"] not in res["out"]:
            raise Viol("printed", f"{what}: the list of times printed is not the library's")
        iv = lib["interval"]
        if iv is not None and iv == iv and (m.group(5) is None or float(m.group(5)) != float(iv)):
            raise Viol("printed", f"{what}: interval {m.group(5)}, the header gives {iv}")
        if fault in ("cut", "garbage", "absent"):
            return
        t = C14.truth(sp)
        if [a[1] // 1000, a[2] // 1000, a[3]] != [t[0], t[-1], len(t)]:
            raise Viol("printed", f"{what}: printed {a}, the file has {len(t)} epochs from {t[0]} to {t[-1]} ms")
        if fault not in ("eio", "mem", "memline", "kbd", "open"):
            return
        n = must(forked(lambda: command({**plan, "countlines": True})), what)["n"]
        k = {"eio": "reads", "mem": "allocs", "kbd": "lines", "memline": "lines", "open": "opens"}[fault]
        if not n[k]:
            return
        at = n["line_at"] if k == "lines" else 1 + int(s["at"] * n[k])
        p = {**plan, **{"eio": {"eio": {"at": at}}, "mem": {"memerr": at}, "kbd": {"kbd": at}, "memline": {"memline": at}, "open": {"openerr": {"at": at, "errno": "EIO"}}}[fault]}
        res = must(forked(lambda: command(p)), what)
        if not res["fired"].keys() - {"short_read"}:
            return
        R.fired[f"command:{fault}"] += 1
        if res["code"] == 0:
            raise Viol("status", f"{what}: reported success although {fault} failed at {at} of {n[k]}")
