"""C11 batch conversion, C15 surveys of many files."""
from __future__ import annotations
import bz2
import contextlib
import gzip
import io
import json
import os
import random
import re
import runpy
import sys
import zipfile
from pathlib import Path

import numpy as np

import georinex as gr
import georinex.geo as gg
import gen
import model
import seam
from p_env import gen_form, materialise
from p_fidelity import C14, fname, gen_opts
from p_store import KIND, Reader, Shim, lcanon, lstate, sdiff
from simlib import (
    Run, Viol, call, csum, fast_refusal_ok, first_diff, forked, gen_plan, get, listing, load_kw, must, outcome, put, records,
    time_texts, to_crx,
)

BAD = [
    "empty", "garbage", "text", "truncgz", "gzgarbage", "badzip", "zip2", "nav4", "obs4", "met", "hdronly", "hdrcut", "cut", "cut",
    "crxbad", "badnum", "badtime", "eio", "eio", "eacces", "dir", "link", "loop", "ncbad", "onechar", "blank",
]


def gen_file(r, i, bad: bool, fmts=("obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3")):
    fmt = r.choice(fmts)
    sp = gen.gen(r, fmt, nep=r.choice([1, 2, 3, 4])) if fmt in ("obs2", "obs3", "sp3") else gen.gen(r, fmt, nrec=r.choice([1, 2, 4]))
    f = {"spec": sp, "name": f"{r.choice('abcdmz')}{i}_" + fname(r, sp), "form": gen_form(r, sp, 0.3)}
    if bad:
        f["bad"] = r.choice(BAD)
        f["seed"] = r.randrange(1 << 30)
        if f["bad"] in ("nav4", "obs4", "met", "hdronly", "hdrcut", "cut", "badnum", "badtime", "crxbad"):
            f["form"] = None
    return f


def related_names(r, files):
    """some file names that differ from another's by a suffix only, or are unusual"""
    plain = [f for f in files if not f.get("form") and f.get("bad") not in ("truncgz", "zip2", "ncbad", "crxbad")]
    for f in plain:
        x = r.random()
        others = [g for g in plain if g is not f]
        if x < 0.25 and others:
            n = r.choice(others)["name"]
            f["name"] = r.choice([n.rsplit(".", 1)[0], n + ".bak", n + "~", n.rsplit(".", 1)[0] + ".obs", n.upper(), n + ".nc.old", "." + n])
        elif x < 0.4:
            f["name"] = r.choice(["[a-c]%s", "-o %s", "%s #2", "nc", "*%s", "%%s %s", "{0}%s"]).replace("%s", f["name"])
    seen = set()
    for i, f in enumerate(files):
        if f["name"].lower() in seen or f["name"].endswith((".nc", ".tmp")) or len(f["name"]) > 120:
            f["name"] = f"{i}q{i}_" + f["name"][-60:].lstrip(".") + "x"
        seen.add(f["name"].lower())


def linked(r, files):
    """files that are links, or were modified long before or after the others"""
    for f in files:
        if r.random() < 0.5:
            f["mt"] = r.choice([-10000000, -3600, -1, 1, 3600, 10000000])
        if not f.get("bad") and r.random() < 0.1:
            f["store"] = r.randrange(3)
    good = [f for f in files if not f.get("bad") and "store" not in f]
    if good and r.random() < 0.25:
        f = r.choice(good)
        files.append({**f, "name": f"{r.choice('an')}l{len(files)}_" + f["name"].lstrip("."), "of": f["name"], "how": r.choice(["sym", "hard"])})


def make(f: dict, d: str) -> str:
    """write a file of the scenario; returns its path"""
    p = make_(f, d)
    if f.get("mt") and os.path.isfile(p):
        t = os.stat(p).st_mtime + f["mt"]
        os.utime(p, (t, t))
    return p


def make_(f: dict, d: str) -> str:
    name, blob = materialise(f)
    b = f.get("bad")
    p = os.path.join(d, name)
    if f.get("of"):
        q = os.path.join(d, materialise({**f, "name": f["of"]})[0])
        if os.path.isfile(q):
            (os.symlink if f["how"] == "sym" else os.link)(q, p)
            return p
    if "store" in f:
        # archived under the same name as others
        q = os.path.join(d.rpartition("/in")[0], f"store{f['store']}-{name[:2]}", "today" + "".join(Path(name).suffixes[-2:]))
        if not os.path.lexists(q):
            os.makedirs(os.path.dirname(q), exist_ok=True)
            put(q, blob)
            os.symlink(q, p)
            return p
    if not b:
        put(p, blob)
        return p
    r = random.Random(f["seed"])
    sp = f["spec"]
    n = len(blob)
    if b == "empty":
        blob = b""
    elif b == "onechar":
        blob = b"\n"
    elif b == "blank":
        blob = b" " * 80 + b"\n" * 4
    elif b == "garbage":
        blob = r.randbytes(r.choice([1, 30, 500, 5000]))
    elif b == "text":
        blob = b"# notes on the stations\nnothing to see here\n" * r.randrange(1, 40)
    elif b == "truncgz":
        z = gzip.compress(gen.render(sp)[0], mtime=0)
        blob = z[: r.randrange(1, len(z))]
        p += "" if p.endswith(".gz") else ".gz"
    elif b == "gzgarbage":
        blob = b"\x1f\x8b" + r.randbytes(60)
    elif b == "badzip":
        blob = b"PK\x03\x04" + r.randbytes(100)
    elif b == "zip2":
        o = io.BytesIO()
        with zipfile.ZipFile(o, "w") as z:
            for q in ("a.18o", "b.18o"):
                z.writestr(zipfile.ZipInfo(q, (1980, 1, 1, 0, 0, 0)), gen.render(sp)[0])
        blob = o.getvalue()
        p += "" if p.endswith(".zip") else ".zip"
    elif b in ("nav4", "obs4"):
        blob = (f"{'     4.00':20s}{'N' if b == 'nav4' else 'O'}{'':19s}{'M':20s}RINEX VERSION / TYPE\n").encode() + blob
    elif b == "met":
        blob = f"{'     2.11':20s}{'METEOROLOGICAL DATA':20s}{'':20s}RINEX VERSION / TYPE\n{'':60s}END OF HEADER\n".encode()
    elif b == "hdronly":
        blob = blob[: gen.render(sp)[1][0]["hend"]]
    elif b == "hdrcut":
        blob = blob[: r.randrange(1, max(2, gen.render(sp)[1][0]["hend"]))]
    elif b == "cut":
        blob = blob[: r.randrange(1, n)]
    elif b in ("badnum", "badtime"):
        h = gen.render(sp)[1][0]["hend"]
        body = bytearray(blob[h:])
        dig = [i for i, c in enumerate(body) if 48 <= c < 58]
        if b == "badtime":
            dig = dig[:20]
        for i in r.sample(dig, min(len(dig), r.randrange(1, 6))):
            body[i] = ord(r.choice("*?x:")) if r.random() < 0.7 else ord("9")
        blob = blob[:h] + bytes(body)
    elif b == "crxbad":
        c = to_crx(sp, blob) if sp["fmt"].startswith("obs") and not any(e.get("clk") for e in sp["epochs"]) else None
        if c:
            a = r.randrange(len(c))
            blob = c[:a] + r.randbytes(3) + c[a + 3 :]
        else:
            blob = blob[: n // 3]
    elif b == "dir":
        os.makedirs(p)
        put(os.path.join(p, "inner.txt"), b"x")
        return p
    elif b == "link":
        os.symlink("nowhere", p)
        return p
    elif b == "loop":
        os.symlink(os.path.basename(p), p)
        return p
    elif b == "ncbad":
        p += ".nc"
        blob = b"\x89HDF\r\n\x1a\n" + r.randbytes(200)
    put(p, blob)
    return p


def faults_of(files, paths) -> dict:
    """the plan entries that make a file unreadable"""
    p: dict = {}
    for f, q in zip(files, paths):
        if f.get("bad") == "eio" and "eio" not in p:
            p["eio"] = {"path": "=" + os.path.basename(q), "at": 1 + random.Random(f["seed"]).randrange(3), "sticky": True}
        if f.get("bad") == "eacces" and "openerr" not in p:
            p["openerr"] = {"path": "=" + os.path.basename(q), "errno": random.Random(f["seed"]).choice(["EACCES", "EIO", "ENOENT"])}
    return p


def capture(fn):
    """standard output of fn()"""
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        fn()
    return o.getvalue()


def cli(mod: str, argv: list):
    a = sys.argv
    sys.argv = [mod] + argv
    try:
        runpy.run_module(mod, run_name="__main__")
    finally:
        sys.argv = a


# --------------------------------------------------------------------------
class C11:
    @classmethod
    def gen(cls, r, task):
        n = r.randrange(2, 7)
        good = r.randrange(1, n + 1)
        files = [gen_file(r, i, i >= good) for i in range(n)]
        r.shuffle(files)
        if r.random() < 0.4:
            related_names(r, files)
        if r.random() < 0.6:
            linked(r, files)
        deep = r.random() < 0.15
        opts: dict = {}
        if r.random() < 0.3:
            if r.random() < 0.5:
                opts["useindicators"] = True
            if r.random() < 0.5:
                opts["fast"] = False
            if r.random() < 0.5:
                opts["use"] = r.sample(["G", "R", "E", "C"], r.randrange(1, 4))
            if r.random() < 0.3:
                opts["meas"] = r.sample(["C1", "L1", "P2", "C1C", "L1C", "S"], 2)
            t = gen_opts(r, r.choice(files)["spec"]).get("tlim")
            if t:
                opts["tlim"] = t
                opts["tlimstr"] = 1 + r.randrange(255)
        p = gen_plan(r)
        p.pop("poison", None)
        return {
            "files": files,
            "opts": opts,
            "plan": p,
            "scandir": r.randrange(1 << 30),
            "cli": r.random() < 0.3,
            "glob": r.choice(["*", "*", "*", "*o*", "*.rnx*"]),
            "inplace": not deep and r.random() < 0.25,
            "deep": deep,
            "done": [r.random() < 0.15 for _ in files],
            "spoilt": [r.random() < 0.06 for _ in files],
            "stop": r.choice([None, None, "kill", "kill", "kbd", "transient", "transient", "errno"]),
            "at": r.random(),
            "tkind": r.choice(["open", "mem", "eio"]),
            "err": r.choice(["ENOSPC", "EIO"]),
            # files in directories below, which the pattern does not ask for
            "below": [] if deep or r.random() < 0.7 else [
                {"as": r.randrange(n) if r.random() < 0.5 else None, "in": r.choice(["old", "a.d", "x/y", "m.rnx"]), "f": gen_file(r, 90 + j, False)}
                for j in range(r.choice([1, 1, 2]))
            ],
        }

    @classmethod
    def run(cls, R, s):
        reader = Reader()
        try:
            cls.play(R, s, reader)
        finally:
            reader.close()

    @classmethod
    def play(cls, R, s, read):
        files = s["files"]
        plan = dict(s["plan"])
        o = s["opts"]
        din = R.dir("in")
        paths = []
        for i, f in enumerate(files):
            paths.append(make(f, R.dir(f"in/d{i % 3}") if s.get("deep") else din))
        if s.get("deep"):
            s = {**s, "glob": "**/*"}
        chosen = lambda p: bool(s.get("deep")) or Path(os.path.basename(p)).match(s["glob"])  # noqa: E731
        for b in s.get("below", []):
            q = make(b["f"], R.dir(os.path.join("in", b["in"])))
            if b["as"] is not None and b["as"] < len(paths):
                os.rename(q, os.path.join(os.path.dirname(q), os.path.basename(paths[b["as"]])))
            R.count["files_below"] += 1
        plan.update(faults_of(files, paths))
        kw = dict(o)
        if kw.pop("tlimstr", None):
            kw["tlim"] = time_texts(o)

        def prepare(i, out):
            """an output left by an earlier batch, or by something that broke"""
            d = s["done"] + [False] * len(files)
            if not (d[i] or (s["spoilt"] + [False] * len(files))[i]) or not os.path.isfile(paths[i]):
                return
            tp = os.path.join(out, os.path.basename(paths[i]) + ".nc")
            if d[i]:
                put(tp, cls.earlier(R, files[i]))
            else:
                put(tp, b"\x89HDF\r\n\x1a\nspoilt")
            t = os.stat(paths[i]).st_mtime - 60  # older than what it was made of, which has changed since
            if files[i].get("mt", -1) > 0:
                os.utime(tp, (t, t))

        # ---- each file alone, in a process of its own
        def one(i):
            a = R.dir(f"alone{i}")
            os.makedirs(os.path.join(a, "in"), exist_ok=True)
            src = os.path.join(a, "in", os.path.basename(paths[i]))
            if os.path.islink(paths[i]):
                os.symlink(os.readlink(paths[i]), src)
            elif os.path.isdir(paths[i]):
                os.makedirs(src)
            else:
                put(src, get(paths[i]))
            out = os.path.join(a, "in") if s["inplace"] else os.path.join(a, "out")
            os.makedirs(out, exist_ok=True)
            prepare(i, out)

            def do():
                val, exc = R.under(plan, lambda: gr.load(Path(src), Path(out), **kw))
                return type(exc).__name__ if exc is not None else None

            exc = must(forked(do), "conversion of a file alone")
            st = read(os.path.join(out, os.path.basename(src) + ".nc"))
            return exc, st

        want = {}
        alone = {}
        for i, p in enumerate(paths):
            if not chosen(p):
                continue
            exc, st = one(i)
            alone[os.path.basename(p)] = exc
            if st is not None:
                want[os.path.basename(p) + ".nc"] = st
            f = files[i]
            if not f.get("bad") and not o and not (s["done"][i] or s["spoilt"][i]):
                n = len(records(f["spec"]))
                if exc == "IndexError" and f["spec"]["fmt"] == "obs2":
                    continue  # documented limit of the speculative allocation
                if exc is not None:
                    raise Viol("alone", f"conversion of the good file {os.path.basename(p)} alone raised {exc}")

        out = din if s["inplace"] else R.dir("out")

        def reset():
            for q in os.listdir(out):
                if q.endswith(".nc") and not (out == din and os.path.join(din, q) in paths):
                    os.unlink(os.path.join(out, q))
                elif q.endswith(".tmp"):
                    os.unlink(os.path.join(out, q))
            for i in range(len(files)):
                if chosen(paths[i]) or not s["inplace"]:
                    prepare(i, out)

        unmatched = {}
        if not s["inplace"]:
            for i, p in enumerate(paths):
                if not chosen(p):
                    unmatched[os.path.basename(p) + ".nc"] = i

        def batch(extra, count=False, shim=None):
            w = R.world({**plan, "scandir": s["scandir"], **extra})

            def do():
                if s["cli"]:
                    a = [din, s["glob"], "-o", out]
                    if o.get("useindicators"):
                        a.append("-useindicators")
                    if o.get("fast") is False:
                        a.append("-strict")
                    if o.get("use"):
                        a += ["-u"] + o["use"]
                    if o.get("meas"):
                        a += ["-m"] + o["meas"]
                    if o.get("tlim"):
                        a += ["-t", *time_texts(o)]
                    cli("georinex.rinex2hdf5", a)
                else:
                    gr.batch_convert(Path(din), s["glob"], Path(out), **kw)

            if shim:
                shim[0].begin(out)
                if shim[1]:
                    shim[0].fault(*shim[1])
            val, exc = R.under(None, do, w)
            n = 0
            if shim:
                n = shim[0].d.simshim_ops()
                shim[0].end()
            return {"exc": type(exc).__name__ if exc is not None else None, "msg": str(exc)[:200], "n": n, "opens": w.opens, "reads": w.reads, "allocs": w.allocs, "lines": w.lines, "line_at": w.line_at(s["at"]), "fired": w.fired}

        def state():
            return {q: read(os.path.join(out, q)) for q in sorted(os.listdir(out)) if q.endswith(".nc") and not (out == din and os.path.join(din, q) in paths)}

        prior = {}

        def judge(what, missing_ok=0):
            got = state()
            lost = []
            for q in sorted(want):
                d = sdiff(want[q], got.get(q))
                if d:
                    if missing_ok and sdiff(prior.get(q), got.get(q)) is None:
                        lost.append(q)
                        continue
                    # an output present before a conversion that was disturbed
                    raise Viol("batch", f"{what}: {q}: {d}" + (f" (alone: {alone.get(q[:-3])})" if alone.get(q[:-3]) else ""))
            for q in sorted(got):
                if q not in want and q not in unmatched:
                    raise Viol("false", f"{what}: output {q} appeared, conversion of that file alone gives none ({alone.get(q[:-3])})")
            if len(lost) > missing_ok:
                raise Viol("batch", f"{what}: {len(lost)} outputs missing: {lost}")
            return lost

        # ---- the batch
        reset()
        r0 = must(forked(lambda: batch({"countlines": True} if s["stop"] == "kbd" else {}, shim=(Shim(), None))), "batch")
        if r0["exc"]:
            raise Viol("stopped", f"batch conversion raised {r0['exc']}: {r0['msg']}")
        judge("batch")
        for k, v in r0["fired"].items():
            R.fired[k] += v
        nb = sum(1 for f in files if f.get("bad"))
        for f in files:
            if f.get("bad"):
                R.fired[f"bad_file:{f['bad']}"] += 1
        R.count["files"] += len(files)
        R.count["outputs"] += len(want)
        R.sig.append((tuple(sorted(f.get("bad") or f["spec"]["fmt"] for f in files)), s["cli"], s["inplace"]))
        R.nontrivial = len(files) > 1
        R.note(sorted(want), r0["n"], alone)
        # ---- again: nothing changes
        r1 = must(forked(lambda: batch({"scandir": s["scandir"] + 1})), "second batch")
        if r1["exc"]:
            raise Viol("stopped", f"second batch conversion raised {r1['exc']}: {r1['msg']}")
        judge("batch done twice")
        # ---- disturbed
        stop = s["stop"]
        if not stop:
            return
        reset()
        prior.update(state())
        sh = Shim()
        if stop in ("kill", "errno"):
            if not r0["n"]:
                return
            at = int(s["at"] * r0["n"])
            res = forked(lambda: batch({}, shim=(sh, (at, stop, getattr(__import__("errno"), s["err"])))))
            what = f"{stop} at storage operation {at} of {r0['n']}"
            if stop == "kill":
                if res != ("exit", 97):
                    if res[0] != "ok":
                        must(res, what)
                    return
            elif res[0] == "signal":
                R.count["library_died_of_fault"] += 1
            else:
                r2 = must(res, what)
                if r2["exc"]:
                    raise Viol("stopped", f"batch conversion with {what}: raised {r2['exc']}: {r2['msg']}")
                judge(f"batch with {what}", missing_ok=1)
            R.fired[f"batch:{stop}"] += 1
        elif stop == "kbd":
            at = r0["line_at"]
            r2 = must(forked(lambda: batch({"kbd": at})), "interrupted batch")
            if r2["exc"] != "KeyboardInterrupt":
                raise Viol("swallowed", f"interruption by the user at line event {at} of {r0['lines']} came out of the batch as {r2['exc']}")
            what = "user interruption"
            R.fired["batch:KeyboardInterrupt"] += 1
        else:
            k = s["tkind"]
            if "eio" in plan and k == "eio" or "openerr" in plan and k == "open":
                return
            cnt = {"open": "opens", "mem": "allocs", "eio": "reads"}[k]
            if not r0[cnt]:
                return
            at = 1 + int(s["at"] * r0[cnt])
            e = {"open": {"openerr": {"at": at, "errno": "EMFILE"}}, "mem": {"memerr": at}, "eio": {"eio": {"at": at}}}[k]
            r2 = must(forked(lambda: batch(e)), "disturbed batch")
            if r2["exc"]:
                raise Viol("stopped", f"batch conversion with one failing {k} raised {r2['exc']}: {r2['msg']}")
            what = f"one failing {k}"
            lost = judge(f"batch with {what}", missing_ok=1)
            R.count["outputs_lost_to_transient_fault"] += len(lost)
            R.fired[f"batch:transient_{k}"] += 1
        # ---- and done again
        r3 = must(forked(lambda: batch({})), "batch after the disturbance")
        if r3["exc"]:
            raise Viol("stopped", f"batch conversion after {what} raised {r3['exc']}: {r3['msg']}")
        judge(f"batch done again after {what}")

    @staticmethod
    def earlier(R, f):
        """bytes of an output an earlier batch left"""
        import hashlib

        key = os.path.join(R.root, "earlier-" + hashlib.sha256(json.dumps(f, sort_keys=True).encode()).hexdigest()[:12] + ".nc")
        if not os.path.exists(key):
            sp = dict(f["spec"])
            k = "epochs" if "epochs" in sp else "recs"
            sp[k] = sp[k][:1]  # not what the file holds now
            src = os.path.join(R.dir("earlier"), "e" + gen.suffix(sp))
            put(src, gen.render(sp)[0])

            def mk():
                val, exc = R.under({}, lambda: gr.load(Path(src), out=Path(key), fast=False))
                if exc is not None:
                    raise exc
                return 0

            must(forked(mk), "conversion alone")
        return get(key)


# --------------------------------------------------------------------------
class C15:
    @classmethod
    def gen(cls, r, task):
        mode = r.choice(["loc", "loc", "loc", "time", "time", "locio"])
        n = r.randrange(2, 8)
        good = r.randrange(1, n + 1)
        fmts = ("obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "sp3")
        files = [gen_file(r, i, i >= good, fmts) for i in range(n)]
        if mode == "locio":
            files = [f for f in files if f["spec"]["fmt"] != "sp3" and f.get("bad") in (None, "empty", "garbage", "text", "cut", "hdrcut", "hdronly", "nav4", "met")] or [gen_file(r, 0, False, ("obs2", "obs3"))]
            for f in files:
                f["form"] = None
        r.shuffle(files)
        same = mode in ("loc", "time") and r.random() < (0.4 if mode == "loc" else 0.3)
        if same:  # stations in directories of their own, files named alike
            for f in files:
                f["name"] = "site1230" + gen.suffix(f["spec"])
                f["sub"] = True
        elif mode != "locio" and r.random() < 0.3:
            related_names(r, files)
        if mode != "locio" and r.random() < 0.6:
            linked(r, files)
        p = gen_plan(r)
        p.pop("poison", None)
        return {"files": files, "mode": mode, "plan": p, "scandir": r.randrange(1 << 30), "glob": r.choice([["*"], ["*o*", "*n*"], ["*"]]), "order": r.randrange(1 << 30), "twice": r.random() < 0.2, "nc": r.random() < 0.25, "kbd": r.random() if r.random() < 0.15 else None}

    @classmethod
    def run(cls, R, s):
        files = s["files"]
        mode = s["mode"]
        plan = dict(s["plan"])
        din = R.dir("in")
        paths = []
        if any(f.get("sub") for f in files):
            if mode == "time":
                s = {**s, "glob": ["*/*"] if len(s["glob"]) == 1 else ["**/*", "?/*"]}
            for i, f in enumerate(files):
                paths.append(make(f, R.dir(f"in/{i}")))
        else:
            for f in files:
                paths.append(make(f, din))
        if not any(f.get("sub") for f in files):
            plan.update(faults_of(files, paths))
        for f in files:
            if f.get("bad"):
                R.fired[f"bad_file:{f['bad']}"] += 1
        R.count["files"] += len(files)
        R.sig.append((mode, tuple(sorted(f.get("bad") or f["spec"]["fmt"] for f in files))))
        R.nontrivial = len(files) > 1
        if mode == "time":
            return cls.times(R, s, plan, din, paths)
        return cls.locations(R, s, plan, din, paths)

    # ---- receiver locations
    @classmethod
    def locations(cls, R, s, plan, din, paths):
        files = s["files"]
        io_ = s["mode"] == "locio"
        if s["nc"] and not io_:
            # outputs of conversions are located too
            def mk():
                out = {}
                for i, p in enumerate(paths):
                    if files[i].get("bad") or files[i]["spec"]["fmt"] not in ("obs2", "obs3") or i % 2:
                        continue
                    val, exc = R.under(plan, lambda: gr.load(Path(p), out=Path(p + ".nc"), fast=False))
                    if exc is None:
                        out[i] = p + ".nc"
                return out

            nc = must(forked(mk), "conversion")
            for i, p in nc.items():
                paths[int(i)] = p
        if io_:
            texts = []
            for p in paths:
                b = get(p)
                texts.append(b.decode("ascii", "ignore").replace("\r\n", "\n").replace("\r", "\n"))

        def src(i):
            return io.StringIO(texts[i]) if io_ else Path(paths[i])

        def table(fr):
            return [[str(k), cls.num(a), cls.num(b), cls.num(c)] for k, (a, b, c) in zip(fr.index, fr.values.tolist())]

        def alone():
            out = []
            for i in range(len(paths)):
                val, exc = R.under(plan, lambda: gg.get_locations([src(i)]))
                if exc is not None:
                    raise Viol("stopped", f"locating {os.path.basename(paths[i])} alone raised {type(exc).__name__}: {exc}")
                out.append([row[1:] for row in table(val)])
            return out

        res = forked(alone)
        if res[0] == "error" and "Viol" in res[1]:
            raise Viol("stopped", res[1].strip().splitlines()[-1][:600])
        one = must(res, "locating a file alone")
        order = list(range(len(paths)))
        random.Random(s["order"]).shuffle(order)
        if s["twice"]:
            order = order + order[:1]
        val, exc = R.under(plan, lambda: gg.get_locations([src(i) for i in order]))
        if exc is not None:
            raise Viol("stopped", f"locating {len(order)} files raised {type(exc).__name__}: {exc}")
        got = table(val)
        want = []
        for k, i in enumerate(order):
            for row in one[i]:
                want.append([str(k) if io_ else os.path.basename(paths[i]), *row])
        key = lambda x: json.dumps(x)  # noqa: E731
        if sorted(got, key=key) != sorted(want, key=key):
            x = [q for q in want if q not in got][:2]
            y = [q for q in got if q not in want][:2]
            raise Viol("locations", f"table of {len(order)} files: missing {x}, not what the file alone gives {y}" if x or y else f"{len(got)} rows for {len(want)} readable files")
        # ---- the truth
        import pymap3d

        for i, f in enumerate(files):
            sp = f["spec"]
            if f.get("bad") or sp["fmt"] not in ("obs2", "obs3"):
                continue
            pos = sp.get("pos")
            if not pos:
                if one[i]:
                    raise Viol("locations", f"{os.path.basename(paths[i])} states no position, reported at {one[i]}")
                continue
            xyz = [float(f"{p / 1000:14.4f}") for p in pos]
            lat, lon, _ = pymap3d.ecef2geodetic(*xyz)
            iv = float(sp["interval"]) if sp.get("interval") else None
            if len(one[i]) != 1 or not (abs(one[i][0][0] - lat) < 1e-9 and abs(one[i][0][1] - lon) < 1e-9):
                raise Viol("locations", f"{os.path.basename(paths[i])} is at {lat:.6f} {lon:.6f}, reported {one[i]}")
            if iv is not None and one[i][0][2] != iv:
                raise Viol("locations", f"{os.path.basename(paths[i])} has interval {iv}, reported {one[i]}")
        R.note(got)

    @staticmethod
    def num(x):
        try:
            x = float(x)
        except (TypeError, ValueError):
            return str(x)
        return None if np.isnan(x) else x

    # ---- time listing command
    @classmethod
    def times(cls, R, s, plan, din, paths):
        files = s["files"]

        def blocks(text):
            """lines of the report, by file"""
            out = {}
            cur = None
            for ln in text.splitlines():
                m = re.match(r"^(.*): (\d{4}-\d\d-\d\dT\S+) (\d{4}-\d\d-\d\dT\S+) (\d+)( \S+)?$", ln)
                if m:
                    cur = m.group(1)
                    out.setdefault(cur, []).append([m.group(2), m.group(3), int(m.group(4)), (m.group(5) or "").strip(), []])
                elif cur is not None:
                    out[cur][-1][4].append(ln)
            return out

        def run(argv, extra):
            o = io.StringIO()

            def do():
                with contextlib.redirect_stdout(o):
                    cli("georinex.time", argv)

            val, exc = R.under({**plan, **extra}, do)
            return {"exc": type(exc).__name__ if exc is not None else None, "msg": str(exc)[:200], "b": blocks(o.getvalue()), "lines": R.w.lines, "line_at": R.w.line_at(s["kbd"] or 0)}

        rel = {p: os.path.relpath(p, din) for p in paths}
        fits = lambda q, g: g == "**/*" or len(Path(q).parts) == len(Path(g).parts) and Path(q).match(g)  # noqa: E731
        hits = lambda i: sum(1 for g in s["glob"] if fits(rel[paths[i]], g))  # noqa: E731
        chosen = [i for i in range(len(paths)) if hits(i)]
        # what the patterns choose
        found, exc = R.under({**plan, "scandir": s["scandir"]}, lambda: gr.globber(Path(din), s["glob"]))
        if exc is not None:
            raise Viol("stopped", f"globber raised {type(exc).__name__}: {exc}")
        real = sorted({str(p) for p in found})
        if real != sorted({paths[i] for i in chosen if os.path.isfile(paths[i])} | {str(q) for q in Path(din).rglob("inner.txt") if any(fits(os.path.relpath(q, din), g) for g in s["glob"])}):
            raise Viol("times", f"patterns {s['glob']} choose {[os.path.relpath(q, din) for q in real]} of {sorted(rel.values())}")

        def alone():
            return [run([paths[i]], {}) if os.path.isfile(paths[i]) else {"exc": "-", "b": {}} for i in chosen]

        ones = must(forked(alone), "time command on a file alone")
        kx = {"countlines": True} if s["kbd"] is not None else {}
        res = must(forked(lambda: run([din, "-glob", *s["glob"]], {"scandir": s["scandir"], **kx})), "time command on a directory")
        if res["exc"]:
            raise Viol("stopped", f"time command on a directory raised {res['exc']}: {res['msg']}")
        want: dict = {}
        most: dict = {}  # a file chosen by several patterns may be reported once for each
        for i, a in zip(chosen, ones):
            for k, v in a["b"].items():
                want.setdefault(k, []).extend(json.dumps(x) for x in v)
                most.setdefault(k, []).extend([json.dumps(x) for x in v] * hits(i))
        R.fired["listing_order"] += 1
        for k in sorted(set(want) | set(res["b"])):
            g = sorted(json.dumps(x) for x in res["b"].get(k, []))
            if k not in want or k not in res["b"] or g not in (sorted(want[k]), sorted(most[k])):
                raise Viol("times", f"report of the directory on {k}: {str(res['b'].get(k))[:300]}, on that file alone: {str(want.get(k))[:300]}")
        for i, a in zip(chosen, ones):
            f = files[i]
            sp = f["spec"]
            if f.get("bad") or sp["fmt"] == "sp3":
                continue
            name = os.path.basename(paths[i])
            t = C14.truth(sp)
            if a["exc"] or name not in a["b"]:
                raise Viol("times", f"time command on the good file {name}: {a['exc']}: {a.get('msg')}")
            b = a["b"][name][0]  # the command was given this file only
            from datetime import datetime

            ms = lambda x: gen.us(datetime.fromisoformat(x)) // 1000  # noqa: E731
            if [ms(b[0]), ms(b[1]), b[2]] != [t[0], t[-1], len(t)]:
                raise Viol("times", f"time command on {name}: {b[:3]}, the file has {len(t)} epochs from {gen.dt(t[0] * 1000)} to {gen.dt(t[-1] * 1000)}")
            if sp.get("interval") and sp["fmt"] in ("obs2", "obs3") and (not b[3] or float(b[3]) != float(sp["interval"])):
                raise Viol("times", f"time command on {name}: interval {b[3] or None}, the file says {sp['interval']}")
        if s["kbd"] is not None and res["lines"]:
            at = res["line_at"]
            r2 = must(forked(lambda: run([din, "-glob", *s["glob"]], {"scandir": s["scandir"], "kbd": at})), "interrupted time command")
            if r2["exc"] != "KeyboardInterrupt":
                raise Viol("swallowed", f"interruption by the user at line event {at} came out of the time command as {r2['exc']}")
            R.fired["KeyboardInterrupt"] += 1
        R.note(sorted(want))
