"""C12 threads in one process."""
from __future__ import annotations
import io
import os
import random
from pathlib import Path

import georinex as gr
import georinex.geo as gg
import gen
import model
import sched_sim
import seam
from p_env import gen_form, materialise
from p_fidelity import fname, gen_opts
from p_store import Reader, sdiff
from simlib import Run, Viol, call, crx_able, csum, first_diff, forked, gen_plan, is_fast_refusal, must, outcome, put, records, source


class C12:
    @classmethod
    def gen(cls, r, task):
        n = r.choice([1, 1, 2, 2, 3])
        files = []
        first = None
        tiny = r.random() < 0.35  # so that every place in one meets every place in the other
        for i in range(n):
            fmt = r.choice(["obs2", "obs2", "obs3", "obs3", "nav2", "nav3", "nav3", "sp3"])
            if first and r.random() < 0.5:
                fmt = first  # two files of one kind meet in the same code
            first = first or fmt
            if tiny:
                sp = gen.gen(r, fmt, nep=1, simple=True) if fmt in ("obs2", "obs3", "sp3") else gen.gen(r, fmt, nrec=r.choice([1, 2]), simple=True)
                if fmt in ("obs2", "obs3"):
                    sp["epochs"] = [{**e, "o": e["o"][:2]} for e in sp["epochs"]]
                    if r.random() < 0.6:
                        sp.pop("interval", None)
            else:
                sp = gen.gen(r, fmt, nep=r.choice([1, 2, 4])) if fmt in ("obs2", "obs3", "sp3") else gen.gen(r, fmt, nrec=r.choice([2, 4, 6]))
            files.append({"spec": sp, "name": f"t{i}_" + fname(r, sp), "form": gen_form(r, sp, 0.1 if tiny else 0.25)})
            if r.random() < 0.15:
                files[-1]["cut"] = r.random()
        threads = []
        for _ in range(r.choice([2, 2, 2, 3, 4])):
            i = r.randrange(n)
            sp = files[i]["spec"]
            fmt = sp["fmt"]
            op = "load" if fmt == "sp3" else r.choice(["load", "load", "load", "load", "time", "header", "info", "convert", "locate", "batch"])
            t = {"op": op, "i": i, "src": r.choice(["path", "path", "str", "io"]) if fmt != "sp3" and op in ("load", "time", "header", "info") else "path"}
            if op == "load" and fmt != "sp3" and r.random() < 0.5:
                t["o"] = gen_opts(r, sp)
            elif op in ("load", "convert") and fmt in ("obs2", "obs3") and r.random() < 0.5:
                t["o"] = {"fast": False}
            if r.random() < 0.12 and op == "load":
                t["o"] = {"tlim": [10**15 + 5, 10**15]}  # one that fails
            threads.append(t)
        x = r.random()
        if x < 0.45:
            sched = {"few": [[r.random(), r.randrange(4)] for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]}
        else:
            sched = {"dense": [r.choice([1, 2, 3, 5, 10, 30, 100, 300]), r.randrange(1 << 30)]}
        return {"files": files, "threads": threads, "sched": sched, "more": [r.randrange(1 << 30) for _ in range(5)], "plan": {"bufsize": r.choice([8192, 1024, 128])}}

    @classmethod
    def run(cls, R, s):
        plan = s["plan"]
        paths, datas = [], []
        for i, f in enumerate(s["files"]):
            name, blob = materialise(f)
            p = os.path.join(R.dir(f"in{i}"), name)
            data = gen.render(f["spec"])[0]
            if f.get("cut") is not None:  # those that work on it fail, or have what is left
                blob, data = blob[: int(f["cut"] * len(blob))], data[: int(f["cut"] * len(data))]
            put(p, blob)
            paths.append(p)
            datas.append(data)
        threads = [t for t in s["threads"] if t["i"] < len(paths)]
        if len(threads) < 2:
            return
        reader = Reader()
        try:
            cls.play(R, s, plan, paths, datas, threads, reader)
        finally:
            reader.close()

    @classmethod
    def play(cls, R, s, plan, paths, datas, threads, reader):
        def bodies(out):
            def mk(k, t):
                def body():
                    o = t.get("o") or {}
                    src = source(t["src"], paths[t["i"]], datas[t["i"]])
                    if t["op"] == "convert":
                        return call("load", src, o, out=Path(os.path.join(out, f"out{k}.nc")))
                    if t["op"] == "batch":
                        d = os.path.join(out, f"batch{k}")
                        os.makedirs(d)
                        gr.batch_convert(Path(os.path.dirname(paths[t["i"]])), "*", Path(d))
                        return None
                    if t["op"] == "locate":
                        return gg.get_locations([src])
                    return call(t["op"], src, o)

                return body

            return [mk(k, t) for k, t in enumerate(threads)]

        def alone(k):
            out = R.dir("alone")
            w = R.world(plan)
            with w:
                sc = sched_sim.Sched([bodies(out)[k]], [])
                sc.log = []
                sc.run()
            val, exc = sc.results[0]
            if exc is not None and not isinstance(exc, Exception):
                raise exc
            seen: dict = {}
            for i, q in enumerate(sc.log):
                seen.setdefault(q, []).append(i + 1)
            return {"o": outcome(val, exc), "steps": sc.step, "places": [[v[0], v[-1], v[len(v) // 3]] for v in seen.values()], "msg": str(exc)[:200] if exc is not None else ""}

        refs = []
        for k in range(len(threads)):
            refs.append(must(forked(lambda: alone(k)), f"{threads[k]['op']} alone"))
        ncs = {k: reader(os.path.join(R.root, "alone", f"out{k}.nc")) for k, t in enumerate(threads) if t["op"] == "convert"}
        bat = lambda d, k, t: reader(os.path.join(d, f"batch{k}", os.path.basename(paths[t["i"]]) + ".nc"))  # noqa: E731
        bats = {k: bat(os.path.join(R.root, "alone"), k, t) for k, t in enumerate(threads) if t["op"] == "batch"}
        total = sum(q["steps"] for q in refs)
        sd = s["sched"]
        dense = None
        switches = []
        if "abs" in sd:
            switches = sd["abs"]
        elif "few" in sd:
            switches = [[1 + int(f * total), t] for f, t in sd["few"]]
        else:
            dense = sd["dense"]
        cls.together(R, s, plan, paths, threads, bodies, refs, ncs, bats, bat, reader, switches, dense, R.dir("out"))
        if "abs" in sd:
            return
        # more schedules of the same threads, which change hands at drawn places of the code
        for j, x in enumerate(s.get("more", [])):
            q = random.Random(x)
            order = list(range(len(threads)))
            q.shuffle(order)
            step = 1
            sw = [[1, order[0]]]
            for k in order[: q.choice([1, 1, 2])]:
                step += q.choice(q.choice(refs[k]["places"] or [[1]])) if k != order[-1] else 0
                to = q.choice([z for z in order if z != k])
                sw.append([step, to])
                if q.random() < 0.5 and refs[to]["places"]:
                    step += q.choice(q.choice(refs[to]["places"]))
                    sw.append([step, k])
            cls.together(R, s, plan, paths, threads, bodies, refs, ncs, bats, bat, reader, sw, None, R.dir(f"out_{j}"))

    @classmethod
    def together(cls, R, s, plan, paths, threads, bodies, refs, ncs, bats, bat, reader, switches, dense, out):
        w = R.world(plan)
        with w:
            sc = sched_sim.Sched(bodies(out), switches, dense)
            ok = sc.run(timeout=120.0)
        R.absorb(w, trace=ok)
        if not ok:
            raise Viol("hang", f"{len(threads)} threads did not finish")
        R.note(sc.step, sc.made)
        R.count["steps"] += sc.step
        R.count["schedules"] += 1
        R.count["switches"] += len(sc.made)
        R.fired["thread_switch"] += len(sc.made)
        if sc.made:
            R.nontrivial = True
        R.sig.append((tuple(sorted((t["op"], s["files"][t["i"]]["spec"]["fmt"]) for t in threads)), csum({"m": sc.made})[:8]))
        for k, t in enumerate(threads):
            val, exc = sc.results[k]
            d = first_diff(refs[k]["o"], outcome(val, exc))
            if d:
                s["sched"] = {"abs": sc.made}
                raise Viol("interference", f"thread {k} ({t['op']} of {os.path.basename(paths[t['i']])}, {t.get('o') or {}}) with {len(threads) - 1} others differs from alone: {d}" + (f" ({type(exc).__name__}: {str(exc)[:200]})" if exc is not None else ""))
            if t["op"] == "batch":
                d = sdiff(bats[k], bat(out, k, t))
                if d:
                    s["sched"] = {"abs": sc.made}
                    raise Viol("interference", f"thread {k}: output of the batch with {len(threads) - 1} others: {d}")
            if t["op"] == "convert":
                d = sdiff(ncs[k], reader(os.path.join(out, f"out{k}.nc")))
                if d:
                    s["sched"] = {"abs": sc.made}
                    raise Viol("interference", f"thread {k}: output of the conversion with {len(threads) - 1} others: {d}")
