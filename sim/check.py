#!/opt/venv/bin/python
"""Driver.

    check.py <PROPERTY>           seeded search (VERIF_SEED, VERIF_TIER)
    check.py replay <file>        re-execute a replay file
    check.py selftest [PROPERTY]  determinism of the simulator itself
"""
from __future__ import annotations
import hashlib
import json
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("SIM_REPO", "/repo")
NW = int(os.environ.get("SIM_WORKERS", "8"))
KNOWN = VERIF / "known_findings.txt"

# runs per property: quick, thorough
RUNS = {
    "C01": (1100, 20000), "C02": (3600, 80000), "C03": (3600, 80000), "C04": (3600, 80000),
    "C05": (2800, 60000), "C06": (3600, 80000), "C07": (1800, 40000), "C08": (1600, 36000),
    "C09": (420, 9000), "C10": (360, 8000), "C11": (360, 8000), "C12": (850, 20000),
    "C13": (1700, 40000), "C14": (3800, 80000), "C15": (3200, 64000), "C17": (1000, 25000),
}
CAP = {"quick": 150, "thorough": 3 * 3600}


def seed_of(master, pid, i):
    return int(hashlib.sha256(f"{master}:{pid}:{i}".encode()).hexdigest()[:12], 16)


def build_shim(tmp: Path) -> str | None:
    so = tmp / "shim.so"
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-o", str(so), str(HERE / "shim.c"), "-ldl"], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr, file=sys.stderr)
        raise SystemExit(2)
    return str(so)


def worker_env(tmp: Path, shim: str | None, hashseed: int, posix: bool) -> dict:
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "USER", "SIM_REPO", "TMPDIR", "VERIF_TIER")}
    env.update(
        PYTHONHASHSEED=str(hashseed % 4294967295),
        PYTHONPYCACHEPREFIX=str(tmp / "pyc"),
        MPLBACKEND="Agg",
        MPLCONFIGDIR=str(tmp / "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
        TZ="UTC",
        HDF5_USE_FILE_LOCKING="TRUE",
        TMPDIR=str(tmp),
    )
    if shim:
        env["LD_PRELOAD"] = shim
    if posix:
        env.update(LC_ALL="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    else:
        env.update(LC_ALL="C.UTF-8")
    return env


class Worker:
    def __init__(self, tmp: Path, shim, hashseed: int, posix: bool, name: str):
        self.hashseed, self.posix = hashseed, posix
        self.base = tmp / f"w{name}"
        self.base.mkdir()
        self.err = open(tmp / f"w{name}.err", "wb")
        self.p = subprocess.Popen(
            [PY, "-B", str(HERE / "worker.py"), str(self.base)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=worker_env(tmp, shim, hashseed, posix), cwd=str(self.base), bufsize=0,
        )
        self.buf = b""
        self.errname = tmp / f"w{name}.err"
        self.ready = False
        self.busy = None

    def send(self, task):
        self.busy = task
        self.p.stdin.write((json.dumps(task) + "\n").encode())

    def feed(self) -> list[dict]:
        c = os.read(self.p.stdout.fileno(), 1 << 20)
        if not c:
            raise RuntimeError("worker died: " + self.errname.read_bytes()[-3000:].decode("latin-1"))
        self.buf += c
        out = []
        while b"\n" in self.buf:
            ln, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(ln))
        return out

    def call(self, task) -> dict:
        """synchronous"""
        while not self.ready:
            for m in self.feed():
                if m.get("ready"):
                    self.ready = True
        self.send(task)
        while True:
            for m in self.feed():
                self.busy = None
                return m

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


def workers(tmp, n, master):
    shim = build_shim(tmp)
    return [Worker(tmp, shim, (master * 1000003 + 17 * w) % 4294967295, w % 2 == 1, str(w)) for w in range(n)]


def known_ids(pid):
    out = {}
    if KNOWN.exists():
        for ln in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def verdict(res: dict):
    """(class, message) of a violation, or None; raises on harness errors"""
    if res.get("error"):
        raise RuntimeError(res["error"])
    if res.get("hang"):
        return ("hang", "the operation did not finish (60 s of processor time)")
    if res.get("signal"):
        return ("crash", f"the process died by signal {res['signal']}")
    v = res.get("viol")
    return (v[0], v[1]) if v else None


def minimise(w: Worker, pid, scn, cls, budget_s=75, budget_n=260):
    import shrink

    t0 = time.time()
    n = 0
    cur = scn
    improved = True
    while improved and time.time() - t0 < budget_s and n < budget_n:
        improved = False
        for cand in shrink.candidates(cur):
            if time.time() - t0 > budget_s or n >= budget_n:
                break
            n += 1
            r = w.call({"id": -1, "pid": pid, "scn": cand, "known": sorted(known_ids(pid))})
            if r.get("error"):
                continue
            try:
                v = verdict(r)
            except RuntimeError:
                continue
            if v and v[0] == cls:
                cur = cand
                improved = True
                break
    return cur, n


def joint_c01(results):
    """compare the canonical results of the variants of one scenario"""
    base = None
    for v, r in results:
        d = r["digest"]
        if d.get("lowmem"):
            continue
        if base is None:
            base = (v, d)
            continue
        if d["sum"] != base[1]["sum"]:
            for k in base[1]["parts"]:
                if d["parts"].get(k) != base[1]["parts"][k]:
                    return ("env", f"result differs between environments {base[0]} and {v}: {k}: {str(base[1]['parts'][k])[:300]} against {str(d['parts'].get(k))[:300]}")
            return ("env", f"result differs between environments {base[0]} and {v}")
    return None


def main_check(pid: str) -> int:
    sys.path.insert(0, str(HERE))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    master = int(os.environ.get("VERIF_SEED", "1") or "1")
    nruns = RUNS[pid][tier == "thorough"]
    if os.environ.get("SIM_RUNS"):
        nruns = int(os.environ["SIM_RUNS"])
    cap = float(os.environ.get("SIM_CAP", CAP[tier]))
    known = known_ids(pid)
    t0 = time.time()
    tmp = Path(tempfile.mkdtemp(prefix="grsim-"))
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    try:
        ws = workers(tmp, NW, master)
        multi = pid == "C01"
        tasks: list[tuple] = []
        for i in range(nruns):
            if multi:
                for v in range(3):
                    tasks.append((i, v))
            else:
                tasks.append((i, None))
        nxt = {w: 0 for w in range(NW)}
        # C01: the variants of a run go to different workers (hash seed, locale)
        queues: list[list] = [[] for _ in range(NW)]
        if multi:
            for k, (i, v) in enumerate(tasks):
                queues[(i + v * 3) % NW].append((i, v))
        pos = 0
        results: dict = {}
        partial: dict = {}
        viols: dict[int, tuple] = {}
        stop_at = None
        errors = []
        samples = []
        stats: Counter = Counter()
        fired: Counter = Counter()
        fired_runs: Counter = Counter()
        sigs = set()
        nontriv = set()
        knownhits: dict[str, int] = {}
        evals = 0
        recheck = {}
        capped = False

        def next_task(wi):
            nonlocal pos, capped
            if time.time() - t0 > cap:
                capped = True
                return None
            if stop_at is not None:
                return None
            if multi:
                if nxt[wi] < len(queues[wi]):
                    nxt[wi] += 1
                    return queues[wi][nxt[wi] - 1]
                return None
            if pos < len(tasks):
                pos += 1
                return tasks[pos - 1]
            return None

        def mk(task):
            i, v = task
            d = {"id": i, "pid": pid, "seed": seed_of(master, pid, i), "index": i, "tier": tier, "known": sorted(known)}
            if v is not None:
                d["variant"] = v
            if i < 3:
                d["want_scn"] = True
            return d

        live = set(range(NW))
        while live:
            fds = {ws[k].p.stdout.fileno(): k for k in live}
            r, _, _ = select.select(list(fds), [], [], 30)
            for fd in r:
                k = fds[fd]
                w = ws[k]
                for m in w.feed():
                    if m.get("ready"):
                        w.ready = True
                    else:
                        task = w.busy
                        w.busy = None
                        i = task["index"]
                        evals += 1
                        if m.get("error"):
                            errors.append((i, m["error"]))
                        else:
                            v = verdict(m)
                            if v is None and multi:
                                partial.setdefault(i, {})[task["variant"]] = m
                                if len(partial[i]) == 3:
                                    v = joint_c01([(q, partial[i][q]) for q in sorted(partial[i])])
                                    del partial[i]
                            if v:
                                viols[i] = (v, m.get("scn"), k)
                                stop_at = i
                            st = m.get("stats", {})
                            for q, c in (st.get("fired") or {}).items():
                                fired[q] += c
                                fired_runs[q] += 1
                            for q, c in (st.get("count") or {}).items():
                                stats[q] += c
                            if st.get("sig"):
                                for s in st["sig"] if isinstance(st["sig"], list) else [st["sig"]]:
                                    sigs.add(s)
                            if st.get("nontrivial"):
                                nontriv.add(st["nontrivial"])
                            for q in m.get("knownhits", []):
                                knownhits[q] = knownhits.get(q, 0) + 1
                            if m.get("sample") and len(samples) < 4:
                                samples.append(m["sample"])
                            if len(recheck) < 3 and not multi and m.get("trace"):
                                recheck[i] = (k, m["trace"], m.get("viol"))
                if w.ready and w.busy is None:
                    t = next_task(k)
                    if t is None:
                        live.discard(k)
                    else:
                        w.send(mk(t))
        # ---- determinism probe: the same seeds again in another process
        probe = []
        if not viols:
            for i, (k, tr, _v) in sorted(recheck.items()):
                m = ws[(k + 1) % NW].call(mk((i, None)))
                probe.append({"run": i, "same": m.get("trace") == tr})
        wall = time.time() - t0
        nv = len(viols)
        rep = None
        if viols:
            i = min(viols)
            (cls, msg), scn, k = viols[i]
            rep = ev / "replays"
            rep.mkdir(exist_ok=True)
            rep = rep / f"{pid}-{seed_of(master, pid, i):012x}.json"
            if multi:
                if scn is None:
                    scn = ws[k].call({**mk((i, 0)), "want_scn": True, "always_scn": True}).get("scn")
                envs = []
                for v in range(3):
                    kk = (i + v * 3) % NW
                    envs.append({"hashseed": ws[kk].hashseed, "posix": ws[kk].posix, "variant": v})
                scn, nmin = minimise_c01(ws, pid, scn, i, cls)
                doc = {"property": pid, "class": cls, "message": msg, "seed": seed_of(master, pid, i), "master_seed": master, "run": i, "joint": envs, "scenario": scn, "minimise_runs": nmin}
                rr = [(v, ws[(i + v * 3) % NW].call({"id": 0, "pid": pid, "scn": scn, "variant": v})) for v in range(3)]
                jv = verdict_c01(rr)
                if jv:
                    doc["message"] = msg = jv[1]
            else:
                w = ws[k]
                if scn is None:
                    m = w.call({**mk((i, None)), "want_scn": True, "always_scn": True})
                    scn = m.get("scn")
                nmin = 0
                if scn is not None and cls not in ("hang",):
                    scn, nmin = minimise(w, pid, scn, cls)
                final = w.call({"id": 0, "pid": pid, "scn": scn, "known": sorted(known)})
                fv = verdict(final) if not final.get("error") else None
                if fv:
                    msg = fv[1]
                doc = {"property": pid, "class": cls, "message": msg, "seed": seed_of(master, pid, i), "master_seed": master, "run": i, "hashseed": w.hashseed, "posix": w.posix, "trace": final.get("trace"), "minimise_runs": nmin, "scenario": scn}
            rep.write_text(json.dumps(doc, indent=1))
        # ---- evidence
        import props_meta

        meta = props_meta.META[pid]
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": len(nontriv),
            "rule": meta["rule"],
            "samples": samples or [{"note": "no run finished"}],
            "seeds": evals if not multi else evals // 3,
            "runs_per_hour": round(evals / max(wall, 1e-9) * 3600),
            "simulated_time": "georinex has no clock or timer: simulated time is counted in scheduler steps",
            "simulator_steps": {k: v for k, v in sorted(stats.items())},
            "faults_injected": dict(sorted(fired.items())),
            "runs_with_fault_kind": dict(sorted(fired_runs.items())),
            "distinct_states": len(sigs),
            "distinct_states_measure": meta["measure"],
            "real_components": meta["real"],
            "stub_components": meta["stub"],
            "determinism_probe": probe,
            "stopped_by_time_cap": capped,
            "known_findings_seen": knownhits,
        }
        doc = {"property": pid, "tier": tier, "seed": master, "level": meta["level"], "coverage": cov, "assumptions": meta["assume"], "wall_s": round(wall, 1), "violations": nv}
        (ev / f"{pid}.json").write_text(json.dumps(doc, indent=1) + "\n")
        for w in ws:
            w.close()
        for q in sorted(knownhits):
            print(f"KNOWN-FINDING: property={pid} {q}: {known[q]}")
        if viols:
            print(f"{pid}: {cls}: {msg}"[:1500])
            print(f"VIOLATION property={pid} replay={rep}")
            return 1
        if errors:
            print(f"{pid}: harness error in run {errors[0][0]} of {len(errors)} erroneous:\n{errors[0][1]}", file=sys.stderr)
            return 2
        if evals == 0:
            print("nothing ran", file=sys.stderr)
            return 2
        print(f"{pid}: held on {evals} runs in {wall:.0f} s; faults {dict(fired)}")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def verdict_c01(rr):
    """of the same scenario in several environments"""
    v = None
    for _, m in rr:
        v = v or (None if m.get("error") else verdict(m))
    return v or (joint_c01(rr) if all("digest" in m for _, m in rr) else None)


def minimise_c01(ws, pid, scn, i, cls, budget_s=60):
    import shrink

    t0 = time.time()
    n = 0
    cur = scn
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        for cand in shrink.candidates(cur):
            if time.time() - t0 > budget_s:
                break
            n += 1
            rr = [(v, ws[(i + v * 3) % NW].call({"id": 0, "pid": pid, "scn": cand, "variant": v})) for v in range(3)]
            v = verdict_c01(rr)
            if v and v[0] == cls:
                cur = cand
                improved = True
                break
    return cur, n


def main_replay(fn: str) -> int:
    doc = json.loads(Path(fn).read_text())
    pid = doc["property"]
    tmp = Path(tempfile.mkdtemp(prefix="grsim-"))
    try:
        shim = build_shim(tmp)
        if doc.get("joint"):
            rr = []
            for e in doc["joint"]:
                w = Worker(tmp, shim, e["hashseed"], e["posix"], f"j{e['variant']}")
                rr.append((e["variant"], w.call({"id": 0, "pid": pid, "scn": doc["scenario"], "variant": e["variant"]})))
                w.close()
            v = verdict_c01(rr)
            tr = None
        else:
            w = Worker(tmp, shim, doc["hashseed"], doc["posix"], "r")
            m = w.call({"id": 0, "pid": pid, "scn": doc["scenario"], "known": sorted(known_ids(pid))})
            w.close()
            v = verdict(m)
            tr = m.get("trace")
        if v is None:
            print(f"{pid}: no violation on replay")
            return 0
        exact = v[1] == doc["message"] and (tr is None or tr == doc.get("trace"))
        print(f"{pid}: {v[0]}: {v[1]}"[:1500])
        print("replay is exact" if exact else "replay fails differently from the recorded run")
        print(f"VIOLATION property={pid} replay={fn}")
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main_selftest(pids) -> int:
    """every run must give the same trace in another process, with another hash seed and locale"""
    tmp = Path(tempfile.mkdtemp(prefix="grsim-"))
    bad = 0
    try:
        ws = workers(tmp, 3, 7)
        for pid in pids:
            n = 0
            for i in range(int(os.environ.get("SIM_RUNS", "6"))):
                t = {"id": i, "pid": pid, "seed": seed_of(5, pid, i), "index": i, "tier": "quick", "known": sorted(known_ids(pid))}
                if pid == "C01":
                    t["variant"] = 0
                rs = [w.call(t) for w in ws] + [ws[0].call(t)]
                for r in rs:
                    if r.get("error"):
                        print(pid, i, r["error"])
                        bad += 1
                tr = {r.get("trace") for r in rs}
                n += 1
                if len(tr) != 1:
                    bad += 1
                    print(f"{pid} run {i}: traces differ {tr}")
            print(f"{pid}: {n} runs, 4 executions each")
        for w in ws:
            w.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.path.insert(0, str(HERE))
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        raise SystemExit(2)
    if a[0] == "replay":
        raise SystemExit(main_replay(a[1]))
    if a[0] == "selftest":
        raise SystemExit(main_selftest(a[1:] or sorted(RUNS)))
    raise SystemExit(main_check(a[0]))
