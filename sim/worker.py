"""Worker: imports the real georinex once, then runs every scenario in a forked
child, so that no run sees what an earlier run left in the process."""
from __future__ import annotations
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import warnings

warnings.simplefilter("ignore")
import gc
import json
import logging
import resource
import select
import shutil
import signal
import time
import traceback

import seam

seam.install()
import netCDF4  # noqa: F401,E402
import xarray  # noqa: E402

logging.disable(logging.CRITICAL)
import georinex  # noqa: E402
import georinex.geo  # noqa: E402,F401

assert os.path.realpath(georinex.__file__).startswith(seam.PKG), georinex.__file__
import props  # noqa: E402

CPU_LIMIT = 60
WALL_LIMIT = 400


def warm():
    import io

    import gen
    import random

    for f in ("obs2", "obs3", "nav2", "nav3"):
        sp = gen.gen(random.Random(1), f, simple=True)
        try:
            georinex.load(io.StringIO(gen.render(sp)[0].decode("ascii", "ignore")))
        except Exception:
            pass  # for the runs to judge
    import numpy as np

    np.random.seed(0)


def child(task: dict, wfd: int, scratch: str):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        os.makedirs(scratch)
        os.chdir(scratch)
        out = props.execute(task, scratch)
    except BaseException:
        out = {"error": traceback.format_exc()[-3000:]}
    data = json.dumps(out).encode()
    i = 0
    while i < len(data):
        i += os.write(wfd, data[i : i + 65536])
    os._exit(0)


def run(task: dict, scratch: str) -> dict:
    rfd, wfd = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        child(task, wfd, scratch)
    os.close(wfd)
    buf = b""
    timed = False
    while True:
        left = WALL_LIMIT - (time.time() - t0)
        if left <= 0:
            timed = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if r:
            c = os.read(rfd, 1 << 16)
            if not c:
                break
            buf += c
    if timed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)  # stragglers of this run only
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed:
        return {"error": "run exceeded the wall clock limit"}
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGXCPU:
            return {"hang": True}
        return {"signal": os.WTERMSIG(st)}
    try:
        return json.loads(buf)
    except ValueError:
        return {"error": f"no result from run (status {st})"}


def main():
    base = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    warm()
    gc.collect()
    gc.freeze()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    n = 0
    for line in sys.stdin:
        task = json.loads(line)
        n += 1
        res = run(task, os.path.join(base, f"r{n}"))
        res["id"] = task.get("id")
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
