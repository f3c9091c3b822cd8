"""The properties as simulated scenarios: `gen` draws a scenario from a seed,
`run` executes it against the real georinex and judges it."""
from __future__ import annotations
import hashlib
import json
import random

import simlib
from simlib import Run, Viol
import p_fidelity
import p_env
import p_stream
import p_store
import p_batch
import p_conc
import p_cli

PROPS = {
    "C01": p_env.C01,
    "C02": p_fidelity.C02,
    "C03": p_fidelity.C03,
    "C04": p_fidelity.C04,
    "C05": p_fidelity.C05,
    "C06": p_fidelity.C06,
    "C07": p_stream.C07,
    "C08": p_stream.C08,
    "C09": p_store.C09,
    "C10": p_store.C10,
    "C11": p_batch.C11,
    "C12": p_conc.C12,
    "C13": p_env.C13,
    "C14": p_fidelity.C14,
    "C15": p_batch.C15,
    "C17": p_cli.C17,
}


def execute(task: dict, scratch: str) -> dict:
    P = PROPS[task["pid"]]
    R = Run(task, scratch)
    drawn = "scn" not in task
    scn = P.gen(random.Random(task["seed"]), task) if drawn else task["scn"]
    scn = json.loads(json.dumps(scn))
    R.scn = scn
    pristine = json.dumps(scn)
    out: dict = {"viol": None}
    if task.get("always_scn"):
        out["scn"] = json.loads(pristine)
    try:
        if not task.get("always_scn"):
            res = P.run(R, scn)
            if res:
                out.update(res)
    except Viol as v:
        out["viol"] = [v.cls, v.msg[:1200]]
        out["scn"] = R.scn
        R.note("viol", v.cls, v.msg)
    if task.get("want_scn") and "scn" not in out:
        out["scn"] = json.loads(pristine)
    if task.get("want_scn"):
        out["sample"] = sample(json.loads(pristine))
    out["stats"] = {
        "fired": dict(R.fired),
        "count": dict(R.count),
        "sig": sorted(set("/".join(str(j) for j in s) for s in R.sig)),
        "nontrivial": hashlib.sha256(pristine.encode()).hexdigest()[:16] if R.nontrivial else None,
    }
    out["knownhits"] = R.knownhits
    out["trace"] = R.hash.hexdigest()[:24]
    return out


def sample(x, depth=0):
    """a scenario, abridged for the evidence file"""
    if isinstance(x, dict):
        return {k: sample(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 4 or depth > 6:
            return [sample(v, depth + 1) for v in x[:2]] + [f"... {len(x)} in all"] if x else []
        return [sample(v, depth + 1) for v in x]
    return x
