"""Runs the exhaustive comparison of a check over worker processes and reports.

A check is a list of tasks (function name, arguments); each task returns a Result.  The runner adds them up, prints
KNOWN-FINDING / VIOLATION lines, writes replay files and the evidence file, and chooses the exit status.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env


class Result:
    def __init__(self):
        self.n = {}          # counters
        self.viol = []       # dicts {key, what, replay}
        self.samples = []
        self.errors = []
        self.names = set()

    def add(self, **kw):
        for k, v in kw.items():
            self.n[k] = self.n.get(k, 0) + v

    def violation(self, key, what, replay):
        if len(self.viol) < 3:
            self.viol.append({"key": key, "what": what, "replay": replay})
        self.add(violating_cases=1)


def known_findings(prop):
    """Entries of /verif/known_findings.txt for a property: {key: text}."""
    out = {}
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={prop} key="):
                key, _, text = line.split(" key=", 1)[1].partition(" ")
                out[key] = text
    return out


def key_of(*data):
    return hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _work(task):
    mod, fn, args = task
    t = time.time()
    try:
        res = getattr(importlib.import_module(mod), fn)(*args)
    except Exception:
        res = Result()
        res.errors.append(f"{fn}{args!r}"[:200] + f": {traceback.format_exc()[-1500:]}")
    res.wall = time.time() - t
    res.task = f"{fn}{args!r}"[:120]
    return res


def _init():
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ImportError, ValueError, OSError):
        pass


def run(prop, tasks, level, mapping, assumptions, extra=None, budget=None, workers=None, verbose=False):
    """mapping: evidence coverage field -> counter name."""
    t0 = time.time()
    budget = budget or (720 if env.TIER == "quick" else 6 * 3600)
    known = known_findings(prop)
    total, done, slow = Result(), 0, []
    hits = {}
    ctx = mp.get_context("fork")
    n = min(workers or env.WORKERS, max(1, len(tasks)))
    stopped = None
    with ctx.Pool(n, initializer=_init, maxtasksperchild=64) as pool:
        it = pool.imap_unordered(_work, tasks, chunksize=1)
        while done < len(tasks):
            left = budget - (time.time() - t0)
            if left <= 0:
                stopped = f"time budget of {budget} s reached with {len(tasks) - done} of {len(tasks)} tasks not finished"
                break
            try:
                res = it.next(timeout=left)
            except mp.TimeoutError:
                continue
            done += 1
            slow.append((round(res.wall, 1), res.task))
            total.add(**res.n)
            total.errors += res.errors
            total.names |= res.names
            if res.samples and len(total.samples) < 12:
                total.samples += res.samples[: 12 - len(total.samples)]
            for v in res.viol:
                if v["key"] in known:
                    hits.setdefault(v["key"], v)
                else:
                    total.viol.append(v)
            if len(total.viol) >= int(os.environ.get("NQ_STOP", "8")):
                stopped = "stopped after 8 violations"
                break
        pool.terminate()
    for key in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    code = 0
    os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
    for i, v in enumerate(total.viol):
        path = os.path.join(env.VERIF, "replays", f"{prop}-{v['key']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "key": v["key"], "what": v["what"], **v["replay"]}, f, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + v["what"])
        code = 1
    for e in total.errors[:5]:
        print("ERROR", e)
    if total.errors and not code:
        code = 2
    wall = time.time() - t0
    cov = {k: total.n.get(v, 0) for k, v in mapping.items()}
    cov.update({k: v for k, v in sorted(total.n.items()) if k not in mapping.values()})
    cov["samples"] = total.samples[:12] or ["none"]
    cov["tasks_done"], cov["tasks_planned"] = done, len(tasks)
    cov["exhaustive"] = not stopped and not total.errors
    if stopped:
        cov["stopped"] = stopped
    if total.names:
        cov["covered"] = sorted(total.names)
    cov.update(extra or {})
    ev = {"property": prop, "tier": "thorough" if env.TIER == "thorough" else "quick", "seed": env.SEED, "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 1), "violations": len(total.viol)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {done}/{len(tasks)} tasks, " + ", ".join(f"{k}={v}" for k, v in sorted(total.n.items())) +
          f", {wall:.0f} s" + (f" ({stopped})" if stopped else ""))
    if verbose or os.environ.get("NQ_VERBOSE"):
        for w, t in sorted(slow, reverse=True)[:int(os.environ.get("NQ_VERBOSE") or 25)]:
            print("   ", w, t)
    sys.stdout.flush()
    return code
