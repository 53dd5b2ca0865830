"""C23: every sequence of user actions and replies on the page, in server and in browser mode, compared with a reference model of the page."""

import json
import os
import subprocess

from . import env
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "page_states", "transitions": "events_played", "traces_validated_against_impl": "sequences"}
ASSUME = ["the document, the board (penpa itself is not part of the repository), the network and the in-browser engine are stand-ins (nq/js/page.js); penpa-edit/app.js itself runs unchanged",
          "beyond the fully explored depth, sequences that lead to the same model state, controls and last event are taken as the same"]
JS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "js", "c23.js")


def shard_task(mode, full, deep, i, n):
    res = Result()
    p = subprocess.run(["node", JS, mode, str(full), str(deep), str(i), str(n)], capture_output=True, text=True, env={**os.environ, "NQ_REPO": env.REPO})
    if p.returncode or not p.stdout.strip():
        raise RuntimeError(p.stderr[-1500:])
    o = json.loads(p.stdout.strip().splitlines()[-1])
    res.add(page_states=o["states"], events_played=o["steps"], sequences=o["sequences"])
    for v in o["violations"]:
        res.violation(key_of("C23", mode, v["seq"]), f"{mode} mode: {v['bad']} after {' '.join(v['seq'])}", {"kind": "page", "mode": mode, "events": v["seq"]})
    res.names.add(f"{mode}: all sequences up to {full} events, up to {o['depth']} events with equal states merged")
    return res


def replay(d):
    p = subprocess.run(["node", JS, d["mode"], "0", "0", "0", "1", " ".join(d["events"])], capture_output=True, text=True, env={**os.environ, "NQ_REPO": env.REPO})
    o = json.loads(p.stdout.strip().splitlines()[-1])
    return o["violations"][0]["bad"] if o["violations"] else None


def tasks(tier, only=None):
    full, deep, n = (6, 10, 48) if tier == "thorough" else (4, 8, 8)
    return [("nq.c23", "shard_task", (m, full, deep, i, n)) for m in ("server", "deployed") for i in range(n) if not only or m in only]
