"""C24: every discovery and import order registers every installed type once; every type is consistent in the menu, the API and the browser build."""

import itertools
import json
import os
import subprocess
import sys
import tempfile

from . import env, server, supply
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "load_histories", "transitions": "registrations", "traces_validated_against_impl": "requests"}
ASSUME = ["the installed types are the modules of solver/ that define a Solver class",
          "the order in which the file system lists solver/ is the order pkgutil and os.listdir give",
          "examples given as puzz.link addresses are decoded by penpa, which is not part of the repository, and are only looked at as far as the menu"]
LABELS = {"shade": "Shading", "loop": "Loop", "region": "Area Division", "num": "Number", "var": "Variety", "unk": "Unknown"}
PROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "loadprobe.py")
_M = {}

TINY = '''from typing import Any
from noqx.manager import Solver
from noqx.puzzle import Puzzle


class {cls}(Solver):
    name = "{name}"
    category = "{cat}"
    aliases = ["{name}x"]
    examples = [{{"data": "m=edit&p={name}"}}]
    parameters = {{"p_{name}": {{"name": "P", "type": "checkbox", "default": True}}}}

    def solve(self, puzzle: Puzzle) -> str:
        self.reset()
        return "{name}"
'''


def probe(top, package, cases):
    p = subprocess.run([env.PY, PROBE, env.REPO, top, package], input=json.dumps(cases), capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout)


def judge(res, expect, cases, logs, where):
    """expect: type -> (module, metadata or None)."""
    for case, log in zip(cases, logs):
        res.add(load_histories=1, registrations=sum(len(x["types"]) for x in log))
        what = None
        for k, x in enumerate(log):
            if k == 0 and x["error"]:
                what = f"loading fails: {x['error']}"
            elif set(x["types"]) != set(expect):
                what = f"missing {sorted(set(expect) - set(x['types']))[:4]}, extra {sorted(set(x['types']) - set(expect))[:4]}"
            else:
                for t, (mod, meta) in expect.items():
                    if x["types"][t][0] != mod:
                        what = f"{t} is served by {x['types'][t]}"
                    elif not isinstance(x["meta"], dict) or t not in x["meta"]:
                        what = f"{t} has no metadata: {x['meta'] if not isinstance(x['meta'], dict) else ''}"
                    elif meta is not None and x["meta"][t] != meta:
                        what = f"{t} is listed as {x['meta'][t]} instead of {meta}"
                    elif x["meta"][t] != log[0]["meta"][t]:
                        what = f"{t} is listed differently after loading again"
            if what:
                what = ("" if k == 0 else f"after loading {k + 1} times: ") + what
                break
        if what:
            c = {k: (v if not isinstance(v, list) or len(v) < 12 else v[:6] + ["..."]) for k, v in case.items()}
            res.violation(key_of("C24", where, case), f"{where}, {c}: {what}", {"kind": "load", "where": where, "case": case})
            return


def tiny_task(package, names, helper):
    res = Result()
    with tempfile.TemporaryDirectory() as top:
        d = os.path.join(top, package)
        os.mkdir(d)
        open(os.path.join(d, "__init__.py"), "w").close()
        expect = {}
        for i, n in enumerate(names):
            cat = ["shade", "loop", "num", "var"][i % 4]
            with open(os.path.join(d, n + ".py"), "w") as f:
                f.write(TINY.format(cls=["Zeta", "Alpha", "Mid", "Beta"][i % 4] + "Solver", name=n, cat=cat))
            expect[n] = (f"{package}.{n}", [n, cat, [n + "x"], 1, [f"p_{n}"]])
        if helper:
            with open(os.path.join(d, "helper.py"), "w") as f:
                f.write("from noqx.manager import Solver\n\nX = 1\n")
        cases = []
        pre = [list(p) for k in range(3) for p in itertools.permutations(names, k)]
        for order in itertools.permutations(names):
            for first in pre:
                cases.append({"order": list(order), "first": first, "times": 2})
        judge(res, expect, cases, probe(top, package, cases), f"package {package} with {', '.join(names)}")
        # two puzzle types of one name: refused, not hidden
        with open(os.path.join(d, names[0] + ".py"), "a") as f:
            f.write(f'\n\nclass Second(Solver):\n    name = "Second"\n')
        log = probe(top, package, [{"order": list(names), "times": 1}])[0]
        res.add(load_histories=1)
        if not log[0]["error"]:
            res.violation(key_of("C24", package, names, "two"), f"package {package}: two solvers of the type {names[0]} are loaded without an error", {"kind": "load", "where": package})
    res.names.add(f"{package}: {len(names)} types, all {len(cases)} discovery and import orders")
    return res


def installed():
    """type -> class, found by importing every module of solver/."""
    import importlib
    env.load()
    from noqx.manager import Solver
    out = {}
    for f in sorted(os.listdir(os.path.join(env.REPO, "solver"))):
        if f.endswith(".py") and not f.startswith("__"):
            m = importlib.import_module("solver." + f[:-3])
            for c in vars(m).values():
                if isinstance(c, type) and issubclass(c, Solver) and c is not Solver and c.__module__ == m.__name__:
                    out[f[:-3]] = c
    return out


def order_task(kind, i, n):
    res = Result()
    cls = installed()
    names = sorted(cls)
    expect = {t: (c.__module__, [c.name, c.category, c.aliases, len(c.examples), sorted(c.parameters)]) for t, c in cls.items()}
    if kind == "order":
        cases = [{"order": None, "times": 2}, {"order": names, "times": 2}, {"order": names[::-1], "times": 2}] if i == 0 else []
        cases += [{"order": names[k:] + names[:k]} for k in range(1, len(names)) if k % n == i]
    else:
        cases = [{"order": None, "first": [t]} for k, t in enumerate(names) if k % n == i]
        cases += [{"order": None, "first": [t, names[(k + 1) % len(names)], names[k - 1]]} for k, t in enumerate(names) if k % n == i]
    judge(res, expect, cases, probe(env.REPO, "solver", cases), "solver/")
    res.names.add(f"solver/: {'every rotation and the reverse of the discovery order' if kind == 'order' else 'every type imported before loading'}")
    return res


def bad(res, t, what, **kw):
    res.violation(key_of("C24", t, what), f"{t}: {what}", {"kind": "type", "puzzle": t, **kw})


def value_ok(p, v):
    if p["type"] == "checkbox":
        return isinstance(v, bool)
    if p["type"] == "number":
        return str(v).isdigit()
    if p["type"] == "select":
        return isinstance(v, str) and v in p["default"]
    return isinstance(v, (str, int))


def menu_task():
    res = Result()
    o, cls = _M["page"], installed()
    if "error" in o:
        res.violation(key_of("C24", "start"), f"the server does not start or the page does not open: {o['error']}", {"kind": "start"})
        return res
    from noqx.manager import modules, list_solver_metadata
    meta = json.loads(json.dumps(list_solver_metadata()))
    for label, got in (("the registry", set(modules)), ("the metadata file", set(o["meta"])), ("the menu", {m["value"] for m in o["menu"]})):
        for t in sorted(set(cls) ^ got)[:3]:
            bad(res, t, f"{'is missing from' if t in cls else 'is not installed but in'} {label}")
    if len(o["menu"]) != len({m["value"] for m in o["menu"]}):
        bad(res, "menu", "a type is listed twice")
    names = {}
    for t, c in cls.items():
        res.add(load_histories=1)
        if t not in modules or t not in o["meta"]:
            continue
        if type(modules[t]) is not c:
            bad(res, t, f"is served by {type(modules[t]).__module__}")
        own = json.loads(json.dumps({"name": c.name, "category": c.category, "aliases": c.aliases, "examples": c.examples, "parameters": c.parameters}))
        for src, x in (("the metadata", meta[t]), ("the metadata file", o["meta"][t])):
            for k, v in own.items():
                if x.get(k) != v:
                    bad(res, t, f"{k} in {src} is {str(x.get(k))[:80]} instead of {str(v)[:80]}")
        if not isinstance(c.name, str) or not c.name or c.name == "Unknown":
            bad(res, t, "has no name")
        if c.name in names:
            bad(res, t, f"has the name of {names[c.name]}")
        names[c.name] = t
        if c.category not in LABELS or c.category == "unk":
            bad(res, t, f"has the category {c.category!r}")
        it = [m for m in o["menu"] if m["value"] == t]
        if len(it) == 1 and (LABELS.get(c.category, "?") not in it[0]["group"] or it[0]["label"] != c.name or (it[0]["props"] or {}).get("aliases") != c.aliases):
            bad(res, t, f"is listed in the menu as {it[0]}")
        if not c.examples:
            bad(res, t, "has no example")
        for e in c.examples:
            if not (e.get("data") or e.get("url")):
                bad(res, t, "has an example without a board")
            for k, v in (e.get("config") or {}).items():
                if k not in c.parameters:
                    bad(res, t, f"an example sets the unknown option {k}")
                elif not value_ok(c.parameters[k], v):
                    bad(res, t, f"an example sets {k} to {v!r}")
        for k, p in c.parameters.items():
            if not p.get("name") or p.get("type") not in ("checkbox", "number", "text", "select") or "default" not in p:
                bad(res, t, f"the option {k} is {p}")
    return res


def type_task(ts, every):
    """The requests the page sends for the examples, posted to the API; the browser build's registry."""
    res = Result()
    o = _M["page"]
    if "error" in o:
        return res
    a = server.app()
    from noqx import manager
    for t in ts:
        if t not in o["meta"] or t not in manager.modules:
            continue
        m = o["meta"][t]
        done = 0
        for q in o["requests"][t]:
            r = q["request"]
            if r is None:
                bad(res, t, f"the page sends no request for example {q['example']}")
                continue
            if len(q["offered"]) != len(m["examples"]) + 1:
                bad(res, t, f"the page offers {len(q['offered']) - 1} of {len(m['examples'])} examples")
            if r["puzzle_name"] != t or set(r["param"]) != set(m["parameters"]):
                bad(res, t, f"the page asks for {r['puzzle_name']} with the options {sorted(r['param'])}")
            if q["example"] is None:
                continue
            e = m["examples"][q["example"]]
            cfg = {**{k: (next(iter(p["default"])) if p["type"] == "select" else p["default"]) for k, p in m["parameters"].items()}, **(e.get("config") or {})}
            if {k: str(v) for k, v in cfg.items()} != {k: str(v) for k, v in r["param"].items()}:
                bad(res, t, f"example {q['example']} is sent with {r['param']} instead of {cfg}")
            if not e.get("data"):
                continue
            if r["puzzle"] != e["data"]:
                bad(res, t, f"example {q['example']} is sent as another board")
            try:
                manager.prepare_puzzle(t, e["data"], cfg)
            except Exception as x:
                bad(res, t, f"example {q['example']} cannot be decoded: {type(x).__name__}: {x}")
                continue
            if e.get("test") is False or (done and not every and not e.get("config")):
                continue
            done += 1
            status, body, _ = server.post(a, r)
            res.add(requests=1)
            if status != 200:
                bad(res, t, f"example {q['example']} is answered with {status} {body[:100]!r}")
            elif len(json.loads(body)["url"]) < 1:
                bad(res, t, f"example {q['example']} has no answer")
        # the options as the menu first offers them, and each other value of a choice, on a small board
        for b in supply.boards(t, "few", 1)[:1]:
            r0 = o["requests"][t][0]["request"]["param"]
            vs = [r0] + [{**r0, k: v} for k, p in m["parameters"].items() for v in (list(p["default"]) if p["type"] == "select" else [True, False] if p["type"] == "checkbox" else [])]
            for v in vs:
                status, body, _ = server.post(a, {"puzzle_name": t, "puzzle": b.url(), "param": v})
                res.add(requests=1)
                if status not in (200, 400, 504):
                    bad(res, t, f"the options {v} are answered with {status} {body[:100]!r}")
        for other in (t + "x", "x" + t, t.upper(), t[:-1], "solver." + t, t + " "):
            if other not in o["meta"]:
                status, body, _ = server.post(a, {"puzzle_name": other, "puzzle": "m=edit&p=x", "param": {}})
                if status == 200:
                    bad(res, t, f"the name {other!r} is answered as well")
    return res


def browser_task():
    from . import c22
    res = Result()
    if "noqx.manager" in sys.modules:
        sys.modules["noqx.manager"].modules.clear()
    w = c22.entry()
    from noqx import manager
    o = _M["page"]
    if "error" in o:
        return res
    for t in sorted(set(manager.modules) ^ set(o["meta"]))[:3]:
        bad(res, t, "is " + ("not " if t in o["meta"] else "only ") + "in the browser build")
    for t in o["meta"]:
        for q in o["requests"].get(t, []):
            if q["example"] is None or not q["request"]:
                continue
            e = o["meta"][t]["examples"][q["example"]]
            if not e.get("data") or e.get("test") is False:
                continue
            p = w.prepare_puzzle(t, q["request"]["puzzle"], c22.Js(q["request"]["param"]))
            g = w.generate_program(p["result"]) if p["success"] else p
            res.add(requests=1)
            if not g["success"]:
                bad(res, t, f"the browser build refuses example {q['example']}: {g['result']}")
            break
    return res


def page():
    dst = server.copy()
    p = subprocess.run([env.PY, "-B", "-c", "import main"], cwd=dst, capture_output=True, text=True, timeout=120)
    if p.returncode:
        return {"error": p.stderr.strip().split("\n")[-1]}
    q = subprocess.run(["node", os.path.join(env.VERIF, "nq/js/menu.js"), os.path.join(dst, "penpa-edit", "solver_metadata.js")], capture_output=True, text=True, timeout=300, env={**os.environ, "NQ_REPO": env.REPO})
    if q.returncode or not q.stdout:
        return {"error": q.stderr[-300:]}
    o = json.loads(q.stdout)
    return o if not o["errors"] else {"error": o["errors"][0]}


def tasks(tier, only=None):
    _M["page"] = page()
    th = tier == "thorough"
    out = [("nq.c24", "menu_task", ()), ("nq.c24", "browser_task", ())]
    names = sorted(_M["page"].get("meta", {}))
    if only:
        return out + [("nq.c24", "type_task", ([t], th)) for t in names if t in only]
    out += [("nq.c24", "tiny_task", (p, n, h)) for p, n, h in (("solver", ["tapa", "tapa_x", "tapaloop", "akari"], True), ("solver", ["b", "a", "ab"], False), ("plug", ["sudoku", "moon", "star"], True))]
    out += [("nq.c24", "order_task", (k, i, 8)) for k in ("order", "first") for i in range(8)]
    return out + [("nq.c24", "type_task", (names[i:i + 3], th)) for i in range(0, len(names), 3)]
