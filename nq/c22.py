"""C22: the browser entry points give the programs, answers and refusals of the server for the same request."""

import json
import os
import random
import subprocess
import sys
import types

from . import env, exact, supply
from .board import Board
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "requests", "transitions": "entry_point_calls", "traces_validated_against_impl": "answers_compared"}
ASSUME = ["PyScript is a stand-in: a window object that takes the entry points, and option objects with to_py()",
          "the in-browser engine is clingo with the options the page passes (read by running penpa-edit/app.js); its witnesses are the shown atoms joined by blanks"]
_D = {}
OPTIONS = []


class Js:
    """An option object as JavaScript hands it over."""

    def __init__(self, d):
        self.d = d

    def to_py(self):
        return json.loads(json.dumps(self.d))


def entry():
    """main_deploy.py imported the way the browser does, without the clingo package."""
    if _D:
        return _D["window"]
    sys.dont_write_bytecode = True
    if env.REPO not in sys.path:
        sys.path.insert(0, env.REPO)
    os.chdir(env.REPO)
    window = types.SimpleNamespace()
    mod = types.ModuleType("pyscript")
    mod.window = window
    mod.document = types.SimpleNamespace()
    sys.modules["pyscript"] = mod
    hidden = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == "clingo"}
    sys.modules["clingo"] = None
    try:
        import main_deploy  # noqa: F401
    finally:
        del sys.modules["clingo"]
        sys.modules.update(hidden)
    _D["window"] = window
    return window


def engine(program, limit):
    from clingo.control import Control
    opts = [o for o in OPTIONS if not o.startswith("--models")] + [f"--models={limit}", "--warn=none"]
    ctl = Control(opts, logger=lambda *_: None)
    ctl.add(program=program)
    ctl.ground()
    out = []
    ctl.solve(on_model=lambda m: out.append(" ".join(str(s) for s in m.symbols(shown=True))))
    return out


def browser(res, name, url, param, limit):
    w = entry()
    p = w.prepare_puzzle(name, url, Js(param))
    res.add(entry_point_calls=1)
    if not p["success"]:
        return "error", p["result"], None
    g = w.generate_program(p["result"])
    res.add(entry_point_calls=1)
    if not g["success"]:
        return "error", g["result"], None
    out = []
    for m in engine(g["result"], limit):
        s = w.store_solution(p["result"], m)
        res.add(entry_point_calls=1)
        if not s["success"]:
            return "error", "store_solution: " + s["result"], g["result"]
        out.append(s["result"])
    return "ok", out, g["result"]


def server(name, url, param, limit):
    from noqx import clingo
    prog = []
    real = clingo.ClingoSolver.solve

    def spy(self, program):
        prog.append(program)
        return real(self, program)
    clingo.ClingoSolver.solve = spy
    try:
        return "ok", env.solve(name, url, param, limit), prog[0] if prog else None
    except TimeoutError:
        return "timeout", None, None
    except Exception as e:
        return "error", (str(e) if isinstance(e, ValueError) else None), None
    finally:
        clingo.ClingoSolver.solve = real


def variants(name):
    for kind, k in (("few", 3), ("many", 1), ("none", 1)):
        for i, b in enumerate(supply.boards(name, kind, k)):
            yield f"{kind} {i}", name, b.url(), b.param
    b = supply.boards(name, "few", 1)[0]
    from noqx import manager
    par = manager.modules[name].parameters
    for k, v in b.param.items():
        for x in ({True: [False], False: [True]}.get(v) if isinstance(v, bool) else ["", "0", "1", "x", 3]):
            yield f"option {k}={x!r}", name, b.url(), {**b.param, k: x}
    if par:
        yield "no options", name, b.url(), {}
    for label, f in (("number on a side", lambda o: o.num(0, 0, 1, cat=2)), ("number on a corner", lambda o: o.num(0, 0, 1, cat=1)), ("foreign symbol", lambda o: o.sym(0, 0, "ox_B__9")),
                     ("a word", lambda o: o.num(0, 0, "zz")), ("shaded cell", lambda o: o.surf(0, 0, 4)), ("gray cell", lambda o: o.surf(0, 0, 1)), ("small numbers", lambda o: o.num(0, 0, "12", sub="4")),
                     ("wall", lambda o: o.wall("T", 1, 0)), ("line", lambda o: o.line(0, 0, "r") if o.C > 1 else o)):
        o = b.copy()
        f(o)
        yield label, name, o.url(), o.param
    yield "cut board", name, b.url()[:-9], b.param
    yield "no board", name, "", b.param


def strip(s):
    return "".join(ch for ch in str(s) if not ch.isdigit())


def type_task(name, limits):
    entry()
    env.load()
    res = Result()
    for label, n, url, param in variants(name):
        for limit in limits:
            random.seed(env.SEED)
            s = server(n, url, param, limit)
            if s[0] == "timeout":
                res.add(timeouts=1)
                continue
            random.seed(env.SEED)
            b = browser(res, n, url, param, limit)
            res.add(requests=1)
            what = None
            if s[0] != b[0]:
                what = f"the server {'answers' if s[0] == 'ok' else 'refuses (' + str(s[1]) + ')'}, the browser {'answers' if b[0] == 'ok' else 'refuses (' + str(b[1]) + ')'}"
            elif s[0] == "error":
                if s[1] is not None and strip(s[1]) != strip(b[1]):
                    what = f"the server says {s[1]!r}, the browser {b[1]!r}"
            else:
                if s[2] is not None and s[2] != b[2]:
                    res.add(programs_differ=1)
                x, y = ({Board.from_url(n, u).ans() for u in q[1]} for q in (s, b))
                px, py = ({tuple(Board.from_url(n, u).parts()[:4]) for u in q[1]} for q in (s, b))
                res.add(answers_compared=len(x))
                if len(s[1]) != len(b[1]) or (x != y and (limit == 0 or len(s[1]) < limit)) or px != py and s[1]:
                    what = f"the server gives {len(s[1])} answers, the browser {len(b[1])}" + (", with the same number of different answers" if len(s[1]) == len(b[1]) else "")
            if what:
                res.violation(key_of("C22", name, label, limit), f"{name}, {label}, limit {limit}: {what}",
                              {"kind": "board", "puzzle": name, "url": url, "param": param, "limit": limit})
                return res
    res.names.add(name)
    return res


def options_task():
    """Options of the in-browser engine: as many answers as the server gives by default, none twice."""
    res = Result()
    from clingo.control import Control
    try:
        sys.path.insert(0, env.REPO)
        os.chdir(env.REPO)
        from noqx.clingo import Config
        want = Config.max_solutions_to_find
    except Exception:
        want = 10
    for n in (0, 1, want - 1, want, want + 1, 3 * want):
        prog = f"{{ a(1..{n}) }} = 1. {{ h(1..3) }}. #show a/1." if n else "a(1). :- a(1). #show a/1."
        ctl = Control(list(OPTIONS), logger=lambda *_: None)
        ctl.add(program=prog)
        ctl.ground()
        out = []
        ctl.solve(on_model=lambda m: out.append(str(m)))
        res.add(requests=1, answers_compared=len(out))
        if len(out) != min(n, want) or len(set(out)) != len(out):
            res.violation(key_of("C22", "options", n), f"a program with {n} answers: the page's engine options {OPTIONS} give {len(out)} ({len(set(out))} different), the server {min(n, want)}",
                          {"kind": "options", "program": prog, "options": OPTIONS})
    return res


def tasks(tier, only=None):
    try:
        r = subprocess.run(["node", os.path.join(env.VERIF, "nq/js/options.js")], capture_output=True, text=True, env={**os.environ, "NQ_REPO": env.REPO}, timeout=60)
        runs = json.loads(r.stdout.strip().split("\n")[-1])
        o = runs[0]
        OPTIONS[:] = o.split() if isinstance(o, str) else [str(x) for x in o]
    except Exception:          # the page did not reach its engine (C23 judges the page)
        OPTIONS[:] = ["--models=10", "--project=show"]
    out = [] if only else [("nq.c22", "options_task", ())]
    return out + [("nq.c22", "type_task", (n, [0] if tier == "quick" else [0, 1, 2, 10])) for n in supply.types() if not only or n in only]
