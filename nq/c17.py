"""C17: after every history of requests up to a depth, a request gives what it gives in a fresh process."""

import json
import os
import pickle
import random
import time

from . import env, exact, supply
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "histories", "transitions": "requests", "traces_validated_against_impl": "results_compared"}
ASSUME = ["a fresh process is a fork taken after the solvers were loaded and before any request",
          "histories are built from the kinds of requests listed under covered, within one type up to depth 3 and over all ordered pairs of types"]
FRESH, COST, REQS = {}, {}, {}
OPS = ("first", "second", "no answer", "refused", "options", "timeout")


def requests_of(name):
    if name not in REQS:
        REQS[name] = _requests_of(name)
    return REQS[name]


def _requests_of(name):
    """One request per kind: (puzzle name, board string, options, time limit)."""
    few = [b for b in supply.boards(name, "few") if len(supply.spec(name).expected(b)) <= 10]
    few = few or supply.boards(name, "few")
    c = few[0]
    a = min(few[1:] or few, key=lambda b: b.R * b.C)      # a small one: it is requested most
    none = (supply.boards(name, "none") + [c])[0]
    bad = a.copy()
    bad.sym(a.R - 1, a.C - 1, "ox_B__9").num(a.R - 1, a.C - 1, "zz").num(a.R - 1, a.C - 1, 1, cat=2)
    par = dict(a.param)
    for k, v in list(par.items()):
        if isinstance(v, bool):
            par[k] = not v
    other = (name, a.url(), par, None) if par != a.param else (name, few[-1].url(), few[-1].param, None)
    return {"first": (name, a.url(), a.param, None), "second": (name, c.url(), c.param, None), "no answer": (name, none.url(), none.param, None),
            "refused": (name, bad.url(), a.param, None), "options": other, "timeout": (name, c.url(), c.param, 0)}


def request(req):
    from noqx import clingo
    name, url, param, limit = req
    random.seed(env.SEED)
    old = clingo.Config.time_limit
    if limit is not None:
        clingo.Config.time_limit = limit
    try:
        return ("ok", frozenset(clingo.run_solver(name, url, json.loads(json.dumps(param)))["url"]))
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}")
    finally:
        if limit is not None:
            clingo.Config.time_limit = old


def forked(f):
    """Result of f() in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as out:
                pickle.dump(f(), out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the forked request ended without a result")
    return pickle.loads(data)


def same(x, y):
    if x == y:
        return True
    if x[0] == y[0] == "error":
        return strip(x[1]) == strip(y[1])
    if x[0] == y[0] == "ok" and len(x[1]) == len(y[1]):
        from .board import Board
        return {shown(Board, u) for u in x[1]} == {shown(Board, u) for u in y[1]}
    return False


def strip(s):
    return "".join(ch for ch in s if not ch.isdigit())


def shown(Board, u):
    b = Board.from_url("x", u)
    return b.ans()


def show(x):
    return f"{len(x[1])} answers" if x[0] == "ok" else x[1]


def walk(name, reqs, depth, path):
    """Runs every continuation of the history so far; returns (number of requests, violations)."""
    n, bad = 0, []
    for op in OPS:
        def go(op=op):
            got = request(reqs[op])
            n2, bad2 = 1, []
            if not same(got, FRESH[(name, op)]):
                bad2.append((path + (op,), show(got), show(FRESH[(name, op)])))
            elif depth > 1:
                k, more = walk(name, reqs, depth - 1, path + (op,))
                n2 += k
                bad2 += more
            return n2, bad2
        k, more = forked(go)
        n += k
        bad += more
        if len(bad) > 3:
            break
    return n, bad


def type_task(name, depth):
    env.load()
    from noqx.clingo import Config
    Config.max_solutions_to_find = 10
    res = Result()
    reqs = requests_of(name)
    n, bad = walk(name, reqs, depth, ())
    res.add(histories=n, requests=n, results_compared=n)
    for path, got, want in bad:
        res.violation(key_of("C17", name, path), f"{name}: after the requests {list(path[:-1])} the request '{path[-1]}' gives {got}, in a fresh process {want}",
                      {"kind": "history", "requests": [reqs[p] for p in path], "got": got, "want": want})
    res.names.add(f"{name}: all histories of {', '.join(OPS)} up to depth {depth}")
    return res


def all_requests(name):
    return [(name, b.url(), b.param, None) for kind in ("few", "many", "none", "dup") for b in supply.boards(name, kind)]


def boards_task(name):
    """Every base board of the type after every other one."""
    env.load()
    from noqx.clingo import Config
    Config.max_solutions_to_find = 300
    res = Result()
    rs = all_requests(name)
    fresh = [forked(lambda r=r: request(r)) for r in rs]
    for i, r in enumerate(rs):
        def go(r=r):
            request(r)
            return [forked(lambda q=q: request(q)) for q in rs]
        for j, got in enumerate(forked(go)):
            res.add(histories=1, requests=1, results_compared=1)
            if not same(got, fresh[j]):
                res.violation(key_of("C17", name, "boards", i, j), f"{name}: after base board {i} the base board {j} gives {show(got)}, in a fresh process {show(fresh[j])}",
                              {"kind": "history", "requests": [rs[i], rs[j]], "got": show(got), "want": show(fresh[j])})
                return res
    return res


def pair_task(name, op, others):
    """One request of every other type after a request of this type."""
    env.load()
    from noqx.clingo import Config
    Config.max_solutions_to_find = 10
    res = Result()
    reqs = {o: requests_of(o)["first"] for o in others}
    mine = requests_of(name)[op]

    def all_others():
        request(mine)
        out = []
        for o in others:
            got = forked(lambda o=o: request(reqs[o]))
            if not same(got, FRESH[(o, "first")]):
                out.append((o, show(got), show(FRESH[(o, "first")])))
        return out
    for o, got, want in forked(all_others):
        res.violation(key_of("C17", name, op, o), f"{o}: after a request of type {name} ({op}) the board gives {got}, in a fresh process {want}",
                      {"kind": "history", "requests": [mine, reqs[o]], "got": got, "want": want})
    res.add(histories=len(others), requests=len(others) + 1, results_compared=len(others), type_pairs=len(others))
    return res


def long_task(order, label):
    """One process serves one board of every type in turn, three rounds."""
    env.load()
    from noqx.clingo import Config
    Config.max_solutions_to_find = 10
    res = Result()

    def go():
        out, n = [], 0
        for rnd in range(3):
            for o in order:
                for op in ("first", "refused", "second") if rnd == 1 else ("first",):
                    got = request(requests_of(o)[op])
                    n += 1
                    if not same(got, FRESH[(o, op)]):
                        out.append((rnd, o, op, show(got), show(FRESH[(o, op)])))
        return n, out
    n, out = forked(go)
    res.add(histories=1, requests=n, results_compared=n)
    for rnd, o, op, got, want in out:
        res.violation(key_of("C17", label, rnd, o, op), f"{o} ({op}): in round {rnd + 1} of serving every type ({label}) the board gives {got}, in a fresh process {want}",
                      {"kind": "history", "order": order, "round": rnd, "requests": [requests_of(o)[op]], "got": got, "want": want})
    return res


def _fresh(name):
    env.load()
    from noqx.clingo import Config
    Config.max_solutions_to_find = 10
    reqs = requests_of(name)
    t = time.time()
    out = [((name, op), forked(lambda r=r: request(r))) for op, r in requests_of(name).items()]
    return out, name, time.time() - t, reqs


def tasks(tier, only=None):
    import multiprocessing as mp
    env.load()
    names = [n for n in supply.types() if not only or n in only]
    with mp.get_context("fork").Pool(env.WORKERS) as pool:
        for part, n, cost, reqs in pool.imap_unordered(_fresh, names, chunksize=4):
            FRESH.update(part)
            COST[n], REQS[n] = cost, reqs
    th = tier == "thorough"
    out = [("nq.c17", "long_task", (names, "alphabetical")), ("nq.c17", "long_task", (names[::-1], "reversed"))]
    for n in sorted(names, key=lambda n: -COST[n]):
        out.append(("nq.c17", "type_task", (n, 4 if th else 3 if COST[n] < 0.12 else 2)))
        if th or COST[n] < 0.3:
            out.append(("nq.c17", "boards_task", (n,)))
        for op in (OPS if th else ("first",)):
            out.append(("nq.c17", "pair_task", (n, op, [o for o in names if o != n])))
    return out
