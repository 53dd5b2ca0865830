"""C08: every combination of white margins around a board gives the same answers, moved with the board, and the same refusals."""

import itertools

from . import env, exact, supply
from .board import Board
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "margin_boards", "transitions": "solver_runs", "traces_validated_against_impl": "answers_compared"}
ASSUME = ["margins are added to the small boards listed under covered (every subset of sides, and wider ones) and, by one fixed margin, to every bundled example",
          "the answers without extra margin are taken from the solver itself (C01-C06 decide them)"]


def outcome(b, limit=0):
    try:
        got, err = exact.ask(b, limit)
    except AssertionError as e:
        return None, str(e)
    return (frozenset(got) if got is not None else None), err


def margins(base, tier):
    base = tuple(base)
    ex = [m for m in itertools.product((0, 1), repeat=4) if any(m)] + [(2, 1, 0, 3), (0, 0, 3, 2), (3, 2, 2, 0)]
    if tier == "thorough":
        ex = [m for m in itertools.product((0, 1, 2, 3), repeat=4) if any(m)]
    return [tuple(x + y for x, y in zip(base, m)) for m in ex]


def judge(res, b, m, want, label, limit=0):
    o = supply.with_margin(b, m)
    got, err = outcome(o, limit)
    res.add(margin_boards=1, solver_runs=1)
    if err == "timeout":
        res.add(timeouts=1)
        return True
    what = None
    if err != want[1]:
        what = f"refused with {err!r}, {'without extra margin with ' + repr(want[1]) if want[1] else 'solved without extra margin'}"
        if not err:
            what = f"solved, without extra margin refused with {want[1]!r}"
    elif not err:
        res.add(answers_compared=len(got))
        if got - want[0]:
            what = f"another answer: {exact.show(o, sorted(got - want[0], key=str)[0])}"
        elif want[0] - got:
            what = f"a lost answer: {exact.show(b, sorted(want[0] - got, key=str)[0])}"
    if what:
        res.violation(key_of("C08", b.name, label, m), f"{b.name} {b.R}x{b.C} [{label}] with margins {m} instead of {tuple(b.margin)} (upper, lower, left, right): {what}",
                      {"kind": "board", "puzzle": b.name, "url": o.url(), "param": o.param, "original_url": b.url(), "board": o.describe()})
    return not what


def broken(b):
    """The same board with an element of a kind the type does not take: the refusal must not depend on the margin either."""
    o = b.copy()
    o.num(0, b.C - 1, 1, cat=3)
    yield "number on a side", o
    o = b.copy()
    o.sym(b.R - 1, 0, "ox_B__3")
    yield "foreign symbol", o


def board_task(name, kind, i, tier):
    env.load()
    res = Result()
    bs = supply.boards(name, kind, i + 1)
    if len(bs) <= i:
        return res
    b = bs[i]
    want = outcome(b)
    if want[1] == "timeout":
        return res
    for m in margins(b.margin, tier):
        if not judge(res, b, m, want, f"{kind} {i}"):
            break
    res.names.add(f"{name} {b.R}x{b.C} {kind} {i}: every set of sides")
    if i == 0 and kind == "few":
        for label, o in broken(b):
            w = outcome(o)
            if w[1] != "timeout":
                for m in margins(b.margin, "quick")[::4]:
                    if not judge(res, o, m, w, label):
                        break
    return res


def example_task(name, i, m):
    env.load()
    from noqx import manager
    res = Result()
    exs = [e for e in manager.modules[name].examples if "data" in e]
    if i >= len(exs):
        return res
    pr = {k: v["default"] for k, v in manager.modules[name].parameters.items()}
    b = Board.from_url(name, exs[i]["data"], {**pr, **exs[i].get("config", {})})
    want = outcome(b, 3)
    if want[1] == "timeout" or want[1] is None and len(want[0]) > 1:
        return res
    judge(res, b, tuple(x + y for x, y in zip(b.margin, m)), want, f"bundled example {i}", 3)
    return res


def tasks(tier, only=None):
    out = []
    ms = [(2, 1, 3, 1)] if tier == "quick" else [(2, 1, 3, 1), (0, 1, 0, 0), (0, 0, 0, 1), (1, 0, 0, 0), (0, 0, 1, 0), (5, 0, 0, 5)]
    for n in supply.types():
        if only and n not in only:
            continue
        for m in ms:
            out += [("nq.c08", "example_task", (n, i, m)) for i in range(3)]
        for kind, k in (("few", 3 if tier == "quick" else 6), ("none", 1)):
            out += [("nq.c08", "board_task", (n, kind, i, tier)) for i in range(k)]
    return out
