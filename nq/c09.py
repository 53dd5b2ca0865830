"""C09: every outcome of the random picks of the region search gives the same regions and the same answers."""

import itertools
import json
import math

from . import c07, env, exact, picks, supply
from .board import Board, rooms_of
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "pick_sequences", "transitions": "solver_runs", "traces_validated_against_impl": "answers_compared"}
ASSUME = ["every pick goes through Python's random module; all its outcomes are enumerated, or (where listed) all sequences that deviate from the first outcome in a bounded number of picks",
          "the answers of boards with a moved clue are judged with the reference rules of C01-C06"]


def program(b):
    from noqx import manager
    try:
        return manager.generate_program(manager.prepare_puzzle(b.name, b.url(), dict(b.param)))
    except ValueError as e:
        return "ERROR " + str(e)


def answers(b, prog):
    """Answers of a generated program through the rest of the request path."""
    from noqx import clingo, manager
    if prog.startswith("ERROR"):
        return prog
    real = clingo.generate_program
    clingo.generate_program = lambda _p: prog
    try:
        return frozenset(exact.ask(b, 0)[0])
    finally:
        clingo.generate_program = real


def schedules(b, full, dev):
    n = [len(x) for x in b.rooms]
    if math.factorial(len(n)) * math.prod(n) <= full:
        return picks.explore(lambda: program(b), 4 * full), "all"
    return picks.deviate(lambda: program(b), dev, full), f"at most {dev} deviations"


def agree(res, b, label, full, dev, limit=150):
    """All schedules of one board; returns (set of answers, is fine)."""
    gen, how = schedules(b, full, dev)
    progs = {}
    for trail, prog in gen:
        if trail is None:
            res.add(capped_boards=1)
            break
        res.add(pick_sequences=1)
        if prog not in progs:
            progs[prog] = trail
            if not trail:
                break
    first = None
    for i, (prog, trail) in enumerate(progs.items()):
        if i >= limit and i % (len(progs) // limit + 1):
            continue
        a = answers(b, prog)
        res.add(solver_runs=1, answers_compared=len(a) if isinstance(a, frozenset) else 0)
        if first is None:
            first = (a, trail)
        elif a != first[0] and not (isinstance(a, str) and isinstance(first[0], str)):   # refusals may name the areas differently
            if isinstance(a, str) or isinstance(first[0], str):
                what = f"{a if isinstance(a, str) else 'solved'} / {first[0] if isinstance(first[0], str) else 'solved'}"
            else:
                what = f"{exact.show(b, sorted(a ^ first[0], key=str)[0])} is an answer in one of them only"
            res.violation(key_of("C09", b.name, label, b.parts()),
                          f"{b.name} {b.R}x{b.C} [{label}]: the answers depend on the random picks {first[1]} and {trail}: {what}",
                          {"kind": "picks", "puzzle": b.name, "url": b.url(), "param": b.param, "board": b.describe(), "picks": [first[1], trail]})
            return first[0], False
    return (first[0] if first else None), True


def boards_of(name, k):
    bs = supply.boards(name, "few") + supply.boards(name, "many") + supply.boards(name, "none")
    bs = [b for b in bs if len(b.rooms) > 1]
    bs.sort(key=lambda b: math.factorial(len(b.rooms)) * math.prod(len(x) for x in b.rooms))
    small = [b for b in bs if math.factorial(len(b.rooms)) * math.prod(len(x) for x in b.rooms) <= 1600]
    return (small[::-1] + bs[len(small):])[:k]


def uses_picks(b):
    p = picks.Picks([])
    with p:
        program(b)
    return bool(p.trail)


def board_task(name, i, tier):
    env.load()
    res = Result()
    bs = boards_of(name, i + 1)
    if len(bs) <= i:
        return res
    b = bs[i]
    if not uses_picks(b):
        return res
    a, ok = agree(res, b, "board", 1600 if tier == "quick" else 20000, 2 if tier == "quick" else 3, 150 if tier == "quick" else 10 ** 6)
    res.names.add(f"{name} {b.R}x{b.C}, {len(b.rooms)} regions: {schedules(b, 1600 if tier == 'quick' else 20000, 2 if tier == 'quick' else 3)[1]}")
    return res


def moved_task(name, i, tier):
    """A clue at every other cell of its region."""
    env.load()
    res = Result()
    bs = [b for b in boards_of(name, 12) if any(b.text.get(p) is not None for p in b.cells)]
    if len(bs) <= i:
        return res
    b = bs[i]
    if not uses_picks(b):
        return res
    s = supply.spec(name)
    for room in b.rooms:
        given = [p for p in room if str(b.idx(*p)) in b.q["number"]]
        if len(given) != 1:
            continue
        src = str(b.idx(*given[0]))
        for p in room:
            dst = str(b.idx(*p))
            if p == given[0] or dst in b.q["symbol"] or dst in b.q["surface"] or src in b.q["symbol"]:
                continue
            o = b.copy()
            o.q["number"][dst] = o.q["number"].pop(src)
            a, ok = agree(res, o, f"clue moved from {given[0]} to {p}", 24 if tier == "quick" else 400, 1)
            if ok and isinstance(a, frozenset):
                exp = s.expected(o)
                if exp is None:
                    continue
                base = exact.base_of(o)
                opt = {exact.merge(o, base, s.draw(o, x)) for x in exp if s.optional(o, x)}
                want = {exact.merge(o, base, s.draw(o, x)) for x in exp}
                res.add(clues_moved=1)
                if a - want or (want - opt) - a:
                    x = sorted((a - want) | ((want - opt) - a), key=str)[0]
                    res.violation(key_of("C09", name, "moved", o.parts()),
                                  f"{name} {o.R}x{o.C}, region clue moved from {given[0]} to {p}: {'illegal answer returned' if x in a else 'legal answer lost'}: {exact.show(o, x)}",
                                  {"kind": "board", "puzzle": name, "url": o.url(), "param": o.param, "board": o.describe()})
                    return res
    return res


def marked_task(name, tier):
    """Player marks in the regions (texts and symbols that are no clues)."""
    env.load()
    res = Result()
    for b in boards_of(name, 1 if tier == "quick" else 3):
        if not uses_picks(b):
            return res
        for m in c07.marks_of(b, c07.prepare(b)):
            if m[0].split()[0] != "cell":
                continue
            o = b.copy()
            m[1](o)
            res.add(marks=1)
            if not agree(res, o, f"mark: {m[0]}", 12 if tier == "quick" else 200, 1)[1]:
                return res
    return res


def walls_task(R, C, lo, hi, step, full, dev):
    """The region search itself, over every set of drawn walls, with a clue at every cell in turn."""
    env.load()
    res = Result()
    try:
        from noqx.puzzle import Direction, Point
        from noqx.rule.helper import full_bfs
        full_bfs(1, 1, {}, None)
    except Exception:
        res.add(region_search_not_found=1)
        return res
    places = [("T", r, c) for r in range(1, R) for c in range(C)] + [("L", r, c) for r in range(R) for c in range(1, C)]
    dirs = {"T": Direction.TOP, "L": Direction.LEFT}
    for bits in range(lo, hi, step):
        walls = {p for i, p in enumerate(places) if bits >> i & 1}
        rooms = {frozenset(x) for x in rooms_of(R, C, walls)}
        edges = {Point(r, c, dirs[k]): True for k, r, c in walls}
        edges[Point(0, 0, Direction.TOP)] = True
        for k, r, c in places:       # a cross on a side is no wall
            if (k, r, c) not in walls and (r + c) % 2:
                edges[Point(r, c, dirs[k])] = False
        for clue in [None] + [(r, c) for r in range(R) for c in range(C)][:: 1 if R * C <= 4 else 2 if R * C <= 6 else 5]:
            clues = {Point(*clue, Direction.CENTER, "normal"): 1} if clue else None

            def run():
                try:
                    return full_bfs(R, C, dict(edges), clues)
                except Exception as e:
                    return f"{type(e).__name__}: {e}"
            n = [len(x) for x in rooms]
            small = math.factorial(len(n)) * math.prod(n) <= full
            for trail, out in (picks.explore(run, 4 * full) if small else picks.deviate(run, dev, 4 * full)):
                if trail is None:
                    res.add(capped_boards=1)
                    break
                res.add(pick_sequences=1, region_searches=1)
                if isinstance(out, str):
                    what = out
                else:
                    got = [frozenset(tuple(p) for p in k) for k in out]
                    what = None
                    if set(got) != rooms or len(got) != len(rooms):
                        what = f"regions {sorted(map(sorted, got))} instead of {sorted(map(sorted, rooms))}"
                    else:
                        for k, v in out.items():
                            w = clue if clue in set(map(tuple, k)) else None
                            if (tuple(v) if v is not None else None) != w:
                                what = f"clue cell {v} instead of {w}"
                if what:
                    res.violation(key_of("C09", "walls", R, C, bits, clue), f"region search on {R}x{C}, walls {sorted(walls)}, clue at {clue}, picks {trail}: {what}",
                                  {"kind": "walls", "rows": R, "cols": C, "walls": sorted(walls), "clue": clue, "picks": trail})
                    return res
    res.names.add(f"region search {R}x{C}: every set of walls")
    return res


def tasks(tier, only=None):
    th = tier == "thorough"
    out = []
    for n in supply.types():
        if only and n not in only:
            continue
        out.append(("nq.c09", "marked_task", (n, tier)))
        out += [("nq.c09", "board_task", (n, i, tier)) for i in range(9 if th else 3)]
        out += [("nq.c09", "moved_task", (n, i, tier)) for i in range(6 if th else 2)]
    if not only:
        for R, C, k in ((1, 1, 0), (1, 4, 3), (4, 1, 3), (2, 2, 4), (2, 3, 7), (3, 2, 7), (3, 3, 12), (2, 4, 10)):
            p = 16 if k > 9 else 4 if k > 4 else 1
            full, dev = (6000, 3) if th else (200, 1) if k <= 7 else (12, 1)
            out += [("nq.c09", "walls_task", (R, C, j, 2 ** k, p, full, dev)) for j in range(p)]
    return out
