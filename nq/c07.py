"""C07: the answers of a board with the player's marks are the answers of the board without marks that agree with every mark."""

import itertools
import json

from . import env, exact, supply
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "mark_sets", "transitions": "solver_runs", "traces_validated_against_impl": "answers_compared"}
ASSUME = ["marks are put on the small boards listed under covered, singly and in pairs", "the answers of the unmarked board are taken from the solver itself (C01-C06 decide them)"]


GREEN_REFUSED = ("doppelblock", "koburin", "magnets", "nanro", "putteria", "yajilin", "yajilin_regions")   # refuse the board with an error
NUMBERS_ARE_CLUES = ("kakuru",)                                                                       # any number on the board is a clue


def marks_of(b, S):
    """All single marks: (text, function that draws it on a board, function that says whether an answer agrees)."""
    base = exact.merge(b, exact.base_of(b), exact.drawn())
    new = [exact.Ans(*(getattr(s, k) - getattr(base, k) for k in s._fields)) for s in S]
    out = []
    q = b.q
    if any(s.shade for s in new):
        for p in b.cells:
            i = str(b.idx(*p))
            if i in q["surface"] or i in b.a["surface"]:
                continue
            for code in b.codes:
                out.append((f"cell {p} shaded with {code}", lambda o, p=p, code=code: o.surf(*p, code, "a"), lambda s, p=p: p in s.shade))
            if i not in q["number"] and i not in q["symbol"] and b.name not in GREEN_REFUSED:
                out.append((f"cell {p} green", lambda o, p=p: o.surf(*p, 2, "a"), lambda s, p=p: p not in s.shade))
    vals = sorted({v for s in new for (r, c, cat), v in s.num if cat == 0})
    if vals and b.name not in NUMBERS_ARE_CLUES:
        for p in b.cells:
            i = str(b.idx(*p))
            if i in q["number"] or i in b.a["number"] or i in b.q["surface"] and b.q["surface"][i] == 4:
                continue
            if i in q["symbol"]:
                continue
            for v in vals:
                out.append((f"cell {p} {v}", lambda o, p=p, v=v: o.num(*p, v, layer="a", color=2), lambda s, p=p, v=v: ((*p, 0), v) in s.num))
    names = sorted({n for s in new for (r, c, cat), n in s.sym if cat == 0})
    if names:
        for p in b.cells:
            i = str(b.idx(*p))
            if i in q["symbol"] or i in b.a["symbol"] or i in q["surface"]:
                continue
            if (i in q["number"]) != (b.name == "usoone"):   # usoone marks its clues
                continue
            for n in names:
                out.append((f"cell {p} {n}", lambda o, p=p, n=n: o.sym(*p, n, layer="a"), lambda s, p=p, n=n: ((*p, 0), n) in s.sym))
    if any(s.edge for s in new):
        kinds = {e[0] for s in new for e in s.edge}
        for k in sorted(kinds | ({"T", "L"} if kinds & {"T", "L"} else set())):
            for r in range(b.R + 1):
                for c in range(b.C + 1):
                    if k in "TUD" and c == b.C or k in "LUD" and r == b.R:
                        continue
                    if b.edge_key(k, r, c) in q["edge"]:
                        continue
                    out.append((f"side {k} {r},{c} drawn", lambda o, k=k, r=r, c=c: o.wall(k, r, c, "a", 3), lambda s, k=k, r=r, c=c: (k, r, c) in s.edge))
                    if k in "TL":
                        out.append((f"side {k} {r},{c} crossed", lambda o, k=k, r=r, c=c: o.no_edge(k, r, c), lambda s, k=k, r=r, c=c: (k, r, c) not in s.edge))
    if b.name == "pipelink":                 # a piece drawn in a cell is a whole piece
        for r, c in b.cells:
            for piece in sorted({tuple(sorted(h[2] for h in s.line if h[:2] == (r, c))) for s in S}):
                if any(h[:2] == (r, c) for h in base.line) or not piece:
                    continue

                def draw(o, r=r, c=c, piece=piece):
                    for d in piece:
                        o.a["line"][o.half_key(r, c, d)] = 3
                out.append((f"piece {r},{c} {''.join(piece)}", draw, lambda s, r=r, c=c, piece=piece: {h[2] for h in s.line if h[:2] == (r, c)} == set(piece)))
    elif any(s.line for s in new):
        mult = sorted({ln[3] for s in new for ln in s.line})
        for r, c in b.cells:
            for d, e, f in (("r", "l", (0, 1)), ("d", "u", (1, 0))):
                q2 = (r + f[0], c + f[1])
                if q2[0] >= b.R or q2[1] >= b.C:
                    continue
                for m in mult:
                    h1, h2 = (r, c, d, m), (*q2, e, m)
                    st = 30 if m == 2 else 3
                    out.append((f"line {r},{c} {d}" + (" double" if m == 2 else ""), lambda o, r=r, c=c, d=d, st=st: o.line(r, c, d, "a", st),
                                lambda s, h1=h1, h2=h2: h1 in s.line and h2 in s.line))
                if b.name != "hashi":
                    a1, a2 = (r, c, d, 1), (*q2, e, 1)
                    out.append((f"line {r},{c} {d} crossed", lambda o, r=r, c=c, d=d: o.no_line(r, c, d), lambda s, a1=a1, a2=a2: a1 not in s.line and a2 not in s.line))
    return out


def prepare(b):
    """Answers without marks and what the type's answers are made of."""
    parts = b.parts()
    urls = env.solve(b.name, b.url(), b.param, 0)
    codes = set()
    for u in urls:
        o = type(b).from_url(b.name, u, b.param)
        codes |= {v for i, v in o.a["surface"].items() if i not in b.a["surface"]}
    b.codes = sorted(codes - {2})
    if b.codes == [8]:
        b.codes = [1, 3, 8]
    return {exact.observe(b, u, parts) for u in urls}


def place(text):
    """The cell, side or line a mark is on: two marks of one place would overwrite each other."""
    w = text.split()
    return " ".join(w[:3])


def board_task(name, kind, i, pairs, part, parts):
    env.load()
    res = Result()
    bs = supply.boards(name, kind, i + 1)
    if len(bs) <= i:
        return res
    b = bs[i]
    S = prepare(b)
    ms = marks_of(b, S)
    res.names.add(f"{name} {b.R}x{b.C} board {i}: {len(ms)} marks" + (" and pairs" if pairs else ""))
    sets = [(m,) for m in ms]
    if pairs:
        two = [t for t in itertools.combinations(ms, 2) if place(t[0][0]) != place(t[1][0])]
        sets += two if pairs is True else two[:: max(1, len(two) // pairs)]
    for j, ss in enumerate(sets):
        if j % parts != part:
            continue
        o = b.copy()
        for m in ss:
            m[1](o)
        want = {s for s in S if all(m[2](s) for m in ss)}
        got, err = exact.ask(o, 0)
        res.add(mark_sets=1, solver_runs=1)
        if err == "timeout":
            res.add(timeouts=1)
            continue
        what = None
        if err:
            what = f"refused: {err}" if want else None
        else:
            gs = {exact.Ans(s.shade, s.num, s.sym, s.edge, s.line) for s in got}
            res.add(answers_compared=len(gs), marks_with_answers=bool(want), marks_without_answer=not want)
            if gs - want:
                what = f"an answer that does not agree with the marks is returned: {exact.show(o, sorted(gs - want, key=str)[0])}"
            elif want - gs:
                what = f"an answer that agrees with the marks is lost: {exact.show(b, sorted(want - gs, key=str)[0])}"
        if what:
            label = " and ".join(m[0] for m in ss)
            cls = ss[0][0].split()[0]
            res.violation(key_of("C07", name, i, label), f"{name} {b.R}x{b.C} board {kind} {i}, marks: {label}: {what}",
                          {"kind": "board", "puzzle": name, "url": o.url(), "param": o.param, "board": o.describe(), "unmarked_url": b.url(), "class": cls})
            if len(res.viol) >= 3:
                break
    return res


def tasks(tier, only=None):
    th = tier == "thorough"
    out = []
    for n in supply.types():
        if only and n not in only:
            continue
        for i in range(6 if th else 3):
            pairs = True if th else (60 if i == 0 else 15)
            parts = 8 if th else 1
            for k in range(parts):
                out.append(("nq.c07", "board_task", (n, "few", i, pairs, k, parts)))
    return out
