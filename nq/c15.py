"""C15: an answer is drawn exactly and never overwrites the problem.

store_solution(puzzle, atoms).encode() is given made-up answers of every kind at every place, over every kind of problem and player drawing, and the
returned board is read by nq.board; the answers of real boards of every type are read the same way.
"""

import itertools

from . import c14, env, supply
from .board import PREFIX, Board, inflate
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "boards", "transitions": "encodes", "traces_validated_against_impl": "encodes"}
ASSUME = ["a problem element suppresses an answer element of the same kind at the same place; half lines of an answer next to a full line of the problem are not judged",
          "nondango and hashi draw their answer in the answer layer even where the problem has an element (the problem layer is unchanged)",
          "the meaning of each answer atom (edge_*, grid_*, number, content, triangle, gray, black, symbols) is that of the shared display rules"]


def halves_key(b, r, c, d):
    return b.half_key(r, c, d)


def atoms(name, r, c):
    """(atom text, kind, place key function, value) of every kind of answer element."""
    for s in ("top", "left", "diag_up", "diag_down"):
        k = {"top": "T", "left": "L", "diag_up": "U", "diag_down": "D"}[s]
        yield f"edge_{s}({r},{c})", ("edge", k, r, c), True
    for d in "lurd":
        if name == "hashi":
            for n in (1, 2):
                yield f'grid_direction({r},{c},"{d}",{n})', ("line", r, c, d), n
        else:
            yield f'grid_direction({r},{c},"{d}")', ("line", r, c, d), 1
    for v in (0, 1, 7, 12, -3):
        yield f"number({r},{c},{v})", ("text", r, c), str(v)
    for v in ("A", "xy"):
        yield f'content({r},{c},"{v}")', ("text", r, c), v
    for v, n in (("ul", 1), ("ur", 4), ("dl", 2), ("dr", 3)):
        yield f'triangle({r},{c},"{v}")', ("symbol", r, c), f"tri__{n}"
    yield f"gray({r},{c})", ("surface", r, c), 8
    yield f"black({r},{c})", ("surface", r, c), 4
    for s in ("circle_M__1", "circle_M__2", "ox_E__1", "ox_B__12", "battleship_B__3", "star__0"):
        yield f"{s}({r},{c})", ("symbol", r, c), s


def layer_seen(b, layer):
    """{(kind, place): value} of one layer, as a player sees it (anything outside cell centres, full lines, crosses and decoration under their own keys)."""
    out = {}
    for k, v in layer.items():
        if k.startswith("command") or not v:
            continue
        if k == "edge":
            for i, st in v.items():
                if "," not in i:
                    out[("raw", k, i)] = st
                else:
                    (e,) = b.edges_of({"edge": {i: st}}) or {("raw", k, i)}
                    out[("edge", *e)] = True
        elif k == "line":
            for i, st in v.items():
                cats = [b.point(int(x))[2] for x in i.split(",")]
                if len(cats) == 2 and any(cats):
                    ((r, c, d, n),) = b.halves_of({"line": {i: st}})
                    out[("line", r, c, d)] = n
                else:
                    out[("raw", k, i)] = st
        elif k in ("number", "symbol", "surface"):
            for i, x in v.items():
                r, c, cat = b.point(int(i))
                if cat:
                    out[("raw", k, i)] = x
                elif k == "number":
                    out[("text", r, c)] = str(x[0])
                elif k == "symbol":
                    out[("symbol", r, c)] = f"{x[1]}__{x[0]}" if not isinstance(x[0], list) else x
                else:
                    out[("surface", r, c)] = x
        else:
            out[("raw", k)] = str(v)
    return out


def parts_of(url):
    assert url.startswith(PREFIX)
    return inflate(url[len(PREFIX):]).split("\n")


def expected(b, ats):
    """The answer layer after drawing the atoms (text, place, value)."""
    q, a = layer_seen(b, b.q), layer_seen(b, b.a)
    out = dict(a)
    for _, key, v in ats:
        always = b.name == "nondango" and key[0] == "symbol" or b.name == "hashi" and key[0] == "line"
        if always or key not in q:
            out[key] = v
    return out


def differs(b, url, want):
    """None, or what the returned board has wrong."""
    old, new = b.parts(), parts_of(url)
    if len(old) != len(new):
        return f"{len(new)} parts instead of {len(old)}"
    for i, (x, y) in enumerate(zip(old, new)):
        if i != 4 and x != y:
            return "the problem layer is changed" if i == 3 else f"part {i} of the board is changed: {y[:80]!r} instead of {x[:80]!r}"
    got = layer_seen(b, Board.from_url(b.name, url).a)
    for k in sorted(set(got) | set(want), key=str):
        if got.get(k) != want.get(k):
            return f"{k}: {want.get(k, 'nothing')!r} expected in the answer, {got.get(k, 'nothing')!r} drawn"
    return None


def judge(res, b, ats, label):
    from noqx.manager import prepare_puzzle, store_solution
    res.add(boards=1, encodes=1)
    text = " ".join(t for t, _, _ in ats)
    try:
        p = prepare_puzzle(b.name, b.url(), {})
        what = differs(b, store_solution(p, text).encode(), expected(b, ats))
        if not what:  # the board the answers are drawn on is the one submitted, whatever was drawn before
            what = differs(b, store_solution(p, "").encode(), expected(b, []))
            what = what and "after another answer: " + what
    except Exception as e:
        what = f"refused: {type(e).__name__}: {e}"
    if what:
        res.violation(key_of("C15", b.name, b.R, b.C, b.margin, text, label), f"{b.name} {b.R}x{b.C} margin {tuple(b.margin)}, answer {text or 'empty'} over {label}: {what}",
                      {"kind": "encode", "puzzle": b.name, "url": b.url(), "atoms": text, "drawn": label})
    return not what


def drawn(els, b):
    o = Board(b.name, b.R, b.C, b.margin)
    for l, e in els:
        e.write(o.q if l == "q" else o.a, o)
    return o


def unclear(e):
    """Full lines of the problem are not judged against half lines; boards do not store the points of a side the other way round."""
    return e.what.startswith("line ") or "other way" in e.what


def under_task(name, R, C, m, tier):
    """Every answer element at every place: alone, over the same place drawn on by every element, in both layers."""
    env.load()
    res = Result()
    b = Board(name, R, C, m)
    for r, c in c14.places(b):
        for at in atoms(name, r, c):
            if not judge(res, b, [at], "an empty board") and len(res.viol) > 1:
                return res
    spots = [(r, c) for r, c in c14.places(b) if tier == "thorough" or (r, c) in ((0, 0), (R - 1, C - 1), (0, C - 1), (-1, 0), (R, C - 1))]
    for r, c in spots:
        els = [e for x in ((r, c), (r, c + 1), (r + 1, c)) for e in c14.everything(*x, name) if (x == (r, c) or e.what.split()[0] in ("line", "half", "side", "surface")) and not (e.what.startswith("text") and "category" in e.what and e.what[-1] != "0" and "'1'" not in e.what)]
        for at in atoms(name, r, c):
            for e in els:
                for l in "qa":
                    if unclear(e) and ("other way" in e.what or l == "q" and at[1][0] == "line"):
                        continue
                    if not judge(res, drawn([(l, e)], b), [at], f"{'problem' if l == 'q' else 'answer'} layer: {e.what}") and len(res.viol) > 1:
                        return res
    res.names.add(f"one answer element over one drawn element, {name} {R}x{C}")
    return res


def many_task(name, R, C, m, tier):
    """Answers of several elements over boards of several elements."""
    env.load()
    res = Result()
    b = Board(name, R, C, m)
    cells = [(r, c) for r in range(R) for c in range(C)]
    for x, y in itertools.combinations(cells, 2):
        for p, q in itertools.product(atoms(name, *x), atoms(name, *y)):
            if not judge(res, b, [p, q], "an empty board") and len(res.viol) > 1:
                return res
    for x in cells[:2]:
        for p, q in itertools.combinations(atoms(name, *x), 2):
            if p[1] != q[1] and not judge(res, b, [p, q], "an empty board") and len(res.viol) > 1:
                return res
    for shift in range(60 if tier == "quick" else 600):
        els, ats = [], []
        for l in "qa":
            for i, x in enumerate(cells):
                fs = [e for e in c14.few(*x, name) if not unclear(e)]
                for j in range(3):
                    e = fs[(shift * 7 + i * 5 + j * 11 + (l == "a") * 3) % len(fs)]
                    if not any(k == l and c14.clash(e, f) for k, f in els):
                        els.append((l, e))
        for i, x in enumerate(cells):
            al = list(atoms(name, *x))
            for j in range(4):
                p = al[(shift * 3 + i * 7 + j * 5) % len(al)]
                if all(p[1] != k for _, k, _ in ats):
                    ats.append(p)
        if not judge(res, drawn(els, b), ats, "; ".join(f"{l}: {e.what}" for l, e in els)):
            return res
    res.names.add(f"several answer elements, {name} {R}x{C}")
    return res


def real_task(name, tier):
    """Answers of real boards: only the answer layer changes, the player's drawings stay, no answer element lies on a problem element."""
    env.load()
    res = Result()
    bs = supply.boards(name, "few", 2 if tier == "quick" else 6)
    for b in bs:
        for m in ([0] * 4, [1, 0, 2, 1]):
            o = supply.with_margin(b, [x + y for x, y in zip(b.margin, m)])
            # something the solver does not read, in both layers
            o.q["cage"][f"{o.idx(0, 0)},{o.idx(0, 1)}"] = 1
            o.q["freeline"][f"{o.idx(0, 0)},{o.idx(1, 1)}"] = 2
            o.a["wall"][f"{o.idx(0, 0)},{o.idx(0, 1)}"] = 1
            if name not in ("tapa",):
                o.a["number"].setdefault(str(o.idx(o.R - 1, o.C - 1)), ["12", 1, "7"])
            try:
                urls = env.solve(name, o.url(), o.param, 4)
            except Exception as e:
                res.add(refused=1)
                continue
            q, a = layer_seen(o, o.q), layer_seen(o, o.a)
            old = o.parts()
            for u in urls:
                res.add(boards=1, encodes=1)
                new = parts_of(u)
                what = None
                if [x for i, x in enumerate(new) if i != 4] != [x for i, x in enumerate(old) if i != 4]:
                    what = "something else than the answer layer is changed"
                got = layer_seen(o, Board.from_url(name, u).a)
                gone = [k for k in a if k not in got or got[k] != a[k] and k[0] == "raw"]
                over = [k for k in got if k in q and k[0] != "raw" and k not in a and not (name == "nondango" and k[0] == "symbol" or name == "hashi" and k[0] == "line")]
                if not what and gone:
                    what = f"the player's {gone[0]} is lost"
                if not what and over:
                    what = f"the answer draws over the problem at {over[0]}: {q[over[0]]!r} under {got[over[0]]!r}"
                if what:
                    res.violation(key_of("C15", name, o.url()), f"{name} {o.R}x{o.C} margin {tuple(o.margin)}: {what}", {"kind": "board", "puzzle": name, "url": o.url(), "param": o.param, "answer": u})
                    return res
    res.names.add(f"{name}: real answers")
    return res


def tasks(tier, only=None):
    out = []
    for name in ("slitherlink", "hashi", "nondango"):
        for R, C in ((1, 1), (2, 3), (3, 2)) + (((4, 5),) if tier == "thorough" else ()):
            for i, m in enumerate(c14.MARGINS):
                if tier == "thorough" or (R * C > 1 and i in (0, 5) and (name == "slitherlink" or (R, C, i) == (2, 3, 5))):
                    out.append(("nq.c15", "under_task", (name, R, C, m, tier)))
        out.append(("nq.c15", "many_task", (name, 2, 3, (0, 0, 0, 0), tier)))
        out.append(("nq.c15", "many_task", (name, 3, 2, (2, 0, 1, 3), tier)))
    out += [("nq.c15", "real_task", (n, tier)) for n in supply.types() if not only or n in only]
    return out
