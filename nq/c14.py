"""C14: a submitted board is read exactly as drawn.

Boards are written element by element by nq.board (which knows the stored format and nothing of noqx); what PenpaPuzzle.decode()
puts into the dictionaries the solvers read is compared with what was drawn.
"""

import itertools
import json

from . import env
from .board import Board, PREFIX, abbreviate, deflate
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "boards", "transitions": "decodes", "traces_validated_against_impl": "decodes"}
ASSUME = ["the writer in nq/board.py states the stored board format: a frame of two extra rows and columns on each side, point categories cell/corner/lower side/right side, two-point keys in ascending order (descending ones too for diagonals)",
          "element values are the ones the editor stores; text that contains an abbreviation of the format (such as z9) is not drawn"]
SYMS = [("circle_M", 1), ("circle_M", 4), ("ox_E", 3), ("tents", 2), ("battleship_B", 6), ("inequality", 4), ("star", 0), ("arrow_cross", [1, 0, 0, 0]), ("arrow_cross", [0, 1, 0, 1]), ("compass", [1, 1, 1, 1]), ("sudokumore", 10), ("line", 12)]
TEXTS = [("1", "1"), ("0", "1"), ("10", "2"), ("3_1", "2"), ("?", "1"), ("-1", "1"), ("A", "6"), ("AB", "8"), (7, "1"), (0, "1"), ("x", "3"), ("12", "5"), ("2", "9"), ("99", "10"), ("", "1"), ("a b", "1"), ("007", "1")]
TAPA = ["1", "12", "?3", "113", "1111", "?", "0", "ab"]
KIND = {0: "center", 1: "top_left", 2: "top", 3: "left"}


def place(r, c, cat):
    """Where the solvers look for a point of a category: the cell, or the cell whose upper left corner, upper side or left side it is."""
    return {0: (r, c), 1: (r + 1, c + 1), 2: (r + 1, c), 3: (r, c + 1)}[cat] + (KIND[cat],)


def plain(v):
    return int(v) if isinstance(v, int) or v.isdigit() else v


class El:
    """One drawn element: how to write it and what is to be read."""

    def __init__(self, what, write, expect):
        self.what, self.write, self.expect = what, write, expect


def texts(r, c):
    for cat in (0, 1, 2, 3):
        for v, sub in TEXTS:
            yield El(f"text {v!r} style {sub} at {r},{c} category {cat}", lambda L, b, v=v, sub=sub, cat=cat: L["number"].__setitem__(str(b.idx(r, c, cat)), [v, 1, sub]),
                     lambda cat=cat, v=v: {("text", *place(r, c, cat), "normal"): plain(v)})
        yield El(f"candidates at {r},{c} category {cat}", lambda L, b, cat=cat: L["number"].__setitem__(str(b.idx(r, c, cat)), ["1234", 1, "7"]), lambda: {})
    for v in TAPA:
        yield El(f"clue list {v!r} at {r},{c}", lambda L, b, v=v: L["number"].__setitem__(str(b.idx(r, c)), [v, 1, "4"]), lambda v=v: {("text", r, c, "center", f"tapa_{i}"): plain(x) for i, x in enumerate(v)})
    for k in range(8):
        for v in ("4", "B", "?"):
            yield El(f"small number {v!r} at {r},{c} place {k}", lambda L, b, v=v, k=k: L["sudoku"].__setitem__(str(4 * b.idx(r, c, 1 + k // 4) + k % 4), [v, 1, "1"]),
                     lambda v=v, k=k: {("text", r, c, "center", f"sudoku_{k}"): plain(v)})


def symbols(r, c, name):
    for cat in (0, 1, 2, 3):
        for shape, style in SYMS:
            n = style if isinstance(style, int) else sum(x << i for i, x in enumerate(reversed(style)))
            nm = f"{shape}__{n}"
            pos = "multiple" if isinstance(style, list) else "nondango_mark" if name == "nondango" and nm == "circle_M__4" else "normal"
            yield El(f"symbol {shape} {style} at {r},{c} category {cat}", lambda L, b, cat=cat, shape=shape, style=style: L["symbol"].__setitem__(str(b.idx(r, c, cat)), [style, shape, 1]),
                     lambda cat=cat, nm=nm, pos=pos: {("symbol", *place(r, c, cat), pos): nm})


def surfaces(r, c):
    for code in range(1, 13):
        col = {1: "GRAY", 3: "GRAY", 8: "GRAY", 4: "BLACK", 2: "GREEN"}.get(code)
        yield El(f"surface {code} at {r},{c}", lambda L, b, code=code: L["surface"].__setitem__(str(b.idx(r, c)), code), lambda col=col: {("surface", r, c, "center", "normal"): col} if col else {})


def edges(r, c):
    for kind, d in (("T", "top"), ("L", "left"), ("U", "diag_up"), ("D", "diag_down")):
        for style in (2, 3, 13, 21):
            yield El(f"side {kind} of {r},{c} style {style}", lambda L, b, kind=kind, style=style: L["edge"].__setitem__(b.edge_key(kind, r, c), style), lambda d=d: {("edge", r, c, d, "normal"): True})
        if kind == "U":
            yield El(f"side {kind} of {r},{c}, points the other way round", lambda L, b: L["edge"].__setitem__(",".join(reversed(b.edge_key("U", r, c).split(","))), 3), lambda d=d: {("edge", r, c, d, "normal"): True})
    for kind, d, cat, (r1, c1) in (("T", "top", 2, (r - 1, c)), ("L", "left", 3, (r, c - 1))):
        yield El(f"cross on side {kind} of {r},{c}", lambda L, b, cat=cat, r1=r1, c1=c1: L["edge"].__setitem__(str(b.idx(r1, c1, cat)), 98), lambda d=d: {("edge", r, c, d, "normal"): False})


def lines(r, c, name):
    hashi = name == "hashi"
    for d, o, back in (("r", (r, c + 1), "l"), ("d", (r + 1, c), "u")):
        for style in (2, 3, 5, 30):
            n = ("_2" if style == 30 else "_1") if hashi else ""
            yield El(f"line {d} of {r},{c} style {style}", lambda L, b, o=o, style=style: L["line"].__setitem__(f"{b.idx(r, c)},{b.idx(*o)}", style),
                     lambda d=d, o=o, back=back, n=n: {("line", r, c, "center", d + n): True, ("line", *o, "center", back + n): True})
        cat = 3 if d == "r" else 2
        yield El(f"cross on line {d} of {r},{c}", lambda L, b, cat=cat: L["line"].__setitem__(str(b.idx(r, c, cat)), 98),
                 lambda d=d, o=o, back=back: {("line", r, c, "center", d): False, ("line", *o, "center", back): False})
    for d in "lurd":
        for style in (3, 30):
            n = ("_2" if style == 30 else "_1") if hashi else ""
            yield El(f"half line {d} of {r},{c} style {style}", lambda L, b, d=d, style=style: L["line"].__setitem__(b.half_key(r, c, d), style), lambda d=d, n=n: {("line", r, c, "center", d + n): True})




def unread(r, c):
    """What is drawn for decoration only."""
    for k in ("wall", "cage", "freeline", "freeedge", "deleteedge"):
        yield El(f"{k} at {r},{c}", lambda L, b, k=k: L[k].__setitem__(f"{b.idx(r, c)},{b.idx(r, c + 1)}", 2), lambda: {})
    for k in ("thermo", "arrows", "killercages", "nobulbthermo", "squareframe", "polygon"):
        yield El(f"{k} at {r},{c}", lambda L, b, k=k: L[k].append([b.idx(r, c), b.idx(r, c + 1)]), lambda: {})


def everything(r, c, name):
    yield from texts(r, c)
    yield from symbols(r, c, name)
    yield from surfaces(r, c)
    yield from edges(r, c)
    yield from lines(r, c, name)
    yield from unread(r, c)


def few(r, c, name):
    """One element or two of every kind, for combinations."""
    skip = {}
    for e in everything(r, c, name):
        k = e.what.split(" at ")[0].split(" of ")[0].split(" style")[0].split()[0] + str(len(e.expect())) + (e.what[-10:] if "category" in e.what or "place" in e.what else e.what.split()[1])
        skip[k] = skip.get(k, 0) + 1
        if skip[k] <= 1:
            yield e


def read(name, url):
    from noqx.manager import prepare_puzzle
    p = prepare_puzzle(name, url, {})
    out = {}
    for kind in ("surface", "text", "symbol", "edge", "line"):
        for pt, v in getattr(p, kind).items():
            out[(kind, pt.r, pt.c, pt.d.value, pt.pos)] = v.name if kind == "surface" else v
    return p.row, p.col, tuple(p.margin), out


def exact_type(a, b):
    return a == b and isinstance(a, str) == isinstance(b, str) and isinstance(a, bool) == isinstance(b, bool)


def judge(res, b, els, head=None):
    """els: [(layer, element)] drawn one after the other; the problem layer wins over the answer layer."""
    b = Board(b.name, b.R, b.C, b.margin)
    want = {}
    for layer in "aq":
        mine = {}
        for l, e in els:
            if l == layer:
                e.write(b.a if l == "a" else b.q, b)
                mine.update(e.expect())
        want.update(mine)
    url = b.url()
    if head:
        ps = b.parts()
        ps[0] = head + ps[0][len("square"):]
        url = PREFIX + deflate("\n".join(ps))
    what = None
    res.add(boards=1, decodes=1)
    label = [f"{'problem' if l == 'q' else 'answer'} layer: {e.what}" for l, e in els]
    try:
        R, C, m, got = read(b.name, url)
    except Exception as e:
        what = f"refused: {type(e).__name__}: {e}"
    else:
        if (R, C, m) != (b.R, b.C, tuple(b.margin)):
            what = f"size {R}x{C} margin {m} read"
        else:
            bad = [k for k in sorted(set(want) | set(got), key=str) if k not in want or k not in got or not exact_type(want[k], got[k])]
            if bad:
                k = bad[0]
                what = f"{k[0]} at row {k[1]} column {k[2]} ({k[3]}, {k[4]}): drawn {want.get(k, 'nothing')!r}, read {got.get(k, 'nothing')!r}"
    if what:
        res.violation(key_of("C14", b.name, b.R, b.C, b.margin, label, head), f"{b.name} {b.R}x{b.C} margin {tuple(b.margin)} {label}: {what}", {"kind": "decode", "puzzle": b.name, "url": url, "drawn": label})
        return False
    return True


MARGINS = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (2, 0, 3, 1), (1, 3, 0, 2)]
NAMES = ("slitherlink", "hashi", "nondango")


def places(b):
    """All cells, and the ring of cells just outside (clues outside the grid)."""
    return [(r, c) for r in range(-1, b.R + 1) for c in range(-1, b.C + 1)]


def single_task(name, R, C, m, tier):
    env.load()
    res = Result()
    b = Board(name, R, C, m)
    for r, c in places(b):
        for e in everything(r, c, name):
            for l in "qa":
                if not judge(res, b, [(l, e)]) and len(res.viol) > 1:
                    return res
    for head in ("sudoku", "kakuro"):
        for e in few(R - 1, C - 1, name):
            if not judge(res, b, [("q", e)], head):
                return res
    judge(res, b, [])
    res.names.add(f"one element at every place of {R}x{C}, {name}")
    return res


def pair_task(name, R, C, m, k, parts, tier):
    """All ordered pairs of elements on all pairs of places, in all layers."""
    env.load()
    res = Result()
    b = Board(name, R, C, m)
    cells = [(r, c) for r in range(R) for c in range(C)]
    els = [(x, list(few(*x, name))) for x in cells]
    n = 0
    for (x, xs), (y, ys) in itertools.product(els, repeat=2):
        if tier == "quick" and (x, y) not in ((cells[0], cells[0]), (cells[0], cells[-1]), (cells[0], (0, 1)), ((0, 1), cells[0]), (cells[0], (1, 0))):
            continue
        for e, f in itertools.product(xs, ys):
            n += 1
            if n % parts != k:
                continue
            for l in ("qq", "qa", "aa"):
                if l == "aa" and n % 3 and tier == "quick":
                    continue
                if clash(e, f) and l[0] == l[1]:
                    continue
                if not judge(res, b, [(l[0], e), (l[1], f)]) and len(res.viol) > 1:
                    return res
    res.names.add(f"two elements on {R}x{C}, {name}")
    return res


def clash(e, f):
    """Both write the same key, or a line and a cross on the same half: only one of them can be on a layer."""
    a, b = Board("x", 3, 3), Board("x", 3, 3)
    ka, kb = set(), set()
    for el, bd, ks in ((e, a, ka), (f, b, kb)):
        el.write(bd.q, bd)
        ks |= {(k, i) for k, v in bd.q.items() if isinstance(v, dict) for i in v if not k.startswith("command")}
    return bool(ka & kb) or bool(set(e.expect()) & set(f.expect()))


def full_task(R, C, m, tier):
    """A board full of everything at once."""
    env.load()
    res = Result()
    for name in NAMES:
        b = Board(name, R, C, m)
        for shift in range(40 if tier == "quick" else 400):
            els = []
            for l in "qa":
                for i, x in enumerate(places(b)):
                    fs = list(few(*x, name))
                    for j in range(3):
                        e = fs[(shift * 7 + i * 5 + j * 11 + (l == "a") * 3) % len(fs)]
                        if not any(k == l and clash(e, f) for k, f in els):
                            els.append((l, e))
            if not judge(res, b, els):
                return res
    res.names.add(f"many elements on {R}x{C}")
    return res


def tasks(tier, only=None):
    out = []
    sizes = [(1, 1), (1, 3), (3, 2), (4, 5)] + ([(2, 2), (10, 10), (7, 3), (1, 12)] if tier == "thorough" else [])
    for R, C in sizes:
        for i, m in enumerate(MARGINS):
            for name in NAMES:
                if tier == "thorough" or name == "slitherlink" and (R * C < 20 or i in (0, 5)) or (R, C) == (3, 2) and i in (0, 5):
                    out.append(("nq.c14", "single_task", (name, R, C, m, tier)))
    for name in NAMES:
        for R, C, m in (((2, 2, (0, 0, 0, 0)),) if tier == "quick" else ((2, 2, (0, 0, 0, 0)), (2, 3, (1, 0, 2, 0)))):
            for k in range(4):
                out.append(("nq.c14", "pair_task", (name, R, C, m, k, 4, tier)))
    for R, C, m in ((2, 3, (0, 0, 0, 0)), (3, 2, (1, 0, 0, 2))):
        out.append(("nq.c14", "full_task", (R, C, m, tier)))
    return out
