"""Small base boards of every puzzle type, taken from the spaces of the exact checks."""

import itertools
import json
import os
import time

from . import exact
from .board import Board

PROPS = tuple(exact.MODULES)
_WHERE = {}


def types():
    if not _WHERE:
        for p in PROPS:
            for n in exact.specs(p):
                _WHERE[n] = p
    return sorted(_WHERE)


def spec(name):
    types()
    return exact.specs(_WHERE[name])[name]


def with_margin(b, m):
    """The same board inside another white margin."""
    o = type(b)(b.name, b.R, b.C, m, b.param)

    def new(i):
        r, c, cat = b.point(int(i))
        return o.idx(r, c, cat)

    for src, dst in ((b.q, o.q), (b.a, o.a)):
        for k, v in src.items():
            if k == "sudoku":
                dst[k] = {str(4 * new(int(i) // 4) + int(i) % 4): x for i, x in v.items()}
            elif isinstance(v, dict) and not k.startswith("command"):
                dst[k] = {",".join(str(new(j)) for j in i.split(",")): x for i, x in v.items()}
    return o


def find(name, k, lo, hi, cells, seconds):
    """k boards with lo..hi answers, from different spaces where possible; oblong boards with some clues first (used by tools/mksupply.py)."""
    s = spec(name)
    t0 = time.process_time()
    found = []
    for label, gen in s.spaces("quick"):
        if time.process_time() - t0 > seconds and len(found) >= k:
            break
        seen, mine = 0, []
        for i, b in enumerate(itertools.islice(gen(), 600)):
            if i % 7 and i > 12:
                continue
            if not cells[0] <= b.R * b.C <= cells[1]:
                break
            seen += 1
            if seen > 60:
                break
            try:
                n = len(s.expected(b) or [])
            except Exception:
                continue
            if lo <= n <= hi:
                clues = sum(len(b.q[j]) for j in ("number", "symbol", "surface", "edge", "sudoku"))
                kinds = sum(1 for j in ("number", "symbol", "surface", "edge", "sudoku", "line") if b.q[j])
                mine.append(((2 <= n <= 8, n > 1 or hi == 0, 6 <= b.R * b.C <= 16, min(b.R, b.C) > 1, b.R != b.C, kinds, min(clues, 6)), -i, b))
        mine.sort(key=lambda f: f[:2], reverse=True)
        for rank, m in enumerate(mine[:3]):
            found.append((-rank, m[0], len(found), m[2]))
    found.sort(key=lambda f: f[:3], reverse=True)
    return [f[3] for f in found[:k]]


_DATA = {}


def boards(name, kind="few", k=None):
    if not _DATA:
        with open(os.path.join(os.path.dirname(__file__), "supply.json")) as f:
            _DATA.update(json.load(f))
    return [Board.from_url(name, u, p) for u, p in _DATA[name].get(kind, [])[:k]]
