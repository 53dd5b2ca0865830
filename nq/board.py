"""Independent model of a penpa board: a writer and a reader for the URL format, written from the penpa format only.

Nothing here imports noqx.  Geometry: cell (r, c); penpa numbers the points of a (rows+4) x (cols+4) frame, category 0 = cell
centres, 1 = corner at the lower right of the cell, 2 = middle of the lower side, 3 = middle of the right side.
"""

import base64
import json
import zlib
from collections import namedtuple

PREFIX = "m=edit&p="
ABBR = [
    ('"qa"', "z9"), ('"pu_q"', "zQ"), ('"pu_a"', "zA"), ('"grid"', "zG"), ('"edit_mode"', "zM"), ('"surface"', "zS"),
    ('"line"', "zL"), ('"edge"', "zE"), ('"wall"', "zW"), ('"cage"', "zC"), ('"number"', "zN"), ('"sudoku"', "z1"),
    ('"symbol"', "zY"), ('"special"', "zP"), ('"board"', "zB"), ('"command_redo"', "zR"), ('"command_undo"', "zU"),
    ('"command_replay"', "z8"), ('"freeline"', "zF"), ('"freeedge"', "z2"), ('"thermo"', "zT"), ('"arrows"', "z3"),
    ('"d"', "zD"), ('"squareframe"', "z0"), ('"polygon"', "z5"), ('"deleteedge"', "z4"), ('"killercages"', "z6"),
    ('"nobulbthermo"', "z7"), ('"__a"', "z_"), ("null", "zO"),
]
MODE = (
    '{z9:zA,zG:["1","2","1"],zQ:{zM:zE,zS:["",8],zL:["1",2],zE:["1",2],zW:["",2],zC:["1",10],zN:["1",1],zY:["circle_L",1],'
    'zP:[zT,""],zB:["",""],"move":["1",""],"combi":["battleship",""],"sudoku":["1",1]},zA:{zM:zS,zS:["",8],zL:["1",3],'
    'zE:["1",3],zW:["",3],zC:["1",10],zN:["1",2],zY:["circle_L",1],zP:[zT,""],zB:["",""],"move":["1",""],'
    '"combi":["battleship",""],"sudoku":["1",9]}}'
)
LAYER_KEYS = ("surface", "number", "sudoku", "symbol", "freeline", "freeedge", "thermo", "arrows", "d", "squareframe",
              "polygon", "line", "edge", "wall", "cage", "deleteedge", "killercages", "nobulbthermo")
LIST_KEYS = ("thermo", "arrows", "d", "squareframe", "polygon", "killercages", "nobulbthermo")

Ans = namedtuple("Ans", "shade num sym edge line")
E_ANS = Ans(*(frozenset(),) * 5)


def abbreviate(s):
    for a, b in ABBR:
        s = s.replace(a, b)
    return s


def expand(s):
    for a, b in ABBR:
        s = s.replace(b, a)
    return s


def deflate(text):
    return base64.b64encode(zlib.compress(text.encode())[2:-4]).decode()


def inflate(b64):
    return zlib.decompress(base64.b64decode(b64), -15).decode()


def new_layer():
    d = {"command_redo": {"__a": []}, "command_undo": {"__a": []}, "command_replay": {"__a": []}}
    for k in LAYER_KEYS:
        d[k] = [] if k in LIST_KEYS else {}
    return d


class Board:
    """A puzzle instance: geometry, the problem layer q, the answer layer a and the solver options."""

    def __init__(self, name, R, C, margin=(0, 0, 0, 0), param=None):
        self.name, self.R, self.C, self.margin = name, R, C, tuple(margin)
        self.param = dict(param or {})
        self.q, self.a = new_layer(), new_layer()
        self._c = {}

    # ---- geometry -----------------------------------------------------------------------------------------------
    @property
    def _rr(self):
        return self.R + self.margin[0] + self.margin[1] + 4

    @property
    def _cc(self):
        return self.C + self.margin[2] + self.margin[3] + 4

    def idx(self, r, c, cat=0):
        return cat * self._rr * self._cc + (r + 2 + self.margin[0]) * self._cc + c + 2 + self.margin[2]

    def point(self, i):
        cat, i = divmod(i, self._rr * self._cc)
        r, c = divmod(i, self._cc)
        return r - 2 - self.margin[0], c - 2 - self.margin[2], cat

    def edge_key(self, kind, r, c):
        """kind T: upper side of (r, c); L: left side; U: rising diagonal; D: falling diagonal of the cell."""
        a, b = {
            "T": ((r - 1, c - 1), (r - 1, c)),
            "L": ((r - 1, c - 1), (r, c - 1)),
            "U": ((r - 1, c), (r, c - 1)),
            "D": ((r - 1, c - 1), (r, c)),
        }[kind]
        return f"{self.idx(*a, 1)},{self.idx(*b, 1)}"

    def half_key(self, r, c, d):
        o = {"r": (r, c, 3), "d": (r, c, 2), "l": (r, c - 1, 3), "u": (r - 1, c, 2)}[d]
        return f"{self.idx(r, c)},{self.idx(*o)}"

    # ---- building -----------------------------------------------------------------------------------------------
    def num(self, r, c, v, cat=0, sub="1", layer="q", color=1):
        getattr(self, layer)["number"][str(self.idx(r, c, cat))] = [str(v), color, sub]
        return self

    def nums(self, d):
        for (r, c), v in d.items():
            self.num(r, c, v)
        return self

    def corner_num(self, r, c, k, v):
        """Small number in the corner k (0 upper left, 1 upper right, 2 lower left, 3 lower right) or on the side k
        (4 upper, 5 right, 6 left, 7 lower)."""
        i = 4 * self.idx(r, c, 1 + k // 4) + k % 4
        self.q["sudoku"][str(i)] = [str(v), 1, "1"]
        return self

    def sym(self, r, c, name, cat=0, layer="q"):
        shape, style = name.split("__")
        getattr(self, layer)["symbol"][str(self.idx(r, c, cat))] = [int(style), shape, 1]
        return self

    def surf(self, r, c, code, layer="q"):
        getattr(self, layer)["surface"][str(self.idx(r, c))] = code
        return self

    def wall(self, kind, r, c, layer="q", style=2):
        getattr(self, layer)["edge"][self.edge_key(kind, r, c)] = style
        return self

    def no_edge(self, kind, r, c, layer="a"):
        i = self.idx(r - 1, c, 2) if kind == "T" else self.idx(r, c - 1, 3)
        getattr(self, layer)["edge"][str(i)] = 98
        return self

    def line(self, r, c, d, layer="a", style=3):
        """A line drawn from the centre of (r, c) to its neighbour in direction d (r or d)."""
        o = (r, c + 1) if d == "r" else (r + 1, c)
        getattr(self, layer)["line"][f"{self.idx(r, c)},{self.idx(*o)}"] = style
        return self

    def no_line(self, r, c, d, layer="a"):
        i = self.idx(r, c, 3) if d == "r" else self.idx(r, c, 2)
        getattr(self, layer)["line"][str(i)] = 98
        return self

    def rooms_walls(self, rooms, layer="q", border=False):
        lab = {}
        for i, room in enumerate(rooms):
            for p in room:
                lab[p] = i
        for r in range(self.R):
            for c in range(self.C):
                if (r > 0 and lab.get((r, c)) != lab.get((r - 1, c))) or (border and r == 0):
                    self.wall("T", r, c, layer)
                if (c > 0 and lab.get((r, c)) != lab.get((r, c - 1))) or (border and c == 0):
                    self.wall("L", r, c, layer)
                if border and r == self.R - 1:
                    self.wall("T", r + 1, c, layer)
                if border and c == self.C - 1:
                    self.wall("L", r, c + 1, layer)
        return self

    def copy(self):
        b = Board(self.name, self.R, self.C, self.margin, self.param)
        b.q = json.loads(json.dumps(self.q))
        b.a = json.loads(json.dumps(self.a))
        return b

    # ---- url ----------------------------------------------------------------------------------------------------
    def parts(self):
        t, bt, le, ri = self.margin
        w, h = self.C + le + ri, self.R + t + bt
        head = f"square,{w},{h},38,0,1,1,{38 * w + 38},{38 * h + 38},60,60,0,0,0,0,Title: ,Author: ,,,OFF,false"
        return [head, json.dumps(list(self.margin), separators=(",", ":")), MODE,
                abbreviate(json.dumps(self.q, separators=(",", ":"))), abbreviate(json.dumps(self.a, separators=(",", ":"))),
                "[1]", '["Surface"]', "{}", '"x"', '"x"', "[3,1,4]", MODE, '"x"', "0"]

    def url(self):
        return PREFIX + deflate("\n".join(self.parts()))

    @classmethod
    def from_url(cls, name, url, param=None):
        parts = inflate(url[len(PREFIX):]).split("\n")
        head = parts[0].split(",")
        m = json.loads(parts[1])
        b = cls(name, int(head[2]) - m[0] - m[1], int(head[1]) - m[2] - m[3], m, param)
        b.q = json.loads(expand(parts[3]))
        b.a = json.loads(expand(parts[4]))
        return b

    def describe(self):
        def short(layer):
            out = {}
            for k, v in layer.items():
                if k.startswith("command") or not v:
                    continue
                if isinstance(v, dict):
                    dd = {}
                    for i, x in v.items():
                        key = "-".join("{},{}{}".format(*self.point(int(j))[:2], ["", "/c", "/b", "/r"][self.point(int(j))[2]]
                                                         if self.point(int(j))[2] < 4 else "?") for j in i.split(",")) \
                            if k != "sudoku" else "{},{}#{}".format(*self.point(int(i) // 4)[:2],
                                                                     (self.point(int(i) // 4)[2] - 1) * 4 + int(i) % 4)
                        dd[key] = x[0] if k == "number" else x
                    out[k] = dd
                else:
                    out[k] = v
            return out
        return {"puzzle": self.name, "rows": self.R, "cols": self.C, "margin": list(self.margin), "param": self.param,
                "given": short(self.q), "answer_layer": short(self.a)}

    # ---- reading what a player sees -------------------------------------------------------------------------------
    def _memo(self, k, f):
        if k not in self._c:
            self._c[k] = f()
        return self._c[k]

    @property
    def cells(self):
        return grid_cells(self.R, self.C)

    @property
    def text(self):
        """Centre numbers/letters {(r, c): int | str}; problem layer over answer layer, candidates (7) and tapa (4) excluded."""
        def f():
            out = {}
            for layer in (self.a, self.q):
                for i, d in layer["number"].items():
                    r, c, cat = self.point(int(i))
                    if cat == 0 and d[2] not in ("4", "7"):
                        out[(r, c)] = val(d[0])
            return out
        return self._memo("text", f)

    @property
    def text_at(self):
        """Numbers on corners / sides: {(r, c, cat): v}, cat as in the format."""
        def f():
            out = {}
            for layer in (self.a, self.q):
                for i, d in layer["number"].items():
                    r, c, cat = self.point(int(i))
                    if cat and d[2] not in ("4", "7"):
                        out[(r, c, cat)] = val(d[0])
            return out
        return self._memo("text_at", f)

    @property
    def tapa(self):
        def f():
            out = {}
            for layer in (self.a, self.q):
                for i, d in layer["number"].items():
                    r, c, cat = self.point(int(i))
                    if cat == 0 and d[2] == "4":
                        out[(r, c)] = [val(x) for x in d[0]]
            return out
        return self._memo("tapa", f)

    @property
    def corner(self):
        """Corner numbers {(r, c, k): v}."""
        def f():
            out = {}
            for layer in (self.a, self.q):
                for i, d in layer["sudoku"].items():
                    r, c, cat = self.point(int(i) // 4)
                    out[(r, c, (cat - 1) * 4 + int(i) % 4)] = val(d[0])
            return out
        return self._memo("corner", f)

    @property
    def syms(self):
        def f():
            out = {}
            for layer in (self.a, self.q):
                for i, d in layer["symbol"].items():
                    r, c, cat = self.point(int(i))
                    st = int("".join(map(str, d[0])), 2) if isinstance(d[0], list) else d[0]
                    out[(r, c, cat)] = f"{d[1]}__{st}"
            return out
        return self._memo("syms", f)

    @property
    def surfs(self):
        def f():
            out = {}
            for layer in (self.a, self.q):
                for i, d in layer["surface"].items():
                    r, c, _ = self.point(int(i))
                    if d in (1, 2, 3, 4, 8):
                        out[(r, c)] = {1: "gray", 3: "gray", 8: "gray", 4: "black", 2: "green"}[d]
            return out
        return self._memo("surfs", f)

    @property
    def dark(self):
        return self._memo("dark", lambda: {p for p, v in self.surfs.items() if v != "green"})

    @property
    def green(self):
        return self._memo("green", lambda: {p for p, v in self.surfs.items() if v == "green"})

    @property
    def edges(self):
        """Drawn sides {(kind, r, c)}."""
        def f():
            out = set()
            for layer in (self.a, self.q):
                out |= self.edges_of(layer)
            return out
        return self._memo("edges", f)

    def edges_of(self, layer):
        out = set()
        for k in layer["edge"]:
            if "," not in k:
                continue
            (r1, c1, _), (r2, c2, _) = sorted(self.point(int(x)) for x in k.split(","))
            if r1 == r2 and c2 - c1 == 1:
                out.add(("T", r1 + 1, c2))
            elif c1 == c2 and r2 - r1 == 1:
                out.add(("L", r2, c1 + 1))
            elif r2 - r1 == 1 and c2 - c1 == 1:
                out.add(("D", r2, c2))
            elif r2 - r1 == 1 and c1 - c2 == 1:
                out.add(("U", r2, c1))
        return out

    @property
    def rooms(self):
        return self._memo("rooms", lambda: rooms_of(self.R, self.C, self.edges))

    @property
    def room_id(self):
        return self._memo("room_id", lambda: {p: i for i, room in enumerate(self.rooms) for p in room})

    @property
    def halves(self):
        """Line halves {(r, c, d, multiplicity)} from the centre of (r, c) towards d."""
        def f():
            out = set()
            for layer in (self.a, self.q):
                out |= self.halves_of(layer)
            return out
        return self._memo("halves", f)

    def halves_of(self, layer):
        out = set()
        for k, st in layer["line"].items():
            if "," not in k:
                continue
            p1, p2 = (self.point(int(x)) for x in k.split(","))
            m = 2 if st == 30 else 1
            if p1[2] == 0 and p2[2] == 0:
                p1, p2 = sorted((p1, p2))
                d = "rl" if p1[0] == p2[0] else "du"
                out.add((p1[0], p1[1], d[0], m))
                out.add((p2[0], p2[1], d[1], m))
            else:
                if p2[2] == 0:
                    p1, p2 = p2, p1
                same = p1[:2] == p2[:2]
                d = ("d" if same else "u") if p2[2] == 2 else ("r" if same else "l")
                out.add((p1[0], p1[1], d, m))
        return out

    @property
    def crosses(self):
        """Forbidden marks: ('e', kind, r, c) on sides and ('l', r, c, d) on lines (d = r or d)."""
        def f():
            out = set()
            for layer in (self.a, self.q):
                for k in layer["edge"]:
                    if "," not in k:
                        r, c, cat = self.point(int(k))
                        if cat == 2:
                            out.add(("e", "T", r + 1, c))
                        if cat == 3:
                            out.add(("e", "L", r, c + 1))
                for k in layer["line"]:
                    if "," not in k:
                        r, c, cat = self.point(int(k))
                        if cat == 2:
                            out.add(("l", r, c, "d"))
                        if cat == 3:
                            out.add(("l", r, c, "r"))
            return out
        return self._memo("crosses", f)

    def ans(self):
        """Everything drawn on the board, as sets."""
        num = {}
        for layer in (self.a, self.q):
            for i, d in layer["number"].items():
                num[self.point(int(i))] = str(d[0])
        return Ans(frozenset(self.dark), frozenset(num.items()), frozenset(self.syms.items()), frozenset(self.edges),
                   frozenset(self.halves))


def val(x):
    if isinstance(x, int):
        return x
    return int(x) if x.isdigit() else x


_GC = {}


def grid_cells(R, C):
    if (R, C) not in _GC:
        _GC[(R, C)] = [(r, c) for r in range(R) for c in range(C)]
    return _GC[(R, C)]


def rooms_of(R, C, edges):
    seen, out = set(), []
    for p in grid_cells(R, C):
        if p in seen:
            continue
        comp, todo = {p}, [p]
        while todo:
            r, c = todo.pop()
            for n, e in (((r - 1, c), ("T", r, c)), ((r + 1, c), ("T", r + 1, c)), ((r, c - 1), ("L", r, c)),
                         ((r, c + 1), ("L", r, c + 1))):
                if 0 <= n[0] < R and 0 <= n[1] < C and n not in comp and e not in edges:
                    comp.add(n)
                    todo.append(n)
        seen |= comp
        out.append(tuple(sorted(comp)))
    return out
