"""Reference rules of the object placement puzzles.  A candidate is a mask of cells or a tuple of values in cell order."""

import itertools
import json

from .exact import drawn, subsets
from .grid import DIRS, G, OMINO_NAMES, omino, orientations, partitions, pop, shape_id
from .refs_num import Num, Room, Searched, Skyscrapers
from .refs_region import Div, no_cross, touching
from .refs_shade import stride
from .shade import parse_part, room_masks


class Mark(Num):
    """A candidate is the mask of the cells that hold the object; ("g", p) places are marks of the object given on the board."""

    symbol = ""
    marks = ()         # given marks: symbol names
    zero_is_number = False

    def draw(self, b, x):
        return drawn(sym={p: self.symbol for p in G(b.R, b.C).list(x)})

    def parse(self, s):
        return G(s.R, s.C).mask(p[:2] for p, n in s.syms.items() if n == self.symbol and G(s.R, s.C).inside(*p[:2]))

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        if not self.base(b, g, x):
            return False, "general rules"
        for p, v in self.clues(b):
            if not self.clue_ok(b, x, p, v):
                return False, f"clue {p} {v}"
        return self.joint(b, x), "clues together"

    def base(self, b, g, x):
        return True

    def universe(self, b):
        g = G(b.R, b.C)
        return [m for m in range(1 << g.n) if self.base(b, g, m)]

    def clues(self, b):
        g = G(b.R, b.C)
        return [(("g", p[:2]), n) for p, n in b.syms.items() if n in self.marks and g.inside(*p[:2])] + self.more(b)

    def clue_ok(self, b, x, p, v):
        g = G(b.R, b.C)
        if p[0] == "g":
            return self.mark_ok(b, g, x, p[1], v)
        return self.ok(b, g, x, p, v)

    def mark_ok(self, b, g, x, p, n):
        return bool(x & g.bit(p)) == (n == self.symbol)

    def given_values(self, b):
        return list(self.marks)

    def put(self, b, p, v):
        if p[0] == "g":
            b.sym(*p[1], v)
        else:
            self.put_extra(b, p, v)

    def places(self, b):
        h = self.hole_mask(b)
        g = G(b.R, b.C)
        return ([("g", p) for p in b.cells if not h & g.bit(p)] if self.marks else []) + self.extra_places(b)

    def given_of(self, b, x):
        g = G(b.R, b.C)
        h = self.hole_mask(b)
        return [(("g", p), v) for p in b.cells if not h & g.bit(p) for v in self.marks if self.mark_ok(b, g, x, p, v)]

    def seed(self, x):
        return x if isinstance(x, int) else sum(i * v for i, v in enumerate(x))

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        ex = [(p, v) for p in self.extra_places(b) for v in [self.exact(b, g, x, p)] if v is not None]
        gv = self.given_of(b, x)
        k = self.seed(x)
        if ex:
            yield tuple(ex)
            yield tuple(ex[k % 2::2])
            yield tuple(ex[k % 3::3]) + tuple(gv[k % 4::4])
        else:
            yield tuple(gv[k % 2::2])
            yield tuple(gv[k % 4::4])

    # -- counts written left of and above the grid
    def outside(self, b):
        return [(("row", p[0]), v) for p, v in b.text.items() if p[1] == -1 and 0 <= p[0] < b.R and isinstance(v, int)] + \
               [(("col", p[1]), v) for p, v in b.text.items() if p[0] == -1 and 0 <= p[1] < b.C and isinstance(v, int)]

    def outside_places(self, b):
        return [("row", r) for r in range(b.R)] + [("col", c) for c in range(b.C)]

    def line_count(self, g, x, p):
        return pop(x & (g.row[p[1]] if p[0] == "row" else g.col[p[1]]))

    def put_outside(self, b, p, v):
        b.num(*((p[1], -1) if p[0] == "row" else (-1, p[1])), v)


def alone8(g, x):
    """No two cells of x touch, not even diagonally."""
    m = x
    while m:
        k = m & -m
        m ^= k
        if g.nb8[k.bit_length() - 1] & x:
            return False
    return True


def spread8(g, start=0, need=None):
    """All sets of cells no two of which touch."""
    out = []

    def rec(i, m):
        while i < g.n:
            if not g.nb8[i] & m:
                rec(i + 1, m | 1 << i)
            i += 1
        out.append(m)
    rec(0, 0)
    return out


# ---- akari ----------------------------------------------------------------------------------------------------------
class Akari(Mark):
    name = "akari"
    symbol = "sun_moon__3"
    marks = ("sun_moon__3",)
    hole_count = 2
    plan = (((1, 1), 2, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((1, 3), 2, 9), ((2, 2), 2, 9), ((1, 4), 2, 9), ((4, 1), 1, 9), ((2, 3), 1, 9), ((3, 2), 1, 9), ((3, 3), 1, 4))

    def hole_mask(self, b):
        return b._memo("hm", lambda: G(b.R, b.C).mask(p for p in b.dark if G(b.R, b.C).inside(*p)))

    def sight(self, b):
        def f():
            g = G(b.R, b.C)
            h = self.hole_mask(b)
            return [g.mask(q for d in DIRS for q in g.ray(p, d, h)) for p in g.cells]
        return b._memo("sight", f)

    def universe(self, b):
        g = G(b.R, b.C)
        see = self.sight(b)
        free = [i for i in range(g.n) if not self.hole_mask(b) >> i & 1]
        need = sum(1 << i for i in free)
        out = []

        def rec(k, m, lit):
            if k == len(free):
                if lit == need:
                    out.append(m)
                return
            i = free[k]
            if not lit >> i & 1:
                rec(k + 1, m | 1 << i, lit | see[i] | 1 << i)
            rec(k + 1, m, lit)
        rec(0, 0, 0)
        return sorted(set(out))

    def base(self, b, g, x):
        see = self.sight(b)
        lit = x
        for i in range(g.n):
            if x >> i & 1:
                if see[i] & x:
                    return False
                lit |= see[i]
        return not x & self.hole_mask(b) and lit | self.hole_mask(b) == g.full

    def more(self, b):
        g = G(b.R, b.C)
        return [(("n", p), v) for p, v in b.text.items() if g.inside(*p) and isinstance(v, int)]

    def exact(self, b, g, x, p):
        return pop(g.nb[g.i(p[1])] & x)

    def extra_places(self, b):
        g = G(b.R, b.C)
        return [("n", p) for p in g.list(self.hole_mask(b))]

    def extra_values(self, b, p):
        return [0, 1, 2, 3, 4]

    def put_extra(self, b, p, v):
        b.num(*p[1], v)

    def spaces(self, tier):
        th = tier == "thorough"
        out = super().spaces(tier)
        out.append(("2x3, every set of black cells, full clue sets", self.gen((2, 3), 0, 3, None, lambda: self.holes_for((2, 3), 5))))
        out.append(("3x3, every set of 3..6 black cells, one clue set", self.gen((3, 3), None, "one", None, lambda: [h for h in self.holes_for((3, 3), 6) if len(h) > 2])))
        for s in ((3, 4), (4, 3), (4, 4)):
            out.append((f"{s[0]}x{s[1]}, sets of black cells, one clue set", self.gen(s, None, 3 if th else "one", None, lambda s=s: [
                h for k in (2, 3, 4) for h in stride([h for h in self.holes_for(s, 4) if len(h) == k], 400 if th else 50)])))
        return out


# ---- battleship -----------------------------------------------------------------------------------------------------
class Battleship(Searched, Mark):
    name = "battleship"
    margin = (1, 0, 1, 0)
    symbol = "battleship_B"
    FLEET = (4, 3, 3, 2, 2, 2, 1, 1, 1, 1)

    def expected(self, b):
        return self.universe(b)

    def bars(self, g):
        if not hasattr(self, "_bars"):
            self._bars = {}
        k = (g.R, g.C)
        if k not in self._bars:
            out = {}
            for n in (1, 2, 3, 4):
                out[n] = []
                for r, c in g.cells:
                    for dr, dc in ((0, 1), (1, 0)) if n > 1 else ((0, 1),):
                        if g.inside(r + dr * (n - 1), c + dc * (n - 1)):
                            m = g.mask((r + dr * i, c + dc * i) for i in range(n))
                            out[n].append((m, g.expand8(m)))
            self._bars[k] = out
        return self._bars[k]

    CAP = 6000

    STEPS = 40000

    def universe(self, b):
        return b._memo("uni", lambda: self.search(b))

    def search(self, b):
        """All answers of the board, or None when the search takes more than STEPS steps or finds more than CAP answers."""
        g = G(b.R, b.C)
        need = dict(self.outside(b))
        must = forbid = steps = 0
        for p, n in b.syms.items():
            k = int(n.split("__")[1])
            if k in (7, 8):
                forbid |= g.bit(p[:2])
            else:
                must |= g.bit(p[:2])
        lim = [(g.row[k] if t == "row" else g.col[k], v) for (t, k), v in need.items()]
        out = []
        bars = self.bars(g)

        def ok(x):
            return all(pop(x & m) <= v for m, v in lim)

        def room(x, near, left):
            """Every wanted line can still be filled."""
            return all(pop((x | (g.full & ~near & ~forbid)) & m) >= v for m, v in lim)

        rest = [sum(self.FLEET[i:]) for i in range(len(self.FLEET) + 1)]

        def rec(i, x, near, start):
            nonlocal steps
            steps += 1
            if len(out) > self.CAP or steps > self.STEPS or pop(must & ~x) > rest[i] or must & near & ~x:
                return
            if i == len(self.FLEET):
                if not must & ~x and all(pop(x & m) == v for m, v in lim):
                    out.append(x)
                return
            n = self.FLEET[i]
            bl = bars[n]
            for j in range(start, len(bl)):
                m, e = bl[j]
                if m & near or m & forbid:
                    continue
                y = x | m
                if ok(y) and room(y, near | e, i):
                    rec(i + 1, y, near | e, j + 1 if i + 1 < len(self.FLEET) and self.FLEET[i + 1] == n else 0)
        rec(0, 0, 0, 0)
        if len(out) > self.CAP or steps > self.STEPS:
            return None
        return [x for x in out if all(self.mark_ok(b, g, x, p[:2], n) for p, n in b.syms.items())]

    def base(self, b, g, x):
        return sorted((pop(k) for k in g.comps8(x)), reverse=True) == list(self.FLEET) and all(g.is_rect(k) and 1 in (g.box(k)[2] - g.box(k)[0] + 1, g.box(k)[3] - g.box(k)[1] + 1)
                                                                                               for k in g.comps8(x))

    def part(self, g, x, p):
        d = {k for k, (a, e) in DIRS.items() if g.inside(p[0] + a, p[1] + e) and x & g.bit((p[0] + a, p[1] + e))}
        return {frozenset(): 1, frozenset("r"): 3, frozenset("d"): 4, frozenset("l"): 5, frozenset("u"): 6}.get(frozenset(d), 2)

    def clues(self, b):
        g = G(b.R, b.C)
        return [(("g", p[:2]), n) for p, n in b.syms.items() if g.inside(*p[:2])] + self.outside(b)

    def mark_ok(self, b, g, x, p, n):
        k = int(n.split("__")[1])
        if k in (7, 8):
            return not x & g.bit(p)
        return bool(x & g.bit(p)) and self.part(g, x, p) == k

    def ok(self, b, g, x, p, v):
        return self.line_count(g, x, p) == v

    def draw(self, b, x):
        g = G(b.R, b.C)
        return drawn(sym={p: f"battleship_B__{self.part(g, x, p)}" for p in g.list(x)})

    def parse(self, s):
        g = G(s.R, s.C)
        return g.mask(p[:2] for p, n in s.syms.items() if n.startswith("battleship") and n[-1] not in "78" and g.inside(*p[:2]))

    def joint(self, b, x):
        return True

    def put_outside(self, b, p, v):
        b.num(*((p[1], -1) if p[0] == "row" else (-1, p[1])), v)

    def fleets(self, g, k):
        """k placements of the fleet, spread over the search tree by rotating the order of the positions."""
        bars = self.bars(g)
        out = []
        for s in range(k * 6):
            order = {n: [bl[(j * 7 + s * 13 + n * s) % len(bl)] for j in range(len(bl))] if len(bl) % 7 else bl[s % len(bl):] + bl[:s % len(bl)] for n, bl in bars.items()}
            steps = [0]

            def rec(i, x, near):
                steps[0] += 1
                if i == len(self.FLEET):
                    return x
                if steps[0] > 4000:
                    return None
                for m, e in order[self.FLEET[i]]:
                    if not m & near:
                        y = rec(i + 1, x | m, near | e)
                        if y:
                            return y
                return None
            x = rec(0, 0, 0)
            if x and x not in out:
                out.append(x)
            if len(out) == k:
                break
        return out

    def spaces(self, tier):
        th = tier == "thorough"
        return [(f"{s[0]}x{s[1]}, full counts and ships of {k} fleets", self.fleet_boards(s, k)) for s, k in
                (((7, 7), 60 if th else 8), ((7, 8), 60 if th else 6), ((8, 7), 60 if th else 6), ((8, 8), 40 if th else 5), ((6, 9), 40 if th else 5), ((9, 6), 40 if th else 4))]

    def fleet_boards(self, s, k):
        def f():
            g = G(*s)
            for j, x in enumerate(self.fleets(g, k)):
                rows = [(("row", r), pop(x & g.row[r])) for r in range(g.R)]
                cols = [(("col", c), pop(x & g.col[c])) for c in range(g.C)]
                cs = g.list(x)
                sea = g.list(g.full & ~x)
                ship = [(p, f"battleship_B__{self.part(g, x, p)}") for p in cs]
                water = [(p, f"battleship_B__{7 + i % 2}") for i, p in enumerate(sea)]
                boards = [
                    (rows + cols, ship[j % 3::5]), (rows + cols, []), (rows + cols[::2], ship[j % 3::3] + water[j % 4::4]),
                    (rows[::2] + cols, ship[1::2] + water[::3]), ([], ship[::2] + water[::2]), ([], ship),
                    (rows + cols, [(cs[j % len(cs)], f"battleship_B__{1 + (j + 1) % 6}")] + ship[1::4]),
                    ([(p, v + (p == ("row", j % g.R))) for p, v in rows + cols], []),
                    (rows + cols, [(sea[j % len(sea)], "battleship_B__1")]), (rows, ship[::2] + [(cs[j % len(cs)], "battleship_B__8")]),
                ]
                for t in range(1, 7):     # every kind of part on every fleet
                    w = [q for q in ship if q[1][-1] == str(t)]
                    if w:
                        boards.append((rows + cols[1:], [w[j % len(w)]] + water[::5]))
                for cl, syms in boards:
                    if any(self.outside_board(g, p, n) for p, n in syms):
                        continue
                    b = self.board(*s)
                    for p, v in cl:
                        self.put_outside(b, p, v)
                    for p, n in syms:
                        b.sym(*p, n)
                    b._c.clear()
                    u = self.universe(b)
                    if u is not None and len(u) <= 2500:
                        yield b
        return f

    def outside_board(self, g, p, n):
        """A part that needs a neighbour beyond the board is refused with an error."""
        (r, c), k = p, int(n[-1])
        return k == 2 and not (0 < c < g.C - 1 or 0 < r < g.R - 1) or k == 3 and c == g.C - 1 or k == 4 and r == g.R - 1 or k == 5 and c == 0 or k == 6 and r == 0


# ---- binairo --------------------------------------------------------------------------------------------------------
class Binairo(Mark):
    name = "binairo"
    symbol = "circle_M__1"
    marks = ("circle_M__1", "circle_M__2")
    plan = (((2, 2), 4, 9), ((2, 4), 2, 20), ((4, 2), 2, 20), ((4, 4), 2, 40), ((4, 6), 0, 60), ((6, 4), 0, 60), ((6, 6), 0, 60))

    def line_ok(self, m, n):
        if pop(m) * 2 != n:
            return False
        return all((m >> i & 7) not in (0, 7) for i in range(n - 2))

    def universe(self, b):
        R, C = b.R, b.C
        lines = [m for m in range(1 << C) if self.line_ok(m, C)]
        out = []

        def rec(rows):
            if len(rows) == R:
                cols = [sum((rows[r] >> c & 1) << r for r in range(R)) for c in range(C)]
                if len(set(cols)) == C and all(self.line_ok(m, R) for m in cols):
                    out.append(sum(m << (r * C) for r, m in enumerate(rows)))
                return
            for m in lines:
                if m in rows:
                    continue
                k = len(rows)
                if k >= 2 and (rows[-1] & rows[-2] & m or ~(rows[-1] | rows[-2] | m) & ((1 << C) - 1)):
                    continue
                if any(sum(x >> c & 1 for x in rows) + (m >> c & 1) > R // 2 for c in range(C)):
                    continue
                rec(rows + [m])
        rec([])
        return out

    def base(self, b, g, x):
        rows = [x >> (r * g.C) & ((1 << g.C) - 1) for r in range(g.R)]
        cols = [sum((x >> (r * g.C + c) & 1) << r for r in range(g.R)) for c in range(g.C)]
        return len(set(rows)) == g.R and len(set(cols)) == g.C and all(self.line_ok(m, g.C) for m in rows) and all(self.line_ok(m, g.R) for m in cols)

    def draw(self, b, x):
        g = G(b.R, b.C)
        return drawn(sym={p: "circle_M__1" if x & g.bit(p) else "circle_M__2" for p in g.cells})


# ---- gokigen --------------------------------------------------------------------------------------------------------
class Gokigen(Mark):
    """Bit set: the falling diagonal."""

    name = "gokigen"
    plan = (((1, 1), 2, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((2, 2), 2, 9), ((1, 4), 1, 9), ((4, 1), 1, 9), ((2, 3), 1, 9), ((3, 2), 1, 9), ((3, 3), 1, 40),
            ((3, 4), 0, 60), ((4, 3), 0, 60), ((4, 4), 0, 60))

    def base(self, b, g, x):
        W = g.C + 1
        par = list(range((g.R + 1) * W))

        def find(a):
            while par[a] != a:
                par[a] = par[par[a]]
                a = par[a]
            return a
        for i, (r, c) in enumerate(g.cells):
            a, e = ((r, c), (r + 1, c + 1)) if x >> i & 1 else ((r, c + 1), (r + 1, c))
            u, v = find(a[0] * W + a[1]), find(e[0] * W + e[1])
            if u == v:
                return False
            par[u] = v
        return True

    def more(self, b):
        return [(("k", (p[0] + 1, p[1] + 1)), v) for p, v in b.text_at.items() if p[2] == 1 and isinstance(v, int)]

    def exact(self, b, g, x, p):
        r, c = p[1]
        n = 0
        for (a, e), fall in (((r - 1, c - 1), 1), ((r - 1, c), 0), ((r, c - 1), 0), ((r, c), 1)):
            if g.inside(a, e) and (x >> g.i((a, e)) & 1) == fall:
                n += 1
        return n

    def extra_places(self, b):
        return [("k", (r, c)) for r in range(b.R + 1) for c in range(b.C + 1)]

    def extra_values(self, b, p):
        return [0, 1, 2, 3, 4]

    def put_extra(self, b, p, v):
        b.num(p[1][0] - 1, p[1][1] - 1, v, cat=1)

    def draw(self, b, x):
        g = G(b.R, b.C)
        return drawn(edge={("D" if x & g.bit(p) else "U", *p) for p in g.cells})

    def parse(self, s):
        return G(s.R, s.C).mask((r, c) for k, r, c in s.edges if k == "D")

    def judge(self, b, s):
        own = [q for q in s.edges if q[0] in "UD"]
        return super().judge(b, s) if len(own) == s.R * s.C else (False, "one diagonal in every cell")


# ---- hakoiri --------------------------------------------------------------------------------------------------------
class Hakoiri(Room):
    name = "hakoiri"
    lo = 3
    zero_is_number = False
    rplan = (((1, 3), 1, 2, 9), ((3, 1), 1, 2, 9), ((1, 4), 1, 1, 9), ((2, 2), 1, 1, 9), ((2, 3), 1, 1, 12), ((3, 2), 1, 1, 12), ((2, 4), 1, 1, 6), ((4, 2), 1, 1, 6),
             ((3, 3), 1, 1, 3), ((3, 4), 9, 0, 2), ((4, 3), 9, 0, 2))
    named = (((4, 4), 24), ((4, 5), 12))
    VAL = {"ox_E__1": 1, "ox_E__2": 2, "ox_E__3": 3, "ox_E__4": 0, "ox_E__7": 0, "ox_E__8": 0, "ox_B__1": 1, "ox_B__2": 2, "ox_B__3": 3, "ox_B__8": 0}

    def domain(self, b, g, i):
        return range(4)

    def partial(self, b, g, v, i):
        if not v[i]:
            # the area can still get its missing objects
            room = self.rlist(b)[self.rid(b)[i]]
            return len({v[j] for j in room if j <= i and v[j]}) + sum(1 for j in room if j > i) >= 3
        return self.area_unique(b, v, i) and self.noadj(g, v, i, g.nb8)

    def area_unique(self, b, v, i):
        rid = self.rid(b)
        return all(rid[j] != rid[i] or v[j] != v[i] for j in range(i))

    def whole(self, b, g, t):
        return g.connected(sum(1 << i for i, v in enumerate(t) if v)) and all({t[i] for i in room} >= {1, 2, 3} for room in self.rlist(b))

    def clues(self, b):
        return [(("g", p[:2]), n) for p, n in b.syms.items()]

    def clue_ok(self, b, x, p, n):
        return x[p[1][0] * b.C + p[1][1]] == self.VAL[n]

    def given_values(self, b):
        return list(self.VAL)

    def put(self, b, p, v):
        b.sym(*p[1], v)

    def layouts_of(self, b, x):
        names = {v: [n for n in self.VAL if self.VAL[n] == v] for v in range(4)}
        full = [(("g", p), names[v][(i + v) % len(names[v])]) for i, (p, v) in enumerate(zip(b.cells, x))]
        k = sum(i * v for i, v in enumerate(x))
        yield tuple(full[k % 2::2])
        yield tuple(full[k % 3::3])

    def draw(self, b, x):
        return drawn(sym={p: f"ox_E__{v}" for p, v in zip(b.cells, x) if v})

    def parse(self, s):
        return tuple(self.VAL.get(s.syms.get((*p, 0)), 0) for p in s.cells)


# ---- juosan ---------------------------------------------------------------------------------------------------------
class Juosan(Mark):
    """Bit set: a horizontal bar."""

    name = "juosan"
    rooms = True
    rplan = (((1, 1), 1, 2, 9), ((1, 2), 1, 2, 9), ((2, 1), 1, 2, 9), ((2, 2), 1, 1, 9), ((1, 4), 1, 1, 9), ((4, 1), 1, 1, 9), ((2, 3), 1, 1, 4), ((3, 2), 1, 1, 4),
             ((3, 3), 3, 0, "one"), ((2, 4), 2, 0, "one"), ((4, 2), 2, 0, "one"))
    named = (((3, 4), 12), ((4, 3), 12), ((4, 4), 8))

    def base(self, b, g, x):
        v = g.full & ~x
        return not x & x >> g.C & x >> 2 * g.C and not any(v & 7 << (r * g.C + c) == 7 << (r * g.C + c) for r in range(g.R) for c in range(g.C - 2))

    def more(self, b):
        return [(("a", b.room_id[p[:2]]), v) for p, v in b.corner.items() if p[2] == 0 and isinstance(v, int)]

    def ok(self, b, g, x, p, v):
        m = sum(1 << i for i in self.rlist(b)[p[1]])
        return v in (pop(m & x), pop(m & ~x))

    def exact(self, b, g, x, p):
        m = sum(1 << i for i in self.rlist(b)[p[1]])
        return pop(m & x) if (p[1] + pop(x)) % 2 else pop(m & ~x)

    def extra_places(self, b):
        return [("a", i) for i in range(len(b.rooms))]

    def extra_values(self, b, p):
        return list(range(len(b.rooms[p[1]]) + 2)) + ["?"]

    def put_extra(self, b, p, v):
        b.corner_num(*b.rooms[p[1]][0], 0, v)

    def draw(self, b, x):
        g = G(b.R, b.C)
        return drawn(num={p: "——" if x & g.bit(p) else "|" for p in g.cells})

    def parse(self, s):
        g = G(s.R, s.C)
        return g.mask(p for p, v in s.text.items() if g.inside(*p) and v == "——")

    def judge(self, b, s):
        return super().judge(b, s) if all(s.text.get(p) in ("——", "|") for p in s.cells) else (False, "a bar in every cell")


# ---- magnets --------------------------------------------------------------------------------------------------------
class Magnets(Skyscrapers):
    """0: neutral, 1: plus, 2: minus."""

    name = "magnets"
    rooms = True
    margin = (1, 1, 1, 1)
    plan = ()
    rplan = (((1, 2), 1, 3, 9), ((2, 1), 1, 3, 9), ((2, 2), 1, 2, 9), ((1, 4), 1, 1, 20), ((4, 1), 1, 1, 20), ((2, 3), 1, 1, 40), ((3, 2), 1, 1, 40), ((2, 4), 1, 1, 30), ((4, 2), 1, 1, 30),
             ((3, 4), 2, 0, 24), ((4, 3), 2, 0, 24), ((4, 4), 4, 0, 12))
    named = ()

    def divisions(self, s, every):
        return [room_masks(G(*s), p) for p in partitions(*s, 2, 2)[::every]]

    def static_key(self, b):
        return Num.static_key(self, b)

    def universe(self, b):
        return Num.universe(self, b)

    def domain(self, b, g, i):
        return range(3)

    def partial(self, b, g, v, i):
        if v[i]:
            for j in (i - g.C, i - 1):
                if j >= 0 and g.nb[i] >> j & 1 and v[j] == v[i]:
                    return False
        room = self.rlist(b)[self.rid(b)[i]]
        return room[1] != i or v[room[0]] == (0, 2, 1)[v[i]]

    def whole(self, b, g, t):
        return True

    def clues(self, b):
        g = G(b.R, b.C)
        return [(("g", p), 0) for p in b.dark if g.inside(*p)] + self.outside(b)

    def exact(self, b, g, x, p):
        s, k = p[1]
        vs = [x[r * g.C + k] for r in range(g.R)] if s in "tb" else [x[k * g.C + c] for c in range(g.C)]
        return vs.count(1 if s in "tl" else 2)

    def given_values(self, b):
        return [0]

    def put(self, b, p, v):
        if p[0] == "g":
            b.surf(*p[1], 8)
        else:
            self.put_extra(b, p, v)

    def extra_places(self, b):
        return [("o", (s, k)) for s in "tb" for k in range(b.C)] + [("o", (s, k)) for s in "lr" for k in range(b.R)]

    def extra_values(self, b, p):
        return list(range((b.R if p[1][0] in "tb" else b.C) // 2 + 2))

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        ex = [(p, self.exact(b, g, x, p)) for p in self.extra_places(b)]
        nt = [(("g", p), 0) for p, v in zip(b.cells, x) if not v]
        k = sum(i * v for i, v in enumerate(x))
        yield tuple(ex)
        yield tuple(ex[k % 2::2])
        yield tuple(ex[k % 3::3]) + tuple(nt[k % 2::2])

    def draw(self, b, x):
        return drawn(shade=[p for p, v in zip(b.cells, x) if not v], sym={p: f"math_G__{v + 1}" for p, v in zip(b.cells, x) if v})

    def parse(self, s):
        return tuple({"math_G__2": 1, "math_G__3": 2}.get(s.syms.get((*p, 0)), 0) for p in s.cells)


# ---- mines ----------------------------------------------------------------------------------------------------------
class Mines(Mark):
    name = "mines"
    symbol = "sun_moon__4"
    marks = ("sun_moon__4",)
    params = ({"mine_count": ""}, {"mine_count": "2"}, {"mine_count": "0"}, {"mine_count": "5"})
    plan = (((1, 1), 2, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((1, 4), 1, 9), ((2, 2), 2, 9), ((2, 3), 1, 12), ((3, 2), 1, 12), ((3, 3), 1, 24), ((3, 4), 0, 30), ((4, 3), 0, 30))

    def base(self, b, g, x):
        v = b.param["mine_count"]
        return not v or pop(x) == int(v)

    def more(self, b):
        g = G(b.R, b.C)
        return [(("n", p), v) for p, v in b.text.items() if g.inside(*p)]

    def ok(self, b, g, x, p, v):
        return not x & g.bit(p[1]) and pop(g.nb8[g.i(p[1])] & x) == v

    def exact(self, b, g, x, p):
        return None if x & g.bit(p[1]) else pop(g.nb8[g.i(p[1])] & x)

    def extra_places(self, b):
        return [("n", p) for p in b.cells]

    def extra_values(self, b, p):
        return list(range(9)) if b.R * b.C <= 4 else [0, 1, 2, 3, 5, 8]

    def put_extra(self, b, p, v):
        b.num(*p[1], v)

    def legal(self, b, lay):
        return len({p[1] for p, _ in lay}) == len(lay)

    def layouts_of(self, b, x):
        for lay in super().layouts_of(b, x):
            if self.legal(b, lay):
                yield lay


# ---- news -----------------------------------------------------------------------------------------------------------
class News(Room):
    """0: empty, 1 N, 2 E, 3 W, 4 S."""

    name = "news"
    lo = 2
    rplan = (((1, 2), 1, 2, 9), ((2, 1), 1, 2, 9), ((2, 2), 1, 2, 9), ((1, 4), 1, 1, 9), ((4, 1), 1, 1, 9), ((2, 3), 1, 1, 8), ((3, 2), 1, 1, 8), ((3, 3), 1, 1, 2),
             ((2, 4), 2, 0, 3), ((4, 2), 2, 0, 3), ((3, 4), 40, 0, 2), ((4, 3), 40, 0, 2))
    named = (((4, 4), 16),)
    LET = " NEWS"

    def universe(self, b):
        """Two letters in every area, area by area."""
        g = G(b.R, b.C)
        out = []
        rl = self.rlist(b)
        if not hasattr(self, "_opt"):
            self._opt = {}
        opts = []
        for room in rl:
            k = (b.R, b.C, tuple(room))
            if k not in self._opt:
                self._opt[k] = [(i, u, j, v) for i, j in itertools.combinations(room, 2) for u in range(1, 5) for v in range(1, 5)
                                if u != v and self.further(g, i, u, j) and self.further(g, j, v, i) and self.free(g, i, u, j, v)]
            opts.append(self._opt[k])
        t = [0] * g.n
        rows, cols = set(), set()

        def rec(k):
            if k == len(opts):
                out.append(tuple(t))
                return
            for i, u, j, v in opts[k]:
                a, e, c, d = (i // g.C, u), (i % g.C, u), (j // g.C, v), (j % g.C, v)
                if a in rows or c in rows or e in cols or d in cols:
                    continue
                rows.update((a, c)); cols.update((e, d))
                t[i], t[j] = u, v
                rec(k + 1)
                t[i] = t[j] = 0
                rows.difference_update((a, c)); cols.difference_update((e, d))
        rec(0)
        return out

    def free(self, g, i, u, j, v):
        return True

    def further(self, g, i, u, j):
        """The letter u at i lies further in its direction than the cell j."""
        (r, c), (a, e) = g.cells[i], g.cells[j]
        return {1: r < a, 2: c > e, 3: c < e, 4: r > a}[u]

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        for room in self.rlist(b):
            ls = [i for i in room if x[i]]
            if len(ls) != 2 or x[ls[0]] == x[ls[1]] or not self.further(g, ls[0], x[ls[0]], ls[1]) or not self.further(g, ls[1], x[ls[1]], ls[0]):
                return False, "area"
        for line in [[r * g.C + c for c in range(g.C)] for r in range(g.R)] + [[r * g.C + c for r in range(g.R)] for c in range(g.C)]:
            vs = [x[i] for i in line if x[i]]
            if len(vs) != len(set(vs)):
                return False, "letter repeated"
        return all(self.clue_ok(b, x, p, v) for p, v in self.clues(b)), "clues"

    def clues(self, b):
        return [(("g", p), v) for p, v in b.text.items()] + [(("g", p[:2]), "-") for p in b.syms]

    def clue_ok(self, b, x, p, v):
        return x[p[1][0] * b.C + p[1][1]] == (0 if v == "-" else self.LET.index(v))

    def given_values(self, b):
        return ["N", "E", "W", "S", "-"]

    def put(self, b, p, v):
        if v == "-":
            b.sym(*p[1], ("ox_B__4", "ox_E__7", "ox_E__8")[sum(p[1]) % 3])
        else:
            b.num(*p[1], v)

    def layouts_of(self, b, x):
        full = [(("g", p), "-NEWS"[v]) for p, v in zip(b.cells, x)]
        k = sum(i * v for i, v in enumerate(x))
        yield tuple(full[k % 2::2])
        yield tuple(full[k % 4::4])

    def draw(self, b, x):
        return drawn(num={p: self.LET[v] for p, v in zip(b.cells, x) if v})

    def parse(self, s):
        return tuple(max(0, self.LET.find(str(s.text.get(p, " ")))) for p in s.cells)


# ---- nondango -------------------------------------------------------------------------------------------------------
class Nondango(Mark):
    """Bit set: black.  Circles to fill stand in the problem, the player's fillings in the answer layer."""

    name = "nondango"
    rooms = True
    rplan = ()

    def board_rooms(self, s, rooms, circles, lay=()):
        b = self.board(*s)
        b.rooms_walls(rooms)
        for p in circles:
            b.sym(*p, "circle_M__4")
        for p, v in lay:
            b.sym(*p, v, layer="a")
        b._c.clear()
        return b

    def circles(self, b):
        def f():
            g = G(b.R, b.C)
            o = 0
            for i, d in b.q["symbol"].items():
                p = b.point(int(i))
                if d[:2] == [4, "circle_M"]:
                    o |= g.bit(p[:2])
            return o
        return b._memo("circ", f)

    def static_key(self, b):
        return super().static_key(b) + (self.circles(b),)

    def three(self, g):
        if not hasattr(self, "_three"):
            self._three = {}
        if (g.R, g.C) not in self._three:
            self._three[(g.R, g.C)] = [g.mask((r + dr * i, c + dc * i) for i in range(3)) for r, c in g.cells for dr, dc in ((0, 1), (1, 0), (1, 1), (1, -1))
                                       if g.inside(r + 2 * dr, c + 2 * dc)]
        return self._three[(g.R, g.C)]

    def universe(self, b):
        g = G(b.R, b.C)
        o = self.circles(b)
        out = []
        opts = [[1 << i for i in room if o >> i & 1] for room in self.rlist(b)]
        for pick in itertools.product(*opts):
            m = sum(pick)
            if self.base(b, g, m):
                out.append(m)
        return out

    def base(self, b, g, x):
        o = self.circles(b)
        w = o & ~x
        return not x & ~o and all(x & t != t and w & t != t for t in self.three(g)) and all(sum(x >> i & 1 for i in room) == 1 for room in self.rlist(b))

    def clues(self, b):
        g = G(b.R, b.C)
        return [(("g", b.point(int(i))[:2]), d[0]) for i, d in b.a["symbol"].items()]

    def mark_ok(self, b, g, x, p, v):
        return bool(x & g.bit(p)) == (v == 2)

    def draw(self, b, x):
        g = G(b.R, b.C)
        o = self.circles(b)
        return drawn(sym={p: "circle_M__2" if x & g.bit(p) else "circle_M__1" for p in g.list(o)})

    def parse(self, s):
        g = G(s.R, s.C)
        return g.mask(p[:2] for p, n in self.shown(s).items() if n == "circle_M__2")

    def shown(self, s):
        return {s.point(int(i)): f"{d[1]}__{d[0]}" for layer in (s.q, s.a) for i, d in layer["symbol"].items()}

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s, every, sets in (((1, 3), 1, None), ((3, 1), 1, None), ((2, 2), 1, None), ((1, 4), 1, None), ((2, 3), 1, None), ((3, 2), 1, None), ((3, 3), 2, 6),
                               ((2, 4), 2, 10), ((4, 2), 2, 10), ((3, 4), 200, 4), ((4, 3), 200, 4)):
            out.append((f"{s[0]}x{s[1]}, every {1 if th else every}th division, {'all' if sets is None else sets} sets of circles", self.boards(s, 1 if th and every < 9 else every, sets)))
        out.append(("4x4, named divisions", self.boards((4, 4), 0, 30 if th else 12)))
        return out

    def boards(self, s, every, sets):
        def f():
            g = G(*s)
            if every:
                ps = [room_masks(g, p) for p in partitions(*s)[::every]]
            else:
                ps = [parse_part(t) for t in ("aabb/aabb/ccdd/ccdd", "aaaa/bbbb/cccc/dddd", "aaab/cccb/dddb/eeeb", "abbc/aabc/daec/ddee", "aabb/acbd/accd/eedd")]
            for n, rooms in enumerate(ps):
                need = [g.mask(r) for r in rooms]
                cand = [o for o in range(1 << g.n) if all(o & m for m in need)] if g.n <= 9 else \
                    [g.full & ~(k * 2654435761 + n * 40503 >> 3) for k in range(4 * (sets or 1))]
                cand = [o for o in cand if all(o & m for m in need)]
                for o in cand if sets is None else stride(cand[n % 5:], sets):
                    b = self.board_rooms(s, rooms, g.list(o))
                    yield b
                    L = self.static(b)
                    for x in stride(L, 2):
                        cs = g.list(o)
                        p = cs[(n + x) % len(cs)]
                        yield self.board_rooms(s, rooms, cs, [(p, "circle_M__2" if x & g.bit(p) else "circle_M__1")])
                        q = cs[(2 * n + x + 1) % len(cs)]
                        if q != p:
                            yield self.board_rooms(s, rooms, cs, [(p, "circle_M__2" if x & g.bit(p) else "circle_M__1"), (q, "circle_M__1" if x & g.bit(q) else "circle_M__2")])
        return f


# ---- pentopia -------------------------------------------------------------------------------------------------------
def pieces(g, n):
    """name -> masks of every placement of every shape with n cells."""
    key = (g.R, g.C, n)
    if key not in _PIECES:
        out = {}
        for sid, name in OMINO_NAMES[n].items():
            ms = set()
            for o in orientations(sid):
                h, w = max(r for r, _ in o) + 1, max(c for _, c in o) + 1
                for r in range(g.R - h + 1):
                    for c in range(g.C - w + 1):
                        ms.add(g.mask((r + a, c + e) for a, e in o))
            out[name] = sorted(ms)
        _PIECES[key] = out
    return _PIECES[key]


_PIECES = {}


class Pentopia(Mark):
    name = "pentopia"
    BITS = {"l": 128, "u": 64, "r": 32, "d": 16}

    def universe(self, b):
        g = G(b.R, b.C)
        ps = list(pieces(g, 5).items())
        out = []

        def rec(i, m, near):
            out.append(m)
            for j in range(i, len(ps)):
                for k in ps[j][1]:
                    if not k & near:
                        rec(j + 1, m | k, near | g.expand8(k))
        rec(0, 0, 0)
        return out

    def base(self, b, g, x):
        ks = g.comps8(x)
        return all(pop(k) == 5 and g.connected(k) for k in ks) and len({omino(g, k) for k in ks}) == len(ks)

    def dist(self, g, x, p, d):
        for n, q in enumerate(g.ray(p, d), 1):
            if x & g.bit(q):
                return n
        return None

    def nearest(self, g, x, p):
        ds = {d: self.dist(g, x, p, d) for d in DIRS}
        lo = min((n for n in ds.values() if n), default=None)
        return frozenset(d for d, n in ds.items() if n is not None and n == lo)

    def more(self, b):
        return [(("w", p[:2]), int(n.split("__")[1])) for p, n in b.syms.items() if n.startswith("arrow_cross")]

    def ok(self, b, g, x, p, v):
        return not x & g.bit(p[1]) and self.nearest(g, x, p[1]) == frozenset(d for d, k in self.BITS.items() if v & k)

    def exact(self, b, g, x, p):
        n = self.nearest(g, x, p[1])
        return None if x & g.bit(p[1]) or not n else sum(self.BITS[d] for d in n)

    def extra_places(self, b):
        return [("w", p) for p in b.cells]

    def extra_values(self, b, p):
        return [16 * k for k in range(1, 16)]

    def put_extra(self, b, p, v):
        b.q["symbol"][str(b.idx(*p[1]))] = [[int(ch) for ch in f"{v:08b}"], "arrow_cross", 1]

    def draw(self, b, x):
        return drawn(shade=G(b.R, b.C).list(x))

    def parse(self, s):
        return G(s.R, s.C).mask(p for p in s.dark if G(s.R, s.C).inside(*p))

    def layouts_of(self, b, x):
        ex = [(p, v) for p in self.extra_places(b) for v in [self.exact(b, G(b.R, b.C), x, p)] if v]
        k = pop(x) + x % 11
        yield tuple(ex[k % 3::3])
        yield tuple(ex[k % 7::7])
        yield tuple(ex[k % 5::9])

    plan = (((1, 2), 1, 2), ((1, 5), 0, 4), ((5, 1), 0, 4), ((1, 6), 0, 4), ((3, 3), 0, 12), ((3, 4), 0, 10), ((4, 3), 0, 6), ((4, 4), 0, 12),
            ((3, 6), 0, 10), ((6, 3), 0, 6), ((4, 5), 0, 10), ((5, 5), 0, 16))


# ---- shakashaka -----------------------------------------------------------------------------------------------------
class Shakashaka(Num):
    """0: white cell, 1..4: triangle filling the named corner (ul, ur, dr, dl); black cells are holes."""

    name = "shakashaka"
    hole_count = 1
    SYM = {1: "tri__1", 2: "tri__4", 3: "tri__3", 4: "tri__2"}
    plan = (((1, 1), 2, 9), ((1, 2), 1, 9), ((2, 2), 1, 9), ((2, 3), 1, 9), ((3, 2), 1, 9), ((3, 3), 1, 9), ((2, 4), 1, 9), ((4, 2), 1, 9), ((3, 4), 0, 9), ((4, 3), 0, 9), ((4, 4), 0, 4))
    # the two octants a cell shows at each of its corners (by rising angle): 1 white
    # corner of the cell at the vertex: the vertex is the cell's lower right (0), lower left (1), upper left (2), upper right (3) corner

    def hole_mask(self, b):
        return b._memo("hm", lambda: G(b.R, b.C).mask(p for p in b.dark if G(b.R, b.C).inside(*p)))

    def domain(self, b, g, i):
        return range(5)

    @staticmethod
    def quarters(v):
        """White quarters (n, e, s, w) of a cell."""
        return {0: "nesw", 1: "es", 2: "sw", 3: "nw", 4: "ne", None: ""}[v]

    # octants around a vertex, counterclockwise, as (row offset of the cell, column offset of the cell, quarter)
    AROUND = ((-1, 0, "s"), (-1, 0, "w"), (-1, -1, "e"), (-1, -1, "s"), (0, -1, "n"), (0, -1, "e"), (0, 0, "w"), (0, 0, "n"))

    def vertex_ok(self, vals):
        """vals: {(dr, dc): value or None for black or outside} of the four cells at a vertex."""
        ring = [q in self.quarters(vals[(a, e)]) for a, e, q in self.AROUND]
        if all(ring):
            return True
        k = ring.index(False)
        run = 0
        for j in range(1, 9):
            if ring[(k + j) % 8]:
                run += 1
            else:
                if run not in (0, 2, 4):
                    return False
                run = 0
        return run in (0, 2, 4)

    def partial(self, b, g, v, i):
        """Vertices whose four cells are all decided show right or straight angles only."""
        r, c = divmod(i, g.C)
        h = self.hole_mask(b)

        def at(a, e):
            if not g.inside(a, e) or h >> (a * g.C + e) & 1:
                return None
            return v[a * g.C + e]
        vs = [(r, c)]
        if c == g.C - 1:
            vs.append((r, c + 1))
        if r == g.R - 1:
            vs.append((r + 1, c))
            if c == g.C - 1:
                vs.append((r + 1, c + 1))
        return all(self.vertex_ok({(a, e): at(y + a, x + e) for a in (-1, 0) for e in (-1, 0)}) for y, x in vs)

    def whole(self, b, g, t):
        h = self.hole_mask(b)
        white = set()
        for i, (r, c) in enumerate(g.cells):
            if not h >> i & 1:
                white |= {(r, c, q) for q in self.quarters(t[i])}
        seen = set()
        for s in white:
            if s in seen:
                continue
            comp, todo = {s}, [s]
            while todo:
                r, c, q = todo.pop()
                nb = [(r, c, k) for k in {"n": "ew", "s": "ew", "e": "ns", "w": "ns"}[q]]
                nb.append({"n": (r - 1, c, "s"), "s": (r + 1, c, "n"), "w": (r, c - 1, "e"), "e": (r, c + 1, "w")}[q])
                for k in nb:
                    if k in white and k not in comp:
                        comp.add(k)
                        todo.append(k)
            seen |= comp
            if not self.rectangle(comp):
                return False
        return True

    @staticmethod
    def rectangle(comp):
        rs, cs = [r for r, _, _ in comp], [c for _, c, _ in comp]
        if len(comp) == 4 * (max(rs) - min(rs) + 1) * (max(cs) - min(cs) + 1):
            return True
        # every quarter fills half of one unit of the grid turned by 45 degrees
        off = {"n": (0, -1), "s": (1, 0), "e": (1, -1), "w": (0, 0)}
        us = []
        for r, c, q in comp:
            x, y = c, r
            # centroid in (u, v) = (x + y, x - y), unit lower corner
            cx, cy = {"n": (x + .5, y + 1 / 6), "s": (x + .5, y + 5 / 6), "w": (x + 1 / 6, y + .5), "e": (x + 5 / 6, y + .5)}[q]
            us.append((int((cx + cy) // 1), int((cx - cy) // 1)))
        u, v = [a for a, _ in us], [e for _, e in us]
        return len(comp) == 2 * (max(u) - min(u) + 1) * (max(v) - min(v) + 1)

    def clues(self, b):
        g = G(b.R, b.C)
        return [(("n", p), v) for p, v in b.text.items() if g.inside(*p) and isinstance(v, int)]

    def exact(self, b, g, x, p):
        return sum(1 for q in g.list(g.nb[g.i(p[1])]) if x[g.i(q)] and not self.hole_mask(b) & g.bit(q))

    def places(self, b):
        return [("n", p) for p in G(b.R, b.C).list(self.hole_mask(b))]

    extra_places = places

    def values(self, b, p):
        return [0, 1, 2, 3, 4]

    def put(self, b, p, v):
        b.num(*p[1], v)

    def layouts_of(self, b, x):
        ex = [(p, self.exact(b, G(b.R, b.C), x, p)) for p in self.places(b)]
        yield tuple(ex)
        if len(ex) > 1:
            yield tuple(ex[sum(x) % 2::2])

    def draw(self, b, x):
        return drawn(sym={p: self.SYM[v] for p, v in zip(b.cells, x) if v})

    def parse(self, s):
        inv = {v: k for k, v in self.SYM.items()}
        return tuple(inv.get(s.syms.get((*p, 0)), 0) for p in s.cells)

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        if not self.whole(b, g, x) or any(v and self.hole_mask(b) >> i & 1 for i, v in enumerate(x)):
            return False, "white areas are rectangles"
        return all(self.clue_ok(b, x, p, v) for p, v in self.clues(b)), "clues"

    def spaces(self, tier):
        th = tier == "thorough"
        out = super().spaces(tier)
        out.append(("2x3 and 3x3, many black cells", self.multi(th)))
        out.append(("4x4 to 5x5, sets of black cells", self.larger(th)))
        return out

    def multi(self, th):
        def f():
            for s, k in (((2, 3), 5), ((3, 2), 4), ((3, 3), 5)):
                hs = [h for h in self.holes_for(s, k) if len(h) >= 2]
                for h in hs if s[0] * s[1] < 9 or th else hs[::3]:
                    b0 = self.make(*s, (), None, None, h)
                    yield b0
                    for x in stride(self.static(b0), 2):
                        for lay in self.layouts_of(b0, x):
                            yield self.make(*s, lay, None, None, h)
        return f

    def larger(self, th):
        def f():
            for s, n in (((4, 4), 30), ((4, 5), 16), ((5, 4), 16), ((5, 5), 6)):
                cells = [(r, c) for r in range(s[0]) for c in range(s[1])]
                for k in range(n * (6 if th else 1)):
                    h = tuple(p for i, p in enumerate(cells) if (i * 2654435761 + k * 40503 >> 5) % 16 < 2 + k % 4)
                    b0 = self.make(*s, (), None, None, h)
                    yield b0
                    for x in stride(self.static(b0), 3):
                        for lay in self.layouts_of(b0, x):
                            yield self.make(*s, lay, None, None, h)
        return f


# ---- starbattle -----------------------------------------------------------------------------------------------------
class Starbattle(Mark):
    name = "starbattle"
    rooms = True
    symbol = "star__2"
    marks = ("star__2", "star__0")
    params = ({"stars": "1"}, {"stars": "2"})
    rplan = (((1, 1), 1, 1, 9), ((2, 2), 4, 1, 9), ((3, 3), 60, 1, 2))

    def static_key(self, b):
        return (b.R, b.C, json.dumps(b.param))

    def universe(self, b):
        g = G(b.R, b.C)
        k = int(b.param["stars"])
        rows = [m for m in range(1 << g.C) if pop(m) == k and not m & m >> 1]
        out = []

        def rec(r, acc, cols):
            if r == g.R:
                if all(v == k for v in cols):
                    out.append(acc)
                return
            prev = acc >> ((r - 1) * g.C) & ((1 << g.C) - 1) if r else 0
            for m in rows:
                if m & (prev | prev << 1 | prev >> 1):
                    continue
                n = [v + (m >> c & 1) for c, v in enumerate(cols)]
                if max(n) <= k:
                    rec(r + 1, acc | m << (r * g.C), n)
        rec(0, 0, [0] * g.C)
        return out

    def base(self, b, g, x):
        k = int(b.param["stars"])
        return alone8(g, x) and all(pop(x & m) == k for m in g.row + g.col)

    def joint(self, b, x):
        k = int(b.param["stars"])
        return all(sum(x >> i & 1 for i in room) == k for room in self.rlist(b))

    def spaces(self, tier):
        th = tier == "thorough"
        out = [("1x1 to 3x3", self.gen((1, 1), 1, 9, lambda: self.divisions((1, 1), 1))), ("2x2, divisions", self.gen((2, 2), 1, 9, lambda: self.divisions((2, 2), 1))),
               ("4x4, divisions into four areas", self.fours(th)), ("5x5 and 6x6, divisions grown around a placement", self.grown(th)),
               ("8x8 and 9x9, two stars, divisions grown around a placement", self.two(th))]
        return out

    def fours(self, th):
        def f():
            ps = [room_masks(G(4, 4), p) for p in partitions(4, 4, 1, 16, 4, 4)]
            for j, rooms in enumerate(ps[::40 if not th else 4]):
                par = self.params[j % 9 == 0]
                yield self.make(4, 4, (), par, rooms)
                b0 = self.make(4, 4, (), self.params[0], rooms)
                for x in self.static(b0):
                    if self.joint(b0, x):
                        gv = self.given_of(b0, x)
                        yield self.make(4, 4, gv[j % 5::5], self.params[0], rooms)
                p = ("g", b0.cells[j % 16])
                yield self.make(4, 4, [(p, self.marks[j % 2])], self.params[0], rooms)
        return f

    def grow(self, g, x, k, s):
        """A division into areas each holding k cells of x, grown cell by cell; s varies the order."""
        stars = g.list(x)
        seeds = [stars[i::len(stars) // k] for i in range(len(stars) // k)] if k == 1 else None
        if k == 1:
            own = {p: i for i, (p,) in enumerate(seeds)}
        else:
            # pair stars that a straight or bent strip of free cells joins: take them in reading order
            own = {}
            left = list(stars)
            i = 0
            while left:
                a = left.pop(0)
                for e in sorted(left, key=lambda q: (abs(q[0] - a[0]) + abs(q[1] - a[1]), q)):
                    path = self.path(g, a, e, own, set(stars))
                    if path:
                        for q in path:
                            own[q] = i
                        left.remove(e)
                        i += 1
                        break
                else:
                    return None
        t = s * 2654435761 + 12345
        while len(own) < g.n:
            fr = [(p, q) for p in own for q in g.list(g.nb[g.i(p)]) if q not in own]
            if not fr:
                return None
            t = (t * 1103515245 + 12345) % (1 << 31)
            p, q = fr[(t >> 8) % len(fr)]
            own[q] = own[p]
        rooms = {}
        for p in g.cells:
            rooms.setdefault(own[p], []).append(p)
        return list(rooms.values())

    def path(self, g, a, e, own, stars):
        todo, prev = [a], {a: None}
        while todo:
            p = todo.pop(0)
            if p == e:
                out = []
                while p:
                    out.append(p)
                    p = prev[p]
                return out
            for q in g.list(g.nb[g.i(p)]):
                if q not in prev and q not in own and (q not in stars or q == e):
                    prev[q] = p
                    todo.append(q)
        return None

    def grown(self, th):
        def f():
            for n, m in ((5, 60), (6, 90)):
                b0 = self.make(n, n, (), self.params[0])
                L = self.static(b0)
                for s in range(m * (5 if th else 1)):
                    x = L[s * 7 % len(L)]
                    rooms = self.grow(G(n, n), x, 1, s)
                    if not rooms:
                        continue
                    yield self.make(n, n, (), self.params[0], rooms)
                    gv = self.given_of(b0, x)
                    yield self.make(n, n, gv[s % 7::7], self.params[0], rooms)
        return f

    def two(self, th):
        def f():
            for n, m in ((8, 4), (9, 12)):
                b0 = self.make(n, n, (), self.params[1])
                L = self.static(b0)
                for s in range(m * (10 if th else 1)):
                    x = L[s * 37 % len(L)]
                    rooms = self.grow(G(n, n), x, 2, s)
                    if not rooms:
                        continue
                    yield self.make(n, n, (), self.params[1], rooms)
                    yield self.make(n, n, self.given_of(b0, x)[s % 9::9], self.params[1], rooms)
        return f


# ---- statuepark -----------------------------------------------------------------------------------------------------
class Statuepark(Mark):
    name = "statuepark"
    symbol = "circle_M__2"
    params = ({"shapeset": "tetro"},)
    SETS = {"tetro": (4, 1), "pento": (5, 1), "double_tetro": (4, 2)}
    STEPS = 60000
    marks = ("circle_M__1", "circle_M__2")

    def places_of(self, g, n):
        return [v for _, v in sorted(pieces(g, n).items(), key=lambda e: len(e[1]))]

    def expected(self, b):
        return self.answers(b)

    def answers(self, b):
        return b._memo("ans", lambda: self.search(b))

    def search(self, b):
        """All answers of the board, or None when the search is too long."""
        g = G(b.R, b.C)
        n, each = self.SETS[b.param["shapeset"]]
        on = g.mask(p[:2] for p, s in b.syms.items() if s == "circle_M__2")
        off = g.mask(p[:2] for p, s in b.syms.items() if s == "circle_M__1")
        ps = sorted(([k for k in v if not k & off] for v in self.places_of(g, n)), key=len)
        ps = [v for v in ps for _ in range(each)]
        out = set()
        steps = 0

        def rec(i, m, near, start):
            nonlocal steps
            steps += 1
            if steps > self.STEPS or pop(on & ~m) > n * (len(ps) - i) or on & near & ~m:
                return
            if i == len(ps):
                if not on & ~m and g.connected(g.full & ~m):
                    out.add(m)
                return
            same = i + 1 < len(ps) and ps[i + 1] is ps[i]
            for j in range(start, len(ps[i])):
                k = ps[i][j]
                if not k & near:
                    rec(i + 1, m | k, near | g.expand(k), j + 1 if same else 0)
        rec(0, 0, 0, 0)
        return None if steps > self.STEPS else sorted(out)

    def base(self, b, g, x):
        n, each = self.SETS[b.param["shapeset"]]
        names = [shape_id(g.list(k)) for k in g.comps(x)]
        return g.connected(g.full & ~x) and sorted(names) == sorted(list(OMINO_NAMES[n]) * each)

    def draw(self, b, x):
        return drawn(shade=G(b.R, b.C).list(x))

    def parse(self, s):
        return G(s.R, s.C).mask(p for p in s.dark if G(s.R, s.C).inside(*p))

    def spaces(self, tier):
        th = tier == "thorough"
        return [(f"{s[0]}x{s[1]} {which}, circles of {n * (8 if th else 1)} arrangements", self.circled(s, which, n * (8 if th else 1))) for s, which, n in
                (((7, 7), "tetro", 12), ((6, 8), "tetro", 8), ((8, 6), "tetro", 8), ((8, 8), "tetro", 6), ((10, 10), "double_tetro", 3),
                 ((12, 12), "pento", 3))]

    def circled(self, s, which, n):
        def f():
            g = G(*s)
            par = {"shapeset": which}
            for j, x in enumerate(self.arrangements(g, which, n)):
                b0 = self.make(*s, (), par)
                gv = self.given_of(b0, x)
                on, off = [q for q in gv if q[1][-1] == "2"], [q for q in gv if q[1][-1] == "1"]
                some = off[j % 3::3] + on[(j + 1) % 3::3]
                p, v = some[(5 * j) % len(some)]
                cut = next((q for q in off if not g.connected(g.full & ~x & ~g.bit(q[0][1]))), off[0])
                lays = [gv, on + off[j % 2::2], on[::2] + off[::2], on[1::2] + off[j % 3::3], some, off, on,
                        [q for q in gv if q[0] != p] + [(p, "circle_M__1" if v[-1] == "2" else "circle_M__2")],
                        [q for q in some if q[0] != p] + [(p, "circle_M__1" if v[-1] == "2" else "circle_M__2")],
                        [q for q in on if q != cut] + [(cut[0], "circle_M__2")]]
                for t in range(4):      # a block of cells left open
                    r, c = (t * 3 + j) % (s[0] - 3), (t * 5 + 2 * j) % (s[1] - 3)
                    lays.append([q for q in gv if not (r <= q[0][1][0] < r + 4 and c <= q[0][1][1] < c + 4)])
                for lay in lays:
                    b = self.make(*s, lay, par)
                    u = self.answers(b)
                    if u is not None and len(u) <= 1500:
                        yield b
        return f

    def arrangements(self, g, which, n):
        """Placements of the whole set, the order of the positions turned to spread them."""
        k, each = self.SETS[which]
        ps = sorted(self.places_of(g, k), key=len)
        ps = [v for v in ps for _ in range(each)]
        got = []
        for turn in range(6 * n):
            steps = 0

            def rec(i, m, near):
                nonlocal steps
                steps += 1
                if steps > 20000:
                    return None
                if i == len(ps):
                    return m if g.connected(g.full & ~m) else None
                o = (turn * 37 + i * 11 + turn * i) % len(ps[i])
                for q in ps[i][o:] + ps[i][:o]:
                    if not q & near:
                        y = rec(i + 1, m | q, near | g.expand(q))
                        if y is not None:
                            return y
                return None
            x = rec(0, 0, 0)
            if x is not None and x not in got:
                got.append(x)
            if len(got) == n:
                break
        return got

    def static(self, b):
        return []


# ---- symmetry area --------------------------------------------------------------------------------------------------
class Symmarea(Div):
    name = "symmarea"
    params = ({"fast_mode": False}, {"fast_mode": True})
    unknown = False
    mid = ((2, 3), (3, 2))

    def base(self, b, g, x):
        if any(pop(m) == pop(n) for m, n in touching(g, x)):
            return False
        return True

    def symmetric(self, g, m):
        r0, c0, r1, c1 = g.box(m)
        return all(m & g.bit((r0 + r1 - r, c0 + c1 - c)) for r, c in g.list(m))

    def number(self, b, g, x, p):
        return next(pop(m) for m in x if m & g.bit(p))

    def values(self, b, p):
        return [v for v in range(1, 8) if v <= b.R * b.C]

    def joint(self, b, x):
        """In fast mode areas without a clue have at most five cells and their symmetry is not asked for."""
        g = G(b.R, b.C)
        cl = b._memo("clm", lambda: g.mask(p for p, _ in self.clues(b)))
        if b.param.get("fast_mode"):
            return all(self.symmetric(g, m) if m & cl else pop(m) <= 5 for m in x)
        return all(self.symmetric(g, m) for m in x)

    def draw(self, b, x):
        g = G(b.R, b.C)
        return drawn(num={p: pop(m) for m in x for p in g.list(m)}, edge=Div.draw(self, b, x)[3])


# ---- tents ----------------------------------------------------------------------------------------------------------
class Tents(Mark):
    """Holes are the trees."""

    name = "tents"
    margin = (1, 0, 1, 0)
    symbol = "tents__2"
    marks = ("tents__2",)
    hole_count = 3
    plan = (((1, 1), 1, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((1, 4), 1, 9), ((4, 1), 1, 9), ((2, 2), 2, 9), ((2, 3), 1, 9), ((3, 2), 1, 9), ((3, 3), 1, 9))

    def hole_mask(self, b):
        return b._memo("hm", lambda: G(b.R, b.C).mask(p[:2] for p, n in b.syms.items() if n == "tents__1"))

    def put_hole(self, b, p):
        b.sym(*p, "tents__1")

    def universe(self, b):
        g = G(b.R, b.C)
        k = ("sets", g.R, g.C)
        if k not in _SETS8:
            _SETS8[k] = spread8(g)
        return [m for m in _SETS8[k] if self.match(g, m, self.hole_mask(b))]

    def base(self, b, g, x):
        return alone8(g, x) and self.match(g, x, self.hole_mask(b))

    @staticmethod
    def match(g, m, trees):
        if m & trees or pop(m) != pop(trees) or m & ~g.expand(trees) or trees & ~g.expand(m):
            return False
        ts = [i for i in range(g.n) if trees >> i & 1]
        own = {}

        def aug(i, seen):
            k = g.nb[i] & m
            while k:
                j = (k & -k).bit_length() - 1
                k &= k - 1
                if j not in seen:
                    seen.add(j)
                    if j not in own or aug(own[j], seen):
                        own[j] = i
                        return True
            return False
        return all(aug(i, set()) for i in ts)

    def more(self, b):
        return self.outside(b)

    def ok(self, b, g, x, p, v):
        return self.line_count(g, x, p) == v

    def exact(self, b, g, x, p):
        return self.line_count(g, x, p)

    def extra_places(self, b):
        return self.outside_places(b)

    def extra_values(self, b, p):
        return list(range(4))

    def put_extra(self, b, p, v):
        self.put_outside(b, p, v)

    def spaces(self, tier):
        th = tier == "thorough"
        out = super().spaces(tier)
        for s, n in (((3, 4), 60), ((4, 3), 60), ((4, 4), 60), ((4, 5), 40), ((5, 5), 20)):
            out.append((f"{s[0]}x{s[1]}, trees next to a set of tents", self.planted(s, n * (8 if th else 1))))
        return out

    def planted(self, s, n):
        def f():
            g = G(*s)
            k = ("sets", g.R, g.C)
            if k not in _SETS8:
                _SETS8[k] = spread8(g)
            big = [m for m in _SETS8[k] if pop(m) >= min(4, s[0] * s[1] // 4)]
            for j, m in enumerate(stride(big, n)):
                trees = 0
                for i, p in enumerate(g.list(m)):
                    fr = [q for q in g.list(g.nb[g.i(p)]) if not (m | trees) & g.bit(q)]
                    if fr:
                        trees |= g.bit(fr[(i * j + j) % len(fr)])
                hs = g.list(trees)
                b0 = self.make(*s, (), None, None, hs)
                yield b0
                for x in stride(self.static(b0), 2):
                    for lay in self.layouts_of(b0, x):
                        yield self.make(*s, lay, None, None, hs)
        return f


_SETS8 = {}
SPECS = [Akari, Battleship, Binairo, Gokigen, Hakoiri, Juosan, Magnets, Mines, News, Nondango, Pentopia, Shakashaka, Starbattle, Statuepark, Symmarea, Tents]
