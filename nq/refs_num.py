"""Reference rules of the number placement puzzles.  A candidate is a tuple of values in cell order (0: no number)."""

import itertools
import json
import math

from .exact import Spec, drawn, subsets
from .grid import DIRS, G, divide, partitions, pop
from .refs_region import touching
from .refs_shade import stride
from .shade import BIG, parse_part, room_masks


def sidekey(p):
    """(r, c, cat) of a side or corner mark -> the side it lies on."""
    r, c, cat = p
    return ("T", r + 1, c) if cat == 2 else ("L", r, c + 1)


def cells_of(side):
    k, r, c = side
    return (r - 1, c) if k == "T" else (r, c - 1), (r, c)


def inner_sides(R, C):
    return [("T", r, c) for r in range(1, R) for c in range(C)] + [("L", r, c) for r in range(R) for c in range(1, C)]


def latin(n, k=None):
    """Latin squares of 1..n as tuples."""
    if n not in _LAT:
        out = []

        def rec(rows, cols):
            if len(rows) == n:
                out.append(tuple(v for row in rows for v in row))
                return
            for row in itertools.permutations(range(1, n + 1)):
                if all(row[i] not in cols[i] for i in range(n)):
                    rec(rows + [row], [cols[i] | {row[i]} for i in range(n)])
        rec([], [set() for _ in range(n)])
        _LAT[n] = out
    return _LAT[n]


_LAT = {}


class Num(Spec):
    """places/values: clue alphabet; a place is (kind, position); kind 'g' is a number given in a cell."""

    rooms = False
    lo, even = 1, False
    zero_is_number = False
    gmax = 9
    # (shape, max clues enumerated, number of candidates whose clue sets are used)
    plan = ()
    rplan = ()             # (shape, every k-th division, max clues, candidates)
    named = ()             # (shape, candidates)
    shade_rest = False

    def universe(self, b):
        g = G(b.R, b.C)
        out = []
        vals = [None] * g.n
        hole = b._memo("hole", lambda: [g.bit(p) & self.hole_mask(b) for p in g.cells])

        def rec(i):
            if i == g.n:
                t = tuple(vals)
                if self.whole(b, g, t):
                    out.append(t)
                return
            if hole[i]:
                vals[i] = 0
                rec(i + 1)
                vals[i] = None
                return
            for v in self.domain(b, g, i):
                vals[i] = v
                if self.partial(b, g, vals, i):
                    rec(i + 1)
            vals[i] = None
        rec(0)
        return out

    def hole_mask(self, b):
        return 0

    def domain(self, b, g, i):
        raise NotImplementedError

    def partial(self, b, g, v, i):
        return True

    def whole(self, b, g, t):
        return True

    def static_key(self, b):
        return (b.R, b.C, tuple(map(tuple, b.rooms)) if self.rooms else None, self.hole_mask(b), json.dumps(b.param, sort_keys=True))

    # -- rooms
    def rid(self, b):
        return b._memo("ridl", lambda: [b.room_id[p] for p in b.cells])

    def rlist(self, b):
        g = G(b.R, b.C)
        return b._memo("rl", lambda: [[g.i(p) for p in r] for r in b.rooms])

    # -- clues
    def clues(self, b):
        g = G(b.R, b.C)
        return [(("g", p), v) for p, v in b.text.items() if g.inside(*p) and isinstance(v, int)] + self.more(b)

    def more(self, b):
        return []

    def clue_ok(self, b, x, p, v):
        if p[0] == "g":
            return x[p[1][0] * b.C + p[1][1]] == v
        return self.ok(b, G(b.R, b.C), x, p, v)

    def ok(self, b, g, x, p, v):
        return self.exact(b, g, x, p) == v

    def exact(self, b, g, x, p):
        raise NotImplementedError

    # -- drawing
    def draw(self, b, x):
        cs = b.cells
        h = self.hole_mask(b)
        g = G(b.R, b.C)
        num = {p: self.text(b, v) for p, v in zip(cs, x) if (v or self.zero_is_number) and v is not None and not h & g.bit(p)}
        return drawn(shade=[p for p, v in zip(cs, x) if not v] if self.shade_rest else (), num=num)

    def text(self, b, v):
        return v

    def parse(self, s):
        return tuple(s.text.get(p, 0) if isinstance(s.text.get(p, 0), int) and p not in s.dark else 0 for p in s.cells)

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        vals = [None] * g.n
        for i, v in enumerate(x):
            if g.bit(g.cells[i]) & self.hole_mask(b):
                vals[i] = 0
                continue
            if v not in self.domain(b, g, i):
                return False, f"value {v} at {g.cells[i]}"
            vals[i] = v
            if not self.partial(b, g, vals, i):
                return False, f"general rules at {g.cells[i]}"
        if not self.whole(b, g, x):
            return False, "general rules"
        for p, v in self.clues(b):
            if not self.clue_ok(b, x, p, v):
                return False, f"clue {p} {v}"
        return self.joint(b, x), "clues together"

    # -- boards
    def places(self, b):
        h = self.hole_mask(b)
        return [("g", p) for p in b.cells if not h & G(b.R, b.C).bit(p)] + self.extra_places(b)

    def extra_places(self, b):
        return []

    def values(self, b, p):
        return self.given_values(b) if p[0] == "g" else self.extra_values(b, p)

    def given_values(self, b):
        return list(range(1, self.gmax + 1))

    def extra_values(self, b, p):
        return []

    def put(self, b, p, v):
        if p[0] == "g":
            b.num(*p[1], v)
        else:
            self.put_extra(b, p, v)

    def make(self, R, C, lay=(), par=None, rooms=None, holes=()):
        b = self.board(R, C, par)
        if rooms:
            b.rooms_walls(rooms)
        for p in holes:
            self.put_hole(b, p)
        for p, v in lay:
            self.put(b, p, v)
        b._c.clear()
        return b

    def put_hole(self, b, p):
        b.surf(*p, 4)

    def legal(self, b, lay):
        return True

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        ex = [(p, v) for p in self.extra_places(b) for v in [self.exact(b, g, x, p)] if v is not None]
        given = [(("g", p), v) for p, v in zip(b.cells, x) if v and not self.hole_mask(b) & g.bit(p)]
        k = sum(x) if all(isinstance(v, int) for v in x) else len(given)
        yield tuple(ex) if ex else tuple(given[k % 2::2])
        if ex:
            yield tuple(ex[k % 2::2])
            yield tuple(ex[k % 3::3]) + tuple(given[k % 4::4])
        else:
            yield tuple(given[k % 3::3])
            yield tuple(given)

    def gen(self, shape, kmax, derive, rooms_list=None, holes_list=None, turn0=0):
        def f():
            turn = turn0
            for rooms in (rooms_list() if rooms_list else [None]):
                for holes in (holes_list() if holes_list else [()]):
                    for par in self.params:
                        b0 = self.make(*shape, (), par, rooms, holes)
                        if not self.board_ok(b0):
                            continue
                        seen = set()
                        if kmax is not None:
                            for lay in subsets(self.places(b0), lambda p: self.values(b0, p), kmax):
                                if self.legal(b0, lay):
                                    seen.add(json.dumps(lay))
                                    yield self.make(*shape, lay, par, rooms, holes)
                        if derive:
                            src = self.sources(b0)
                            if derive == "one":
                                turn += 1
                                src = [src[(7 * turn + 3) % len(src)]] if src else []
                            for x in stride(src, derive if derive != "one" else 1):
                                for lay in self.layouts_of(b0, x):
                                    key = json.dumps(lay)
                                    if lay and key not in seen and self.legal(b0, lay):
                                        seen.add(key)
                                        yield self.make(*shape, lay, par, rooms, holes)
        return f

    def sources(self, b0):
        return self.static(b0)

    def board_ok(self, b):
        return True

    def divisions(self, s, every):
        ps = [p for p in partitions(*s, self.lo) if not self.even or all(pop(m) % 2 == 0 for m in p)]
        return [p for p in (room_masks(G(*s), p) for p in ps[::every]) if self.small(p)]

    fill_cap = None        # divisions with more than this many ways to number every area on its own are left out

    def small(self, rooms):
        return self.fill_cap is None or math.prod(math.factorial(len(r)) for r in rooms) <= self.fill_cap

    def holes_for(self, s, k):
        cells = [(r, c) for r in range(s[0]) for c in range(s[1])]
        return [tuple(p for p, _ in h) for j in range(k + 1) for h in subsets(cells, lambda p: [1], j, j) if j < len(cells)]

    hole_count = 0

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        hl = (lambda s: (lambda: self.holes_for(s, self.hole_count + th))) if self.hole_count else lambda s: None
        for s, k, n in self.plan:
            kk, nn = (k if k is None else k + th), (n * 10 if th and n != "one" else n)
            out.append((f"{s[0]}x{s[1]}, <={kk} clues and clue sets of <={nn} fillings", self.gen(s, kk, nn, None, hl(s))))
        for s, every, k, n in self.rplan:
            kk, nn = (k if k is None else k + th), (40 if th else n)
            ev = 1 if th else every
            out.append((f"{s[0]}x{s[1]}, every {ev}th division, <={kk} clues and clue sets of <={nn} fillings",
                        self.gen(s, kk, nn, lambda s=s, ev=ev: self.divisions(s, ev))))
        for s, n in self.named:
            nn = n * 10 if th else n
            out.append((f"{s[0]}x{s[1]}, named divisions, clue sets of <={nn} fillings", self.gen(s, 0, nn, lambda s=s: self.named_divisions(s))))
        return out

    def named_divisions(self, s):
        ps = [p for p in (parse_part(t) for t in BIG[s]) if self.small(p)]
        return [p for p in ps if all(self.lo <= len(r) and (not self.even or len(r) % 2 == 0) for r in p)]


SM = (((1, 1), 1, 2, 9), ((1, 2), 1, 2, 9), ((2, 1), 1, 2, 9), ((2, 2), 1, 2, 9), ((1, 4), 1, 1, 9), ((4, 1), 1, 1, 9), ((2, 3), 1, 1, 4), ((3, 2), 1, 1, 4))


# ---- regions --------------------------------------------------------------------------------------------------------
class Room(Num):
    rooms = True
    rplan = SM + (((2, 4), 1, 0, "one"), ((4, 2), 1, 0, "one"), ((3, 3), 2, 0, "one"))
    named = (((3, 4), 12), ((4, 3), 12), ((4, 4), 16))

    def given_values(self, b):
        return list(range(1, min(b.R * b.C, 5) + 1))

    def domain(self, b, g, i):
        return range(1, len(b.rooms[self.rid(b)[i]]) + 1)

    def area_unique(self, b, v, i):
        rid = self.rid(b)
        return all(rid[j] != rid[i] or v[j] != v[i] for j in range(i))

    def noadj(self, g, v, i, nb):
        m = nb[i] & ((1 << i) - 1)
        while m:
            j = (m & -m).bit_length() - 1
            m &= m - 1
            if v[j] and v[j] == v[i]:
                return False
        return True


class Cojun(Room):
    name = "cojun"
    fill_cap = 30000

    def partial(self, b, g, v, i):
        if not self.area_unique(b, v, i) or not self.noadj(g, v, i, g.nb):
            return False
        rid = self.rid(b)
        return i < g.C or rid[i] != rid[i - g.C] or v[i - g.C] > v[i]


class Ripple(Room):
    name = "ripple"
    fill_cap = 8000

    def partial(self, b, g, v, i):
        if v[i] == 0 or v[i] is None:
            return True
        if not self.area_unique(b, v, i):
            return False
        r, c = divmod(i, g.C)
        for j in range(i):
            if v[j] == v[i]:
                a, e = divmod(j, g.C)
                if (a == r and c - e <= v[i]) or (e == c and r - a <= v[i]):
                    return False
        return True

    def hole_mask(self, b):   # cells marked '?' take no number
        g = G(b.R, b.C)
        return b._memo("hm", lambda: g.mask(p for p, v in b.text.items() if v == "?" and g.inside(*p)))

    def put_hole(self, b, p):
        b.num(*p, "?")

    def spaces(self, tier):
        return super().spaces(tier) + [(f"{s[0]}x{s[1]}, divisions with cells left out", self.gen(
            s, 0, 2, lambda s=s: self.divisions(s, 11), lambda s=s: self.holes_for(s, 1)[1:])) for s in ((1, 4), (2, 3), (3, 3))]


class Meander(Room):
    name = "meander"
    rplan = (((1, 1), 1, 2, 9), ((2, 2), 1, 2, 9), ((3, 3), 1, 0, 2))
    named = (((4, 4), 20),)

    def partial(self, b, g, v, i):
        return self.area_unique(b, v, i) and self.noadj(g, v, i, g.nb8)

    def whole(self, b, g, t):
        for room in self.rlist(b):
            pos = {t[i]: i for i in room}
            for k in range(1, len(room)):
                if not g.nb[pos[k]] >> pos[k + 1] & 1:
                    return False
        return True

    def named_divisions(self, s):
        return [parse_part(t) for t in ("aabb/aabb/ccdd/ccdd", "aaaa/bbbb/cccc/dddd", "aaab/cccb/dddb/eeeb", "aaaa/abbb/accb/dddb", "abbb/aabb/ccdb/cddd",
                                        "aaab/cacb/cccb/dddd", "abcd/abcd/abcd/abcd")]


class Kazunori(Room):
    name = "kazunori"
    lo, even = 2, True
    rplan = (((1, 2), 1, 2, 9), ((2, 1), 1, 2, 9), ((2, 2), 1, 2, 9), ((1, 4), 1, 2, 9), ((4, 1), 1, 2, 9), ((2, 3), 1, 1, 9), ((3, 2), 1, 1, 9),
             ((2, 4), 1, 0, 4), ((4, 2), 1, 0, 4), ((3, 4), 2, 0, "one"), ((4, 3), 2, 0, "one"))
    named = (((4, 4), 24),)

    def domain(self, b, g, i):
        return range(1, len(b.rooms[self.rid(b)[i]]) // 2 + 1)

    def partial(self, b, g, v, i):
        rid = self.rid(b)
        same = [j for j in range(i) if rid[j] == rid[i] and v[j] == v[i]]
        if len(same) > 1 or (same and not g.nb[i] >> same[0] & 1):
            return False
        r, c = divmod(i, g.C)
        return not (r and c and v[i] == v[i - 1] == v[i - g.C] == v[i - g.C - 1])

    def more(self, b):
        return [(("e", sidekey(p)), v) for p, v in b.text_at.items() if p[2] in (2, 3) and isinstance(v, int) and sidekey(p) in b._memo("is", lambda: set(inner_sides(b.R, b.C)))]

    def exact(self, b, g, x, p):
        (a, c) = cells_of(p[1])
        return x[g.i(a)] + x[g.i(c)]

    def extra_places(self, b):
        return [("e", s) for s in inner_sides(b.R, b.C)]

    def extra_values(self, b, p):
        return [2, 3, 4, "?"]

    def put_extra(self, b, p, v):
        k, r, c = p[1]
        b.num(r - 1, c, v, cat=2) if k == "T" else b.num(r, c - 1, v, cat=3)

    def named_divisions(self, s):
        return [parse_part(t) for t in ("aabb/aabb/ccdd/ccdd", "aaaa/aaaa/bbbb/bbbb", "aabb/acbb/accc/ddcc" if False else "aaab/aaab/ccbb/ccbb", "aaaa/abba/abba/aaaa",
                                        "abbb/abbb/aacc/aacc", "aabb/aacb/cccb/cccb" if False else "aacc/aacc/bbcc/bbcc")]


class Hanare(Room):
    name = "hanare"
    zero = True
    rplan = SM + (((2, 4), 1, 0, 2), ((4, 2), 1, 0, 2), ((3, 3), 1, 0, 2))
    named = (((3, 4), 12), ((4, 4), 16), ((4, 5), 8))

    def universe(self, b):
        g = G(b.R, b.C)
        out = []
        for pick in itertools.product(*self.rlist(b)):
            t = [0] * g.n
            for i, room in zip(pick, self.rlist(b)):
                t[i] = len(room)
            if self.whole(b, g, t):
                out.append(tuple(t))
        return out

    def domain(self, b, g, i):
        return (0, len(b.rooms[self.rid(b)[i]]))

    def whole(self, b, g, t):
        if any(sum(1 for i in room if t[i]) != 1 for room in self.rlist(b)):
            return False
        for line in [[r * g.C + c for c in range(g.C)] for r in range(g.R)] + [[r * g.C + c for r in range(g.R)] for c in range(g.C)]:
            pos = [k for k, i in enumerate(line) if t[i]]
            for a, e in zip(pos, pos[1:]):
                if abs(t[line[a]] - t[line[e]]) != e - a - 1:
                    return False
        return True

    def layouts_of(self, b, x):
        full = [(("g", p), v) for p, v in zip(b.cells, x) if v]
        yield tuple(full[::2])
        yield tuple(full[1::3])


class Putteria(Hanare):
    name = "putteria"
    shade_rest = True

    def whole(self, b, g, t):
        if any(sum(1 for i in room if t[i]) != 1 for room in self.rlist(b)):
            return False
        m = sum(1 << i for i in range(g.n) if t[i])
        if not g.noadj(m):
            return False
        for line in [[r * g.C + c for c in range(g.C)] for r in range(g.R)] + [[r * g.C + c for r in range(g.R)] for c in range(g.C)]:
            vs = [t[i] for i in line if t[i]]
            if len(vs) != len(set(vs)):
                return False
        return True

    def more(self, b):
        return [(("x", p), v) for p, v in b.text.items() if v == "?"]

    def ok(self, b, g, x, p, v):
        return not x[g.i(p[1])]

    def extra_places(self, b):
        return [("x", p) for p in b.cells]

    def extra_values(self, b, p):
        return ["?"]

    def legal(self, b, lay):
        return len({p[1] for p, _ in lay}) == len(lay)

    def put_extra(self, b, p, v):
        b.num(*p[1], v)

    def layouts_of(self, b, x):
        full = [(("g", p), v) if v else (("x", p), "?") for p, v in zip(b.cells, x)]
        yield tuple(full[::2])
        yield tuple(full[1::3])


class Nanro(Room):
    name = "nanro"
    shade_rest = True
    rplan = SM + (((2, 4), 1, 0, 2), ((4, 2), 1, 0, 2), ((3, 3), 1, 0, "one"))
    named = (((3, 4), 16), ((4, 3), 16))

    def universe(self, b):
        g = G(b.R, b.C)
        rm = [sum(1 << i for i in r) for r in self.rlist(b)]
        out = []
        for m in range(1 << g.n):
            if not g.no2x2(m) or not g.connected(m):
                continue
            k = [pop(m & x) for x in rm]
            if min(k) == 0:
                continue
            t = tuple(k[self.rid(b)[i]] if m >> i & 1 else 0 for i in range(g.n))
            if self.whole(b, g, t):
                out.append(t)
        return out

    def domain(self, b, g, i):
        return range(0, len(b.rooms[self.rid(b)[i]]) + 1)

    def whole(self, b, g, t):
        rid = self.rid(b)
        m = sum(1 << i for i in range(g.n) if t[i])
        if not g.no2x2(m) or not g.connected(m):
            return False
        for room in self.rlist(b):
            vs = [t[i] for i in room if t[i]]
            if not vs or any(v != len(vs) for v in vs):
                return False
        for i in range(g.n):
            for j in range(i):
                if g.nb[i] >> j & 1 and rid[i] != rid[j] and t[i] and t[i] == t[j]:
                    return False
        return True

    def more(self, b):
        return [(("c", p[:2]), v) for p, v in b.corner.items() if p[2] == 0 and isinstance(v, int)]

    def exact(self, b, g, x, p):
        room = self.rlist(b)[b.room_id[p[1]]]
        return sum(1 for i in room if x[i])

    def extra_places(self, b):
        return [("c", room[0 if k % 2 else -1]) for k, room in enumerate(b.rooms)]

    def extra_values(self, b, p):
        return [1, 2, 3]

    def put_extra(self, b, p, v):
        b.corner_num(*p[1], 0, v)


class Factors(Num):
    name = "factors"
    rooms = True
    plan = ()
    rplan = (((1, 1), 1, 2, 9), ((2, 2), 1, 2, 9), ((3, 3), 1, 0, "one"))
    named = (((4, 4), 24),)

    def universe(self, b):
        return latin(b.R)

    def static_key(self, b):
        return (b.R, b.C)

    def domain(self, b, g, i):
        return range(1, g.R + 1)

    def whole(self, b, g, t):
        return t in latin(g.R) if g.R < 5 else all(len({t[r * g.C + c] for c in range(g.C)}) == g.C for r in range(g.R)) and \
            all(len({t[r * g.C + c] for r in range(g.R)}) == g.R for c in range(g.C))

    def more(self, b):
        return [(("c", p[:2]), v) for p, v in b.corner.items() if p[2] == 0 and isinstance(v, int)]

    def expected(self, b):
        self._bits.clear()
        return super().expected(b)

    def exact(self, b, g, x, p):
        n = 1
        for i in self.rlist(b)[b.room_id[p[1]]]:
            n *= x[i]
        return n

    def extra_places(self, b):
        return [("c", room[0]) for room in b.rooms]

    def extra_values(self, b, p):
        return [1, 2, 3, 4, 6, 8]

    def given_values(self, b):
        return list(range(1, b.R + 1))

    def put_extra(self, b, p, v):
        b.corner_num(*p[1], 0, v)


# ---- Latin squares --------------------------------------------------------------------------------------------------
class Latin(Num):
    def universe(self, b):
        return latin(b.R)

    def domain(self, b, g, i):
        return range(1, g.R + 1)

    def given_values(self, b):
        return list(range(1, b.R + 1))

    def whole(self, b, g, t):
        n = g.R
        return all(len({t[r * n + c] for c in range(n)}) == n for r in range(n)) and all(len({t[r * n + c] for r in range(n)}) == n for c in range(n))


class Skyscrapers(Latin):
    name = "skyscrapers"
    margin = (1, 1, 1, 1)
    plan = (((1, 1), 3, 9), ((2, 2), 3, 9), ((3, 3), 2, 12), ((4, 4), 1, 144))

    def seen(self, vs):
        top, n = 0, 0
        for v in vs:
            if v > top:
                top, n = v, n + 1
        return n

    def line(self, g, x, p):
        side, k = p[1]
        n = g.R
        vs = [x[r * n + k] for r in range(n)] if side in "tb" else [x[k * n + c] for c in range(n)]
        return vs if side in "tl" else vs[::-1]

    def outside(self, b):
        out = []
        for (r, c), v in b.text.items():
            if r == -1 and 0 <= c < b.C:
                out.append((("o", ("t", c)), v))
            elif r == b.R and 0 <= c < b.C:
                out.append((("o", ("b", c)), v))
            elif c == -1 and 0 <= r < b.R:
                out.append((("o", ("l", r)), v))
            elif c == b.C and 0 <= r < b.R:
                out.append((("o", ("r", r)), v))
        return out

    def more(self, b):
        return self.outside(b)

    def exact(self, b, g, x, p):
        return self.seen(self.line(g, x, p))

    def extra_places(self, b):
        return [("o", (s, k)) for s in "tblr" for k in range(b.R)]

    def extra_values(self, b, p):
        return list(range(1, b.R + 1))

    def put_extra(self, b, p, v):
        s, k = p[1]
        b.num(*{"t": (-1, k), "b": (b.R, k), "l": (k, -1), "r": (k, b.C)}[s], v)


class Easyasabc(Skyscrapers):
    name = "easyasabc"
    params = ({"letters": "ABC"}, {"letters": "AB"}, {"letters": "QXZY"})
    plan = (((2, 2), 2, 9), ((3, 3), 1, 24), ((4, 4), 1, 40))

    def universe(self, b):
        n, k = b.R, len(b.param["letters"])
        if k > n:
            return []
        rows = sorted(set(itertools.permutations(list(range(1, k + 1)) + [0] * (n - k))))
        out = []

        def rec(acc, used):
            if len(acc) == n:
                out.append(tuple(v for row in acc for v in row))
                return
            for row in rows:
                if all(not v or v not in used[c] for c, v in enumerate(row)):
                    rec(acc + [row], [used[c] | {v} if v else used[c] for c, v in enumerate(row)])
        rec([], [set()] * n)
        return [t for t in out if all(len({t[r * n + c] for r in range(n)} - {0}) == k for c in range(n))]

    def board_ok(self, b):
        return len(b.param["letters"]) <= b.R

    def static_key(self, b):
        return (b.R, len(b.param["letters"]), b.param["letters"])

    def domain(self, b, g, i):
        return range(0, len(b.param["letters"]) + 1)

    def whole(self, b, g, t):
        n, k = g.R, len(b.param["letters"])
        return all(sorted(t[r * n + c] for c in range(n)) == [0] * (n - k) + list(range(1, k + 1)) for r in range(n)) and \
            all(sorted(t[r * n + c] for r in range(n)) == [0] * (n - k) + list(range(1, k + 1)) for c in range(n))

    def text(self, b, v):
        return b.param["letters"][v - 1]

    def num(self, b, v):
        return b.param["letters"].index(str(v)) + 1 if len(str(v)) == 1 and str(v) in b.param["letters"] else -1

    def clues(self, b):
        g = G(b.R, b.C)
        return [(("g", p), self.num(b, v)) for p, v in b.text.items() if g.inside(*p)] + [(p, self.num(b, v)) for p, v in self.outside(b)]

    def exact(self, b, g, x, p):
        return next(v for v in self.line(g, x, p) if v)

    def given_values(self, b):
        return list(range(1, len(b.param["letters"]) + 1))

    def extra_values(self, b, p):
        return self.given_values(b)

    def put(self, b, p, v):
        super().put(b, p, self.text(b, v))

    def parse(self, s):
        return tuple(max(0, self.num(s, s.text.get(p, ""))) for p in s.cells)


class Doppelblock(Skyscrapers):
    name = "doppelblock"
    margin = (1, 0, 1, 0)
    plan = (((3, 3), 2, 20), ((4, 4), 1, 150))

    def universe(self, b):
        n = b.R
        rows = sorted(set(itertools.permutations(list(range(1, n - 1)) + [0, 0])))
        out = []

        def rec(acc, cols):
            if len(acc) == n:
                out.append(tuple(v for row in acc for v in row))
                return
            for row in rows:
                if all((v and v not in cols[c]) or (not v and cols[c].count(0) < 2) for c, v in enumerate(row)):
                    rec(acc + [row], [cols[c] + (v,) for c, v in enumerate(row)])
        rec([], [()] * n)
        return out

    def domain(self, b, g, i):
        return range(0, g.R - 1)

    def whole(self, b, g, t):
        n = g.R
        ref = [0, 0] + list(range(1, n - 1))
        return all(sorted(t[r * n + c] for c in range(n)) == ref for r in range(n)) and all(sorted(t[r * n + c] for r in range(n)) == ref for c in range(n))

    def more(self, b):
        return [(p, v) for p, v in self.outside(b) if isinstance(v, int)]

    def exact(self, b, g, x, p):
        vs = self.line(g, x, p)
        a = vs.index(0)
        return sum(vs[a + 1:vs.index(0, a + 1)])

    def extra_places(self, b):
        return [("o", (s, k)) for s in "tl" for k in range(b.R)]

    def extra_values(self, b, p):
        n = b.R - 2
        return list(range(0, n * (n + 1) // 2 + 1)) + ["?"]

    def given_values(self, b):
        return list(range(1, b.R - 1))

    def draw(self, b, x):
        return drawn(shade=[p for p, v in zip(b.cells, x) if not v], num={p: v for p, v in zip(b.cells, x) if v})


class Kropki(Latin):
    name = "kropki"
    plan = (((1, 1), 1, 1), ((2, 2), 4, 9), ((3, 3), 1, 12), ((4, 4), 0, 120))
    WHITE, BLACK = "circle_SS__1", "circle_SS__2"

    def static_key(self, b):
        return (b.R, b.C)

    def dots(self, b):
        return b._memo("dots", lambda: {sidekey(p): n for p, n in b.syms.items() if p[2] in (2, 3)})

    def joint(self, b, x):
        g = G(b.R, b.C)
        d = self.dots(b)
        for s in b._memo("is", lambda: inner_sides(b.R, b.C)):
            p, q = cells_of(s)
            m, n = sorted((x[g.i(p)], x[g.i(q)]))
            w, k = n - m == 1, n == 2 * m
            e = d.get(s)
            if not (w if e == self.WHITE else k if e == self.BLACK else not (w or k)):
                return False
        return True

    def extra_places(self, b):
        return [("s", s) for s in inner_sides(b.R, b.C)]

    def extra_values(self, b, p):
        return [self.WHITE, self.BLACK]

    def put_extra(self, b, p, v):
        k, r, c = p[1]
        b.sym(r - 1, c, v, cat=2) if k == "T" else b.sym(r, c - 1, v, cat=3)

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in range(2):
            lay = []
            for p in self.extra_places(b):
                u, w = (x[g.i(q)] for q in cells_of(p[1]))
                m, n = sorted((u, w))
                if n - m == 1 and n == 2 * m:
                    lay.append((p, (self.WHITE, self.BLACK)[(j + len(lay)) % 2]))
                elif n - m == 1:
                    lay.append((p, self.WHITE))
                elif n == 2 * m:
                    lay.append((p, self.BLACK))
            yield tuple(lay)
            k = (sum(i * v for i, v in enumerate(x)) + j) % max(1, len(lay))
            yield tuple(lay[:k] + lay[k + 1:])
            yield tuple(lay + [(("g", b.cells[k % g.n]), x[k % g.n])])
        if lay:
            q, v = lay[k % len(lay)]
            yield tuple(lay[:k % len(lay)] + [(q, self.WHITE if v == self.BLACK else self.BLACK)] + lay[k % len(lay) + 1:])

    def spaces(self, tier):
        out = super().spaces(tier)

        def tiny():
            for lay in subsets(self.extra_places(self.make(2, 2)), lambda p: [self.WHITE, self.BLACK], 4):
                yield self.make(2, 2, lay)
        return [s for s in out if not s[0].startswith("2x2")] + [("2x2 all dot layouts", tiny)]


class Minarism(Latin):
    name = "minarism"
    plan = (((1, 1), 1, 1), ((2, 2), 2, 9), ((3, 3), 1, 12), ((4, 4), 1, 100))
    SIGN = {"L": ("inequality__1", "inequality__3"), "T": ("inequality__2", "inequality__4")}

    def more(self, b):
        ins = b._memo("is", lambda: set(inner_sides(b.R, b.C)))
        return [(("d", sidekey(p)), v) for p, v in b.text_at.items() if p[2] in (2, 3) and isinstance(v, int) and sidekey(p) in ins] + \
            [(("s", sidekey(p)), n) for p, n in b.syms.items() if p[2] in (2, 3) and sidekey(p) in ins]

    def exact(self, b, g, x, p):
        u, w = (x[g.i(q)] for q in cells_of(p[1]))
        return abs(u - w) if p[0] == "d" else self.SIGN[p[1][0]][u > w]

    def extra_places(self, b):
        s = inner_sides(b.R, b.C)
        return [("d", k) for k in s] + [("s", k) for k in s]

    def extra_values(self, b, p):
        return list(range(1, b.R)) if p[0] == "d" else list(self.SIGN[p[1][0]])

    def legal(self, b, lay):
        at = [p[1] for p, _ in lay if p[0] in "ds"]
        return len(at) == len(set(at))

    def put_extra(self, b, p, v):
        k, r, c = p[1]
        q = (r - 1, c, 2) if k == "T" else (r, c - 1, 3)
        b.num(*q[:2], v, cat=q[2]) if p[0] == "d" else b.sym(*q[:2], v, cat=q[2])

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        s = inner_sides(b.R, b.C)
        k = sum(i * v for i, v in enumerate(x))
        yield tuple((p, self.exact(b, g, x, p)) for p in [("sd"[(i + k) % 2], q) for i, q in enumerate(s)])
        yield tuple((p, self.exact(b, g, x, p)) for p in [("sd"[i % 3 == 0], q) for i, q in enumerate(s)][k % 2::2])


# ---- searched boards: too many fillings for one list ----------------------------------------------------------------
class Searched(Num):
    """The fillings of each board are searched with its clues."""

    def expected(self, b):
        L = self.universe(b)
        cl = self.clues(b)
        return [x for x in L if all(self.clue_ok(b, x, p, v) for p, v in cl) and self.joint(b, x)]

    def static(self, b):
        return []

    def given(self, b):
        g = G(b.R, b.C)
        return b._memo("giv", lambda: {g.i(p): v for p, v in b.text.items() if g.inside(*p) and isinstance(v, int)})


class Sudoku(Searched):
    name = "sudoku"
    params = tuple({"diagonal": a, "untouch": u, "antiknight": k} for a in (False, True) for u in (False, True) for k in (False, True))
    BOX = {4: (2, 2), 6: (2, 3), 8: (2, 4), 9: (3, 3)}

    def peers(self, b):
        def f():
            n = b.R
            h, w = self.BOX[n]
            out = []
            for i in range(n * n):
                r, c = divmod(i, n)
                s = set()
                for j in range(i):
                    a, e = divmod(j, n)
                    if a == r or e == c or (a // h, e // w) == (r // h, c // w):
                        s.add(j)
                    if b.param["diagonal"] and ((a == e and r == c) or (a + e == n - 1 == r + c)):
                        s.add(j)
                    if b.param["untouch"] and abs(a - r) == 1 == abs(e - c):
                        s.add(j)
                    if b.param["antiknight"] and {abs(a - r), abs(e - c)} == {1, 2}:
                        s.add(j)
                out.append(s)
            return out
        return b._memo("peers", f)

    def domain(self, b, g, i):
        gv = self.given(b).get(i)
        return range(1, g.R + 1) if gv is None else (gv,) if 1 <= gv <= g.R else ()

    def universe(self, b):
        """Fillings that agree with the givens: cells with the fewest candidates first."""
        n = b.R
        low = self.peers(b)
        nb = [set(s) for s in low]
        for i, s in enumerate(low):
            for j in s:
                nb[j].add(i)
        gv = self.given(b)
        dom = [{gv[i]} if i in gv else set(range(1, n + 1)) for i in range(n * n)]
        out, val = [], [0] * (n * n)

        def rec():
            best = None
            for i in range(n * n):
                if not val[i]:
                    k = [v for v in dom[i] if all(val[j] != v for j in nb[i])]
                    if best is None or len(k) < len(best[1]):
                        best = (i, k)
                        if len(k) < 2:
                            break
            if best is None:
                out.append(tuple(val))
                return len(out) > 40000
            for v in best[1]:
                val[best[0]] = v
                if rec():
                    return True
            val[best[0]] = 0
            return False
        rec()
        return sorted(out)

    def partial(self, b, g, v, i):
        return all(v[j] != v[i] for j in self.peers(b)[i])

    def spaces(self, tier):
        th = tier == "thorough"
        out = [("4x4, <=2 givens and partial grids, all options", self.four(2 if th else 1))]
        for n in (6, 8, 9):
            out.append((f"{n}x{n} grids with few blanks, all options", self.partials(n, 40 if th else 3)))
        return out

    def four(self, k):
        def f():
            for par in self.params:
                for lay in subsets([("g", p) for p in self.board(4, 4).cells], lambda p: [1, 2, 3, 4], k):
                    if len(lay) < 2 or self.params.index(par) in (0, 4) or k > 1:
                        yield self.make(4, 4, lay, par)
                for j, x in enumerate(self.universe(self.make(4, 4, (), par))[::9 if k == 1 else 1]):
                    full = [(("g", p), v) for p, v in zip(self.board(4, 4).cells, x)]
                    yield self.make(4, 4, full[j % 3::3], par)
                    yield self.make(4, 4, full[j % 4::4], par)
                    if j % 2:
                        p, v = full[j % 16]
                        yield self.make(4, 4, full[j % 3::3] + [(p, v % 4 + 1)], par)
        return f

    def seed_grid(self, n, par, shift):
        """A complete grid for these options found by search from a shifted first row, or None."""
        lay = [(("g", (0, c)), (c + shift) % n + 1) for c in range(n)]
        b = self.make(n, n, lay, par)
        return self.first(b)

    def first(self, b):
        n = b.R
        low = self.peers(b)
        nb = [set(s) for s in low]
        for i, s in enumerate(low):
            for j in s:
                nb[j].add(i)
        val = [0] * (n * n)
        for i, v in self.given(b).items():
            val[i] = v
        budget = [60000]

        def rec():
            budget[0] -= 1
            best = None
            for i in range(n * n):
                if not val[i]:
                    k = [v for v in range(1, n + 1) if all(val[j] != v for j in nb[i])]
                    if best is None or len(k) < len(best[1]):
                        best = (i, k)
                        if len(k) < 2:
                            break
            if best is None:
                return True
            if budget[0] < 0:
                return False
            for v in best[1]:
                val[best[0]] = v
                if rec():
                    return True
            val[best[0]] = 0
            return False
        return tuple(val) if rec() else None

    def partials(self, n, m):
        def f():
            for par in self.params:
                if n == 9 and par["untouch"] and par["antiknight"] and m < 10:
                    continue
                for shift in range(m):
                    x = self.seed_grid(n, par, shift)
                    if x is None:
                        continue
                    full = [(("g", p), v) for p, v in zip(self.board(n, n).cells, x)]
                    for j, keep in enumerate((lambda i: i % 2, lambda i: i % 3, lambda i: (i * 7 + shift) % 5 > 1)):
                        b = self.make(n, n, [q for i, q in enumerate(full) if keep(i)], par)
                        if len(self.universe(b)) < 400:
                            yield b
                    # a relaxed option set must accept the grid, a wrong given must be refused
                    q, v = full[(5 * shift + 7) % len(full)]
                    yield self.make(n, n, [e for e in full if e[0] != q] + [(q, v % n + 1)], par)
                    for other in self.params:
                        if other != par and sum(other.values()) <= 1:
                            yield self.make(n, n, full[1:], other)
        return f


class Kakuro(Searched):
    name = "kakuro"

    def hole_mask(self, b):
        g = G(b.R, b.C)
        return b._memo("hm", lambda: g.mask(p[:2] for p, n in b.syms.items() if n.startswith("kakuro") and g.inside(*p[:2])))

    def put_hole(self, b, p):
        b.sym(*p, "kakuro__3")

    def runs(self, b):
        """[(cells, sum or None)]"""
        def f():
            g = G(b.R, b.C)
            h = self.hole_mask(b)
            out = []
            for r, c in g.list(h):
                for k, d in ((1, "r"), (2, "d")):
                    ray = [g.i(p) for p in g.ray((r, c), d, h)]
                    v = b.corner.get((r, c, k))
                    if ray:
                        out.append((ray, v if isinstance(v, int) else None))
            return out
        return b._memo("runs", f)

    def of(self, b):
        def f():
            d = {}
            for run, s in self.runs(b):
                for i in run:
                    d.setdefault(i, []).append((run, s))
            return d
        return b._memo("of", f)

    def domain(self, b, g, i):
        gv = self.given(b).get(i)
        return range(1, 10) if gv is None else (gv,)

    def partial(self, b, g, v, i):
        for run, s in self.of(b).get(i, ()):
            vs = [v[j] for j in run if v[j] and j <= i]
            if len(set(vs)) != len(vs):
                return False
            left = len(run) - len(vs)
            if s is not None:
                t = s - sum(vs)
                if left == 0 and t or t < left * (left + 1) // 2 or t > left * (19 - left) // 2:
                    return False
        return True

    def clues(self, b):
        return []

    FRAMES = ("###/#..", "##/#./#.", "###/#../#..", "####/#.../#...", "###/#../#../#..", "####/#..#/#..#/####", "####/#.../#..#/#.##", "####/##../#.../#..#",
              "#####/#..#./#.#../##.." if False else "####/#.#./#.../#...")

    def slots(self, b):
        g = G(b.R, b.C)
        h = self.hole_mask(b)
        return [("c", (*p, k)) for p in g.list(h) for k, d in ((1, "r"), (2, "d")) if g.ray(p, d, h)]

    def put_extra(self, b, p, v):
        b.corner_num(*p[1], v)

    def frame(self, t, lay=()):
        rows = t.split("/")
        holes = [(r, c) for r, row in enumerate(rows) for c, ch in enumerate(row) if ch == "#"]
        return self.make(len(rows), len(rows[0]), lay, None, None, holes)

    def spaces(self, tier):
        th = tier == "thorough"
        return [(t, self.frames(t, th)) for t in self.FRAMES]

    def frames(self, t, th):
        def f():
            b0 = self.frame(t)
            sl = self.slots(b0)
            g = G(b0.R, b0.C)
            cells = [i for i in range(g.n) if not self.hole_mask(b0) >> i & 1]
            run = {p: [g.i(q) for q in g.ray(p[1][:2], "r" if p[1][2] == 1 else "d", self.hole_mask(b0))] for p in sl}
            if len(cells) <= 2:   # every combination of sums, missing sums included
                for vs in itertools.product([None] + list(range(1, 19)), repeat=len(sl)):
                    yield self.frame(t, [(p, v) for p, v in zip(sl, vs) if v])
                return
            k = 0
            for fill in self.samples(b0, cells, 12 if not th else 150):
                full = [(p, sum(fill[i] for i in run[p])) for p in sl]
                yield self.frame(t, full)
                k += 1
                i = cells[k % len(cells)]
                yield self.frame(t, full + [(("g", g.cells[i]), fill[i])])
                if len(cells) <= 6:
                    yield self.frame(t, full[:k % len(full)] + full[k % len(full) + 1:])
                    yield self.frame(t, [q if j != k % len(full) else (q[0], q[1] + 1) for j, q in enumerate(full)])
                    yield self.frame(t, full[k % 2::2] + [(("g", g.cells[i]), fill[i])])
        return f

    def samples(self, b0, cells, n):
        """n fillings without repetition in a run, from a counter."""
        out = []
        for s in range(1, n * 3):
            v = {}
            x = s * 2654435761 % (1 << 32)
            ok = True
            for i in cells:
                bad = {v.get(j) for run, _ in self.of(b0).get(i, ()) for j in run}
                opts = [d for d in range(1, 10) if d not in bad]
                if s % 3 == 0:
                    opts = opts[:3]
                if s % 3 == 1:
                    opts = opts[-3:]
                if not opts:
                    ok = False
                    break
                v[i] = opts[x % len(opts)]
                x = (x * 1103515245 + 12345) % (1 << 31)
            if ok:
                out.append(v)
            if len(out) == n:
                break
        return out


class Kakuru(Searched):
    name = "kakuru"

    def hole_mask(self, b):
        g = G(b.R, b.C)
        return b._memo("hm", lambda: g.mask(p for p in b.dark if g.inside(*p)))

    def sums(self, b):
        g = G(b.R, b.C)
        h = self.hole_mask(b)
        return b._memo("sums", lambda: [(g.nb8[g.i(p)] & ~h, v if isinstance(v, int) else None) for p, v in b.text.items() if g.inside(*p)])

    def clues(self, b):
        return []

    def domain(self, b, g, i):
        return range(1, 10)

    def partial(self, b, g, v, i):
        m = g.nb8[i]
        for j in range(i):
            if m >> j & 1 and v[j] == v[i]:
                return False
        for around, s in self.sums(b):
            if around >> i & 1:
                vs = [v[j] for j in range(i + 1) if around >> j & 1]
                if len(set(vs)) != len(vs):
                    return False
                if s is not None:
                    left = pop(around) - len(vs)
                    t = s - sum(vs)
                    if (left == 0 and t) or t < left * (left + 1) // 2 or t > left * (19 - left) // 2:
                        return False
        return True

    def whole(self, b, g, t):
        return all(around or s in (None, 0) for around, s in self.sums(b))

    def put_extra(self, b, p, v):
        b.num(*p[1], v)

    GRIDS = ("#.", ".#/..", "#./.#", ".../.#.", "#../..#", "..#/#.#", "#.#/.../..#", "..#/.#./#..", ".#./#.#/.#.", "#.#/...", ".#.#/#...")

    def frame(self, t, lay=()):
        rows = t.split("/")
        holes = [(r, c) for r, row in enumerate(rows) for c, ch in enumerate(row) if ch == "#"]
        return self.make(len(rows), len(rows[0]), lay, None, None, holes)

    def spaces(self, tier):
        return [(t, self.frames(t, tier == "thorough")) for t in self.GRIDS]

    def frames(self, t, th):
        def f():
            b0 = self.frame(t)
            g = G(b0.R, b0.C)
            hs = g.list(self.hole_mask(b0))
            white = g.n - len(hs)
            if white <= 3:
                for p in hs:
                    for v in list(range(0, 28)) + ["?"]:
                        yield self.frame(t, [(("c", p), v)])
            seen = set()
            for s in range(1, (150 if th else 16)):
                x = s * 2654435761 % (1 << 32)
                vals = [0] * g.n
                for i in range(g.n):
                    if not self.hole_mask(b0) >> i & 1:
                        bad = {vals[j] for j in range(i) if g.nb8[i] >> j & 1}
                        o = [d for d in range(1, 10) if d not in bad][:: 1 if s % 2 else -1][:4]
                        vals[i] = o[x % len(o)]
                        x = (x * 1103515245 + 12345) % (1 << 31)
                lay = [(("c", p), sum(vals[j] for j in range(g.n) if g.nb8[g.i(p)] >> j & 1)) for p in hs]
                for lay2 in (lay, lay[s % 2::2] if white <= 4 else lay, [(p, "?" if k == s % len(lay) else v) for k, (p, v) in enumerate(lay)] if white <= 5 else lay):
                    if json.dumps(lay2) not in seen:
                        seen.add(json.dumps(lay2))
                        yield self.frame(t, lay2)
        return f


class Numrope(Searched):
    name = "numrope"

    def hole_mask(self, b):
        g = G(b.R, b.C)
        return b._memo("hm", lambda: g.mask(p for p in b.dark if g.inside(*p)))

    def links(self, b):
        g = G(b.R, b.C)

        def f():
            out = [0] * g.n
            for r, c, d, _ in b.halves:
                q = (r + DIRS[d][0], c + DIRS[d][1])
                if g.inside(r, c) and g.inside(*q):
                    out[g.i((r, c))] |= g.bit(q)
            return out
        return b._memo("lk", f)

    def clues(self, b):
        return []

    def domain(self, b, g, i):
        gv = self.given(b).get(i)
        return range(1, 10) if gv is None else (gv,)

    def partial(self, b, g, v, i):
        lk = self.links(b)
        for j in range(i):
            if g.nb[i] >> j & 1 and v[j]:
                if v[j] == v[i] or (lk[i] >> j & 1 and abs(v[j] - v[i]) != 1):
                    return False
        return True

    def whole(self, b, g, t):
        lk = self.links(b)
        for i in range(g.n):
            if pop(lk[i]) == 2:
                a = [t[j] for j in range(g.n) if lk[i] >> j & 1]
                if a[0] + a[1] != 2 * t[i]:
                    return False
        for p, v in b.text.items():
            if g.inside(*p) and self.hole_mask(b) & g.bit(p) and isinstance(v, int):
                if sum(t[j] for j in range(g.n) if g.nb[g.i(p)] >> j & 1) != v:
                    return False
        return True

    def given(self, b):
        g = G(b.R, b.C)
        return b._memo("giv", lambda: {g.i(p): v for p, v in b.text.items() if g.inside(*p) and isinstance(v, int) and not g.bit(p) & self.hole_mask(b)})

    # shape, holes, ropes (lists of cells)
    FORMS = (("..", ("ab",)), ("...", ("abc",)), ("../..", ("abdc",)), ("../..", ("ab", "cd")), ("../#.", ("abd",)), ("#./..", ("cd",)), (".#./...", ("cd" if False else "def",)),
             ("../..", ("acd",)), ("../#./..", ("abd" if False else "ab", "ef")), ("#../..#", ("bced" if False else "bc", "de")), (".../.#.", ("abc",)), ("./././#", ("abc",)),
             (".../...", ("abcfed",)), (".../...", ("abc", "def")), ("#.#/...", ("def",)))

    def form(self, k, lay=()):
        t, ropes = self.FORMS[k]
        rows = t.split("/")
        C = len(rows[0])
        holes = [(r, c) for r, row in enumerate(rows) for c, ch in enumerate(row) if ch == "#"]
        b = self.make(len(rows), C, lay, None, None, holes)
        for rope in ropes:
            cs = [divmod(ord(ch) - 97, C) for ch in rope]
            for p, q in zip(cs, cs[1:]):
                a, e = min(p, q), max(p, q)
                b.line(*a, "r" if a[0] == e[0] else "d", layer="q")
        b._c.clear()
        return b

    def put_extra(self, b, p, v):
        b.num(*p[1], v)

    def spaces(self, tier):
        return [(f"{t} ropes {ropes}", self.forms(k, tier == "thorough")) for k, (t, ropes) in enumerate(self.FORMS)]

    def forms(self, k, th):
        def f():
            b0 = self.form(k)
            g = G(b0.R, b0.C)
            h = self.hole_mask(b0)
            yield b0
            cells = [p for p in g.cells if not h & g.bit(p)]
            for p in cells:
                for v in range(1, 10):
                    yield self.form(k, [(("g", p), v)])
            for p in g.list(h):
                for v in range(1, 28):
                    yield self.form(k, [(("c", p), v)])
                    if th or v % 3 == 0:
                        for q in cells[::2]:
                            yield self.form(k, [(("c", p), v), (("g", q), v % 9 + 1)])
            for p, q in itertools.combinations(cells, 2):
                for v in (1, 4, 8, 9):
                    for w in (2, 3, 6, 9):
                        yield self.form(k, [(("g", p), v), (("g", q), w)])
        return f


class Bosanowa(Num):
    name = "bosanowa"
    params = ({"max_number": "4"}, {"max_number": "6"})
    hole_count = 1
    plan = (((1, 1), 1, 9), ((1, 2), 1, 9), ((2, 1), 1, 9), ((1, 3), 1, 9), ((2, 2), 1, 6), ((3, 1), 1, 9), ((2, 3), 1, 4), ((3, 2), 1, 4), ((3, 3), 0, 8), ((2, 4), 0, 4))

    def hole_mask(self, b):
        g = G(b.R, b.C)
        return b._memo("hm", lambda: g.mask(p for p in b.dark if g.inside(*p)))

    def domain(self, b, g, i):
        return range(1, int(b.param["max_number"]) + 1)

    def partial(self, b, g, v, i):
        for j in range(max(0, i - g.C), i + 1):
            if not v[j]:
                continue
            m = g.nb[j] & ~self.hole_mask(b)
            s = 0
            k = m & ((1 << (i + 1)) - 1)
            for e in range(max(0, j - g.C), min(i, j + g.C) + 1):
                if k >> e & 1:
                    s += abs(v[e] - v[j])
            if s > v[j] or (not m >> (i + 1) and s != v[j]):
                return False
        return True

    def given_values(self, b):
        return [1, 2, 3, 4, 6, 7]


class Simplegako(Num):
    name = "simplegako"
    plan = (((1, 1), 1, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((1, 3), 2, 9), ((2, 2), 2, 9), ((2, 3), 1, 30), ((3, 2), 1, 30), ((3, 3), 1, 40), ((2, 4), 0, 40), ((4, 2), 0, 40))

    def domain(self, b, g, i):
        return range(1, g.R + g.C)

    def cross(self, g, v, i, upto):
        r, c = divmod(i, g.C)
        return sum(1 for j in range(upto) if v[j] == v[i] and (j // g.C == r or j % g.C == c))

    def partial(self, b, g, v, i):
        r, c = divmod(i, g.C)
        for j in range(i + 1):
            if (j // g.C == r or j % g.C == c) and self.cross(g, v, j, i + 1) > v[j]:
                return False
        if c == g.C - 1 and r == g.R - 1:
            return self.whole(b, g, v)
        return True

    def whole(self, b, g, t):
        return all(self.cross(g, t, i, g.n) == t[i] for i in range(g.n))

    def given_values(self, b):
        return list(range(1, b.R + b.C))


# ---- numbers determined by the set of numbered cells ----------------------------------------------------------------
class Placed(Num):
    """A candidate is determined by the set of numbered cells; -1 stands for an empty cell."""

    zero_is_number = True
    plan = (((1, 1), 1, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((1, 3), 2, 9), ((2, 2), 2, 20), ((2, 3), 2, 20), ((3, 2), 2, 20), ((3, 3), 1, 60), ((1, 6), 1, 20), ((3, 4), 1, 60), ((4, 3), 0, 60))
    vmax = 4

    def number(self, b, g, m, i):
        return pop(g.nb[i] & m)

    def rest(self, b, g, m, t):
        return True

    def universe(self, b):
        g = G(b.R, b.C)
        out = []
        for m in range(1 << g.n):
            if g.connected(g.full & ~m if False else m if self.conn == "num" else g.full & ~m):
                t = tuple(self.number(b, g, m, i) if m >> i & 1 else None for i in range(g.n))
                if self.rest(b, g, m, t):
                    out.append(t)
        return out

    conn = "num"

    def optional(self, b, x):
        # an answer without numbers, or with the lone number 0, is a degenerate case
        vs = [v for v in x if v is not None]
        return not vs or vs == [0]

    def no_equal(self, g, t):
        return all(t[i] is None or t[i] != t[j] for i in range(g.n) for j in range(i) if g.nb[i] >> j & 1)

    def more(self, b):
        g = G(b.R, b.C)
        return [(("s", p[:2]), n) for p, n in b.syms.items() if g.inside(*p[:2])]

    def ok(self, b, g, x, p, v):
        t = x[g.i(p[1])]
        return t is not None if v == "ox_E__1" else t is None

    def extra_places(self, b):
        return [("s", p) for p in b.cells]

    def extra_values(self, b, p):
        return ["ox_E__1", "ox_E__4", "ox_E__7"] if b.R * b.C <= 2 else ["ox_E__1", "ox_E__4"]

    def put_extra(self, b, p, v):
        b.sym(*p[1], v)

    def given_values(self, b):
        return list(range(0 if b.R * b.C < 5 else 1, self.vmax + 1))

    def layouts_of(self, b, x):
        full = [(("g", p), v) for p, v in zip(b.cells, x) if v is not None]
        if not full:
            return
        k = sum(v for v in x if v)
        yield tuple(full[k % 2::2])
        yield tuple(full[k % 3::3])
        mark = [(("s", p), "ox_E__1" if v is not None else "ox_E__4") for p, v in zip(b.cells, x)]
        yield tuple(mark[k % 2::2])

    def parse(self, s):
        return tuple(s.text.get(p) for p in s.cells)

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        m = sum(1 << i for i in range(g.n) if x[i] is not None)
        if not g.connected(m) or any(x[i] != self.number(b, g, m, i) for i in range(g.n) if m >> i & 1) or not self.rest(b, g, m, x):
            return False, "general rules"
        for p, v in self.clues(b):
            if not self.clue_ok(b, x, p, v):
                return False, f"clue {p} {v}"
        return True, ""


class Sukoro(Placed):
    name = "sukoro"

    def rest(self, b, g, m, t):
        return self.no_equal(g, t)


class View(Placed):
    name = "view"
    vmax = 5

    def number(self, b, g, m, i):
        return sum(len(g.ray(g.cells[i], d, m)) for d in "udlr")

    def rest(self, b, g, m, t):
        return self.no_equal(g, t)

    def optional(self, b, x):
        return all(v is None for v in x)

    def given_values(self, b):
        return list(range(0, min(self.vmax, b.R + b.C) + 1))


class Sukororoom(Placed):
    name = "sukororoom"
    rooms = True
    plan = ()
    rplan = SM + (((2, 4), 1, 0, 2), ((4, 2), 1, 0, 2), ((3, 3), 1, 0, "one"))
    named = (((3, 4), 16), ((4, 3), 16), ((4, 4), 12))

    def universe(self, b):
        g = G(b.R, b.C)
        rm = [sum(1 << i for i in r) for r in self.rlist(b)]
        out = []
        for k in range(1 << len(rm)):
            m = sum(x for j, x in enumerate(rm) if k >> j & 1)
            if g.connected(m):
                t = tuple(self.number(b, g, m, i) if m >> i & 1 else None for i in range(g.n))
                if self.rest(b, g, m, t):
                    out.append(t)
        return out

    def rest(self, b, g, m, t):
        for room in self.rlist(b):
            vs = [t[i] for i in room if t[i] is not None]
            if len(vs) not in (0, len(room)) or len(set(vs)) != len(vs):
                return False
        return True


# ---- fillomino ------------------------------------------------------------------------------------------------------
class Fillomino(Num):
    name = "fillomino"
    params = ({"fast_mode": True}, {"fast_mode": False})
    plan = (((1, 1), 1, 9), ((1, 2), 2, 9), ((2, 1), 2, 9), ((1, 3), 2, 9), ((3, 1), 1, 9), ((2, 2), 3, 12), ((1, 6), 1, 20), ((2, 3), 2, 60), ((3, 2), 1, 60), ((3, 3), 1, 60),
            ((3, 4), 0, 40), ((4, 3), 0, 40))

    def universe(self, b):
        g = G(b.R, b.C)
        return [x for x in divide(b.R, b.C, g.full) if all(pop(m) != pop(n) for m, n in touching(g, x))]

    def static_key(self, b):
        return (b.R, b.C)

    def clue_ok(self, b, x, p, v):
        k = G(b.R, b.C).bit(p[1])
        return any(m & k and pop(m) == v for m in x)

    def joint(self, b, x):
        if not b.param.get("fast_mode"):
            return True
        cl = b._memo("clm", lambda: G(b.R, b.C).mask(p for _, p in [q for q, _ in self.clues(b)]))
        return all(m & cl or pop(m) <= 5 for m in x)

    def given_values(self, b):
        return list(range(1, min(b.R * b.C, 7) + 1))

    def draw(self, b, x):
        from .refs_region import Div
        e = Div.draw(self, b, x)[3]
        g = G(b.R, b.C)
        return drawn(num={p: pop(m) for m in x for p in g.list(m)}, edge=e)

    def parse(self, s):
        g = G(s.R, s.C)
        return tuple(g.mask(r) for r in s.rooms)

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        if any(pop(m) == pop(n) for m, n in touching(g, x)) or any(s.text.get(p) != pop(m) for m in x for p in g.list(m)):
            return False, "general rules"
        return self.joint(b, x), "clues together"

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in range(4):
            lay = []
            for i, m in enumerate(x):
                cs = g.list(m)
                if j < 2:
                    lay.append((("g", cs[(i * 3 + j * (len(cs) - 1)) % len(cs)]), pop(m)))
                elif j == 2:
                    lay += [(("g", p), pop(m)) for p in cs[i % 2::2]]
                elif i % 2 == 0:
                    lay.append((("g", cs[i % len(cs)]), pop(m)))
            yield tuple(lay)


SPECS = [Cojun, Ripple, Meander, Kazunori, Hanare, Putteria, Nanro, Factors, Skyscrapers, Easyasabc, Doppelblock, Kropki, Minarism, Sudoku, Kakuro,
         Kakuru, Numrope, Bosanowa, Simplegako, Sukoro, View, Sukororoom, Fillomino]
