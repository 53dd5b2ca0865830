"""Reference rules: loop and path puzzles."""

import json
from collections import Counter
from functools import lru_cache
from itertools import combinations, combinations_with_replacement, product

from .exact import Spec, drawn, subsets
from .grid import DIRS, G, OPP, at, cycles, degree_sets, halves, line_comps, partitions, pop
from .refs_shade import stride
from .shade import BIG, parse_part, room_masks

YAJI = {0: "u", 1: "l", 2: "r", 3: "d"}


def step(p, d):
    return p[0] + DIRS[d][0], p[1] + DIRS[d][1]


class Lp:
    """A set of links on an R x C grid of points."""

    def __init__(self, R, C, links):
        self.R, self.C, self.links = R, C, links
        self.at = at(links)
        g = G(R, C)
        self.mask = g.mask(self.at)
        self._m = {}

    def __eq__(self, o):
        return (self.R, self.C, self.links) == (o.R, o.C, o.links)

    def __hash__(self):
        return hash(self.links)

    def on(self, p):
        return p in self.at

    def turn(self, p):
        return self.at.get(p, "") in ("dl", "dr", "lu", "ru")

    def straight(self, p):
        return self.at.get(p, "") in ("lr", "du")

    def arm(self, p, d):
        """Number of links from p towards d until the line turns or ends."""
        n = 0
        while d in self.at.get(p, ""):
            p = step(p, d)
            n += 1
        return n

    def arms(self, p):
        return [self.arm(p, d) for d in self.at[p]]

    def inside(self, p):
        """p is not on the loop: odd number of crossings above it."""
        return sum("r" in self.at.get((r, p[1]), "") for r in range(p[0])) % 2 == 1

    def crossings(self, g, m):
        """Links that leave the mask m."""
        k = ("x", m)
        if k not in self._m:
            n = 0
            for r, c, d in self.links:
                a = m >> (r * self.C + c) & 1
                q = (r, c + 1) if d == "r" else (r + 1, c)
                n += a != (m >> (q[0] * self.C + q[1]) & 1)
            self._m[k] = n
        return self._m[k]

    def segments(self):
        """Maximal straight stretches: (length in links, mask of the cells)."""
        if "s" not in self._m:
            out = []
            for p, ds in self.at.items():
                for d in "rd":
                    if d in ds and OPP[d] not in ds:
                        n, m, q = 0, 0, p
                        while True:
                            m |= 1 << (q[0] * self.C + q[1])
                            if d not in self.at[q]:
                                break
                            q = step(q, d)
                            n += 1
                        out.append((n, m))
            self._m["s"] = out
        return self._m["s"]


@lru_cache(None)
def loops(R, C):
    """All single loops of the grid, the empty drawing first."""
    return [Lp(R, C, frozenset())] + [Lp(R, C, x) for x in cycles(R, C)]


@lru_cache(None)
def degree_loops(R, C, allowed):
    return [Lp(R, C, x) for x in degree_sets(R, C, allowed)]


def full_loops(R, C):
    n = R * C
    return [x for x in loops(R, C) if len(x.links) == n]


BIGL = dict(BIG)
BIGL[(3, 4)] = BIG[(3, 4)] + ["aabb/aabb/aabb", "aaab/aabb/abbb", "aaaa/aaaa/bbbb"]
BIGL[(4, 4)] = BIG[(4, 4)] + ["aabb/aabb/aabb/aabb", "aaaa/abba/abba/aaaa", "aaaa/aabb/aabb/bbbb", "aaab/aabb/abbb/bbbb", "aaaa/bbba/baaa/bbbb"]
BIGL[(4, 5)] = BIG[(4, 5)] + ["aabbb/aabbb/ccddd/ccddd", "aaaaa/aaaaa/bbbbb/bbbbb", "aaaab/acccb/acbbb/bbbbb"]
BIGL[(5, 4)] = BIG[(5, 4)] + ["aabb/aabb/aabb/aabb/aabb"]


class LoopSpec(Spec):
    """values(b, p): clue values at a place; truth(b, x, p): the values x justifies at p."""

    rooms_plan = False
    tiny = ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1))
    mid = ((2, 2), (2, 3), (3, 2), (2, 4), (4, 2))
    nine = ((3, 3),)
    big = ((3, 4), (4, 3), (4, 4))
    huge = ((4, 5), (5, 4))
    ktiny, kmid, knine, kbig = 1, 2, 1, 0
    nine_derive = 13
    derive = 40
    derive_huge = 14
    minrooms = 1
    lo = 1
    vmin = 0

    # -- to override
    def ok(self, b, x):
        return True

    def source(self, b):
        return loops(b.R, b.C)

    def universe(self, b):
        return [x for x in self.source(b) if self.ok(b, x)]

    def optional(self, b, x):
        return not x.links

    def g(self, b):
        return G(b.R, b.C)

    def rm(self, b):
        g = self.g(b)
        return b._memo("rm", lambda: [g.mask(x) for x in b.rooms])

    def draw(self, b, x):
        return drawn(line=halves(x.links))

    def places(self, b):
        return b.cells

    def values(self, b, p):
        return []

    def put(self, b, p, v):
        b.num(*p, v)

    def clues(self, b):
        return list(b.text.items())

    def truth(self, b, x, p):
        return [v for v in self.values(b, p) if v != "?" and self.clue_ok(b, x, p, v)]

    def legal(self, b, lay):
        return True

    # -- judging a solved board
    def parse(self, s):
        hs = {h[:3] for h in s.halves}
        return Lp(s.R, s.C, frozenset(h for h in hs if h[2] in "rd"))

    def judge(self, b, s):
        x = self.parse(s)
        hs = {h[:3] for h in s.halves}
        if halves(x.links) != hs:
            return False, "broken line"
        if not self.member(b, x) or not self.ok(b, x):
            return False, "general rules"
        for p, v in self.clues(b):
            if not self.clue_ok(b, x, p, v):
                return False, f"clue {p} {v}"
        return self.joint(b, x), "clues together"

    def member(self, b, x):
        return bool(x.links) and all(len(v) == 2 for v in x.at.values()) and len(line_comps(x.links)) == 1

    # -- boards
    def make(self, R, C, lay=(), param=None, rooms=None):
        b = self.board(R, C, param)
        if rooms:
            b.rooms_walls(rooms)
        tmp = b.rooms if rooms else None
        for p, v in lay:
            self.put(b, p, v)
        b._c.clear()
        if rooms:
            b._c["rooms"] = tmp
        return b

    def layouts_of(self, b, x):
        full = []
        for k, p in enumerate(self.places(b)):
            vs = self.truth(b, x, p)
            if vs:
                full.append((p, vs[(k * 5 + len(x.links)) % len(vs)]))
        yield full
        for par in (0, 1):
            yield full[par::2]
        yield full[len(x.links) % 3::3]

    def derived_from(self, b0):
        return [x for x in self.static(b0) if x.links]

    def gen(self, shape, kmax, derive=0, rooms_list=None):
        def f():
            turn = 0
            for rooms in (rooms_list() if rooms_list else [None]):
                for par in self.params:
                    b0 = self.make(*shape, (), par, rooms)
                    seen = set()
                    if kmax is not None:
                        for lay in subsets(self.places(b0), lambda p: self.values(b0, p), kmax):
                            if self.legal(b0, lay):
                                yield self.make(*shape, lay, par, rooms)
                    if derive:
                        src = self.derived_from(b0)
                        if derive == "one":
                            turn += 1
                            src = [src[(7 * turn + 3) % len(src)]] if src else []
                        for x in stride(src, derive if derive != "one" else 1):
                            for lay in self.layouts_of(b0, x):
                                key = json.dumps(lay)
                                if lay and key not in seen and self.legal(b0, lay):
                                    seen.add(key)
                                    yield self.make(*shape, lay, par, rooms)
        return f

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        if self.rooms_plan:
            for s in self.tiny + self.mid + self.nine:
                ps = lambda s=s: [room_masks(self.g_of(s), p) for p in partitions(*s, self.lo) if len(p) >= self.minrooms]
                every = 2 if s in self.nine and not th else 1
                if every > 1:
                    ps = lambda ps=ps: ps()[::2]
                if ps():
                    k = (1 if s in self.mid[:1] else 0) + (1 if th else 0)
                    out.append((f"{s[0]}x{s[1]} {'every second division' if every > 1 else 'all divisions'}, <={k} clue and a derived clue set", self.gen(s, k, 40 if th else "one", ps)))
            for s in self.big + self.huge + (((5, 5),) if th else ()):
                ps = lambda s=s: [parse_part(t) for t in BIGL[s] if len(parse_part(t)) >= self.minrooms]
                k = self.kbig + (1 if th else 0) if s not in self.huge else 0
                n = (self.derive if s in self.big else self.derive_huge) * (10 if th else 1)
                out.append((f"{s[0]}x{s[1]} named divisions, <={k} clues and clue sets of {n} loops", self.gen(s, k, n, ps)))
            return out
        for ss, k in ((self.tiny, self.ktiny), (self.mid, self.kmid), (self.nine, self.knine), (self.big, self.kbig)):
            for s in ss:
                kk = k + (1 if th else 0)
                n = 10 ** 6 if s not in self.big else self.derive * (10 if th else 1)
                if s in self.nine and not th:
                    n = self.nine_derive
                out.append((f"{s[0]}x{s[1]} all boards with <={kk} clues and clue sets of <={n} loops", self.gen(s, kk, n)))
        for s in self.huge + (((5, 5),) if th else ()):
            n = self.derive_huge * (20 if th else 1)
            out.append((f"{s[0]}x{s[1]} boards with clue sets of {n} loops", self.gen(s, None, n)))
        return out

    def g_of(self, s):
        return G(*s)


# ---- cell clues -----------------------------------------------------------------------------------------------------
class Balance(LoopSpec):
    name = "balance"

    def values(self, b, p):
        return [[k, n] for k in "wb" for n in [None] + list(range(2, b.R + b.C - 1))]

    def put(self, b, p, v):
        b.sym(*p, "circle_L__1" if v[0] == "w" else "circle_L__2")
        if v[1] is not None:
            b.num(*p, v[1])

    def clues(self, b):
        out = []
        for (r, c, _), s in b.syms.items():
            n = b.text.get((r, c))
            out.append(((r, c), ["w" if s.endswith("1") else "b", n if isinstance(n, int) else None]))
        return out

    def clue_ok(self, b, x, p, v):
        if not x.on(p):
            return False
        a = x.arms(p)
        return (a[0] == a[1]) == (v[0] == "w") and (v[1] is None or sum(a) == v[1])


class Castle(LoopSpec):
    name = "castle"
    ktiny = 1
    kmid = 1

    def values(self, b, p):
        out = [["w", None], ["g", None], ["k", None]]
        for d in range(4):
            for n in range(0, (b.R if d in (0, 3) else b.C)):
                out.append(["wgk"[(n + d + p[0] + p[1]) % 3], [n, d]])
        return out

    def put(self, b, p, v):
        if v[0] != "w":
            b.surf(*p, 4 if v[0] == "k" else 1)
        if v[1] is not None:
            b.num(*p, f"{v[1][0]}_{v[1][1]}", sub="2")
        elif v[0] == "w":
            b.num(*p, "")

    def clues(self, b):
        out = []
        for p in set(b.text) | set(b.surfs):
            t = b.text.get(p, "")
            k = {"gray": "g", "black": "k"}.get(b.surfs.get(p), "w")
            out.append((p, [k, [int(z) for z in t.split("_")] if isinstance(t, str) and "_" in t else None]))
        return out

    def clue_ok(self, b, x, p, v):
        if x.on(p):
            return False
        if v[0] != "g" and x.inside(p) != (v[0] == "w"):
            return False
        if v[1] is None:
            return True
        n, d = v[1]
        r, c = p
        if d in (0, 3):
            k = sum(1 for a, e, z in x.links if z == "d" and e == c and (a < r if d == 0 else a > r))
        else:
            k = sum(1 for a, e, z in x.links if z == "r" and a == r and (e < c if d == 1 else e > c))
        return k == n

    def truth(self, b, x, p):
        return [v for v in self.values(b, p) if self.clue_ok(b, x, p, v)]

    def layouts_of(self, b, x):
        it = super().layouts_of(b, x)
        yield from it


class Geradeweg(LoopSpec):
    name = "geradeweg"

    def values(self, b, p):
        return list(range(0, max(b.R, b.C))) + ["?"]

    def clue_ok(self, b, x, p, v):
        if v == 0:
            return not x.on(p)
        if not x.on(p):
            return False
        a = x.arms(p)
        if x.turn(p) and a[0] != a[1]:
            return False
        return v == "?" or (a[0] if x.turn(p) else sum(a)) == v


class Masyu(LoopSpec):
    name = "masyu"
    kmid = knine = 2
    kbig = 1

    def values(self, b, p):
        return ["circle_L__1", "circle_L__2"]

    def put(self, b, p, v):
        b.sym(*p, v)

    def clues(self, b):
        return [(p[:2], v) for p, v in b.syms.items()]

    def clue_ok(self, b, x, p, v):
        if not x.on(p):
            return False
        nb = [step(p, d) for d in x.at[p]]
        if v.endswith("1"):
            return x.straight(p) and any(x.turn(q) for q in nb)
        return x.turn(p) and all(x.straight(q) for q in nb)


class SimpleLoop(LoopSpec):
    name = "simpleloop"
    kmid, knine, kbig = 4, 5, 2
    tiny = ((1, 1), (1, 2), (1, 4), (4, 1))

    def values(self, b, p):
        return ["gray" if (p[0] + p[1]) % 2 else "black"]

    def put(self, b, p, v):
        b.surf(*p, 4 if v == "black" else 8)

    def clues(self, b):
        return [(p, v) for p, v in b.surfs.items()]

    def clue_ok(self, b, x, p, v):
        return not x.on(p)

    def joint(self, b, x):
        return pop(x.mask) + len(b.surfs) == b.R * b.C


class Koburin(LoopSpec):
    name = "koburin"
    knine = 2
    kbig = 1

    def values(self, b, p):
        return [0, 1, 2, 3, 4, "?"]

    def blacks(self, b, x):
        g = self.g(b)
        return g.full & ~x.mask & ~g.mask(b.text)

    def clue_ok(self, b, x, p, v):
        return not x.on(p)

    def truth(self, b, x, p):
        return ["x"] if not x.on(p) else []

    def joint(self, b, x):
        g = self.g(b)
        k = self.blacks(b, x)
        return g.noadj(k) and all(pop(g.nb[g.i(p)] & k) == v for p, v in b.text.items() if isinstance(v, int))

    def layouts_of(self, b, x):
        """Some independent set of the unvisited cells is black, the rest carries true clues."""
        g = self.g(b)
        free = g.list(g.full & ~x.mask)
        for rot in range(3):
            k = 0
            for p in free[rot % max(1, len(free)):] + free[:rot % max(1, len(free))]:
                if not g.nb[g.i(p)] & k and (rot or len(free) < 3 or p != free[0]):
                    k |= g.bit(p)
            yield [(p, pop(g.nb[g.i(p)] & k) if (i + rot) % 3 else "?") for i, p in enumerate(free) if not k & g.bit(p)]

    def draw(self, b, x):
        return drawn(shade=self.g(b).list(self.blacks(b, x)), line=halves(x.links))

    def judge(self, b, s):
        return super().judge(b, s)


class Yajilin(Koburin):
    name = "yajilin"
    knine = 1
    kbig = 0

    def values(self, b, p):
        out = ["", "?"]
        for d in range(4):
            m = len(G(b.R, b.C).ray(p, YAJI[d]))
            out += [f"{n}_{d}" for n in range((m + 1) // 2 + 2)]
        return out

    def put(self, b, p, v):
        b.num(*p, v, sub="2" if "_" in v else "1")

    def good(self, b, k, p, v):
        g = self.g(b)
        if not isinstance(v, str) or "_" not in v:
            return True
        n, d = v.split("_")
        return pop(g.mask(g.ray(p, YAJI[int(d)])) & k) == int(n)

    def joint(self, b, x):
        g = self.g(b)
        k = self.blacks(b, x)
        return g.noadj(k) and all(self.good(b, k, p, v) for p, v in b.text.items())

    def layouts_of(self, b, x):
        g = self.g(b)
        free = g.list(g.full & ~x.mask)
        for rot in range(3):
            k = 0
            for p in free[rot % max(1, len(free)):] + free[:rot % max(1, len(free))]:
                if not g.nb[g.i(p)] & k and (rot or len(free) < 3 or p != free[0]):
                    k |= g.bit(p)
            lay = []
            for i, p in enumerate(free):
                if not k & g.bit(p):
                    d = (i + rot + p[0]) % 4
                    lay.append((p, f"{pop(g.mask(g.ray(p, YAJI[d])) & k)}_{d}" if (i + rot) % 4 else ""))
            yield lay


class Slitherlink(LoopSpec):
    name = "slitherlink"
    params = ({"swslither": False, "tslither": False, "vslither": False}, {"swslither": True, "tslither": False, "vslither": False},
              {"swslither": False, "tslither": True, "vslither": False}, {"swslither": True, "tslither": False, "vslither": True})
    tiny = ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1))
    mid = ((2, 2),)
    nine = ((2, 3), (3, 2))
    big = ((3, 3), (2, 4), (4, 2))
    huge = ((4, 4), (3, 4), (4, 3))
    ktiny, kmid, knine, kbig = 2, 2, 1, 1
    nine_derive = 20
    derive = 16
    derive_huge = 6

    def source(self, b):
        return loops(b.R + 1, b.C + 1)

    def values(self, b, p):
        return [0, 1, 2, 3, 4] + (["W", "S"] if b.param["swslither"] else [])

    def around(self, x, p):
        r, c = p
        vs = [(r, c), (r, c + 1), (r + 1, c + 1), (r + 1, c)]
        es = [(r, c, "r"), (r, c + 1, "d"), (r + 1, c, "r"), (r, c, "d")]
        return sum(v in x.at for v in vs), sum(e in x.links for e in es)

    def inside_cell(self, x, p):
        return sum((r, p[1], "r") in x.links for r in range(p[0] + 1)) % 2 == 1

    def clue_ok(self, b, x, p, v):
        if v == "W":
            return not self.inside_cell(x, p)
        if v == "S":
            return self.inside_cell(x, p)
        nv, ne = self.around(x, p)
        if b.param["vslither"]:
            return nv == v
        if b.param["tslither"]:
            return nv - ne == v or (ne == 4 and v == 1)
        return ne == v

    def optional(self, b, x):
        # touch variant: whether the loop of four sides around a clue touches it once or not at all is not settled
        return not x.links or (b.param["tslither"] and any(self.around(x, p)[1] == 4 for p in b.text))

    def draw(self, b, x):
        return drawn(edge={("T" if d == "r" else "L", r, c) for r, c, d in x.links})

    def parse(self, s):
        return Lp(s.R + 1, s.C + 1, frozenset((r, c, "r" if k == "T" else "d") for k, r, c in s.edges))

    def judge(self, b, s):
        x = self.parse(s)
        if not self.member(b, x):
            return False, "not a loop"
        for p, v in self.clues(b):
            if not self.clue_ok(b, x, p, v):
                return False, f"clue {p} {v}"
        return True, ""


class Myopia(Slitherlink):
    name = "myopia"
    params = ({},)
    kmid, knine, kbig = 2, 1, 1
    derive, derive_huge = 40, 30
    BITS = {"u": 64, "l": 128, "d": 16, "r": 32}

    def values(self, b, p):
        return ["".join(d for d in "uldr" if m >> "uldr".index(d) & 1) for m in range(1, 16)]

    def put(self, b, p, v):
        # penpa stores such symbols as a list of 0/1 flags
        bits = [int(z) for z in f"{sum(self.BITS[d] for d in v):08b}"]
        b.q["symbol"][str(b.idx(*p))] = [bits, "arrow_cross", 1]

    def clues(self, b):
        return [((r, c), "".join(d for d in "uldr" if int(s.split("__")[1]) & self.BITS[d])) for (r, c, _), s in b.syms.items()]

    def near(self, x, p):
        r, c = p
        out = {}
        for d, e, z in (("u", [(k, c, "r") for k in range(r, -1, -1)], 0), ("d", [(k, c, "r") for k in range(r + 1, x.R)], 0),
                        ("l", [(r, k, "d") for k in range(c, -1, -1)], 0), ("r", [(r, k, "d") for k in range(c + 1, x.C)], 0)):
            for i, q in enumerate(e):
                if q in x.links:
                    out[d] = i
                    break
        if not out:
            return ""
        m = min(out.values())
        return "".join(d for d in "uldr" if out.get(d) == m)

    def clue_ok(self, b, x, p, v):
        return self.near(x, p) == v

    def optional(self, b, x):
        return not x.links


class Tapaloop(LoopSpec):
    name = "tapaloop"
    params = ({"visit_all": False}, {"visit_all": True})
    tiny = ((1, 1), (1, 2), (2, 2))
    mid = ((2, 3), (3, 2))
    kmid, knine, kbig = 1, 1, 0
    derive = 6
    derive_huge = 2
    nine_derive = 6

    def values(self, b, p):
        return [["?"], ["?", "?"], [0], [1], [2], [3], [4], [5], [7], [8], [1, 1], [1, 2], [2, 2], [1, "?"], [3, "?"], [1, 1, 1], [1, 1, 2],
                [1, 1, 1, 1], ["?", "?", "?"]]

    def put(self, b, p, v):
        b.num(*p, "".join(map(str, v)), sub="4")

    def clues(self, b):
        return list(b.tapa.items())

    RING = ((-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1))

    def visits(self, x, p):
        ring = [(p[0] + a, p[1] + e) for a, e in self.RING]
        joined = []
        for i in range(8):
            a, q = ring[i], ring[(i + 1) % 8]
            d = next(k for k in DIRS if step(a, k) == q)
            joined.append(d in x.at.get(a, ""))
        if all(joined):
            return [8]
        out, start = [], joined.index(False) + 1
        n = 0
        for k in range(start, start + 8):
            n += x.on(ring[k % 8])
            if not joined[k % 8]:
                if n:
                    out.append(n)
                n = 0
        return sorted(out) or [0]

    def clue_ok(self, b, x, p, v):
        if x.on(p):
            return False
        t = self.visits(x, p)
        need = Counter(z for z in v if z != "?")
        return len(t) == len(v) and not need - Counter(t)

    def truth(self, b, x, p):
        if x.on(p):
            return []
        t = self.visits(x, p)
        return [t, t[::-1], ["?"] + t[1:]]

    def joint(self, b, x):
        return not b.param["visit_all"] or pop(x.mask) + len(b.tapa) == b.R * b.C

    def optional(self, b, x):
        return not x.links

    def layouts_of(self, b, x):
        full = [(p, self.truth(b, x, p)) for p in self.places(b)]
        full = [(p, v[(p[0] + p[1]) % 3]) for p, v in full if v]
        if b.param["visit_all"]:
            yield full
            return
        yield full[:6]
        yield full[::3][:4]


# ---- region clues ---------------------------------------------------------------------------------------------------
class RoomLoop(LoopSpec):
    rooms_plan = True
    uses_rooms = True
    minrooms = 2
    passes = 1

    def places(self, b):
        return list(range(len(b.rooms)))

    def values(self, b, p):
        return list(range(1, len(b.rooms[p]) + 1)) + ["?"]

    def put(self, b, p, v):
        room = b.rooms[p]
        b.num(*room[-1 if (len(room) + p) % 2 else 0], v)

    def clues(self, b):
        rid = b.room_id
        return [(rid[p], v) for p, v in b.text.items()]

    def member(self, b, x):
        return super().member(b, x)


def unvisited_apart(b, g, m):
    from .shade import crosses_border_pairs
    return all((g.full & ~m) & x != x for x in crosses_border_pairs(b, g))


class Country(RoomLoop):
    name = "country"

    def ok(self, b, x):
        g = self.g(b)
        return all(x.crossings(g, m) == 2 for m in self.rm(b)) and unvisited_apart(b, g, x.mask)

    def clue_ok(self, b, x, p, v):
        return v == "?" or pop(self.rm(b)[p] & x.mask) == v


class Detour(RoomLoop):
    name = "detour"
    minrooms = 1
    vmin = 0

    def source(self, b):
        return full_loops(b.R, b.C)

    def values(self, b, p):
        return list(range(0, min(len(b.rooms[p]), 6) + 1)) + ["?"]

    def put(self, b, p, v):
        room = b.rooms[p]
        b.corner_num(*room[-1 if (len(room) + p) % 2 else 0], 0, v)

    def clues(self, b):
        rid = b.room_id
        return [(rid[(r, c)], v) for (r, c, k), v in b.corner.items() if k == 0]

    def clue_ok(self, b, x, p, v):
        return v == "?" or sum(x.turn(q) for q in b.rooms[p]) == v

    def member(self, b, x):
        return super().member(b, x) and pop(x.mask) == b.R * b.C


class YajilinRegions(Detour):
    name = "yajilin_regions"

    def source(self, b):
        return loops(b.R, b.C)

    def ok(self, b, x):
        g = self.g(b)
        return g.noadj(g.full & ~x.mask)

    def clue_ok(self, b, x, p, v):
        return v == "?" or pop(self.rm(b)[p] & ~x.mask) == v

    def draw(self, b, x):
        g = self.g(b)
        return drawn(shade=g.list(g.full & ~x.mask), line=halves(x.links))

    def member(self, b, x):
        return LoopSpec.member(self, b, x)


class RoomCell(RoomLoop):
    """Clues stand in cells."""

    def places(self, b):
        return b.cells

    def put(self, b, p, v):
        b.sym(*p, v)

    def clues(self, b):
        return [(p[:2], v) for p, v in b.syms.items()]


class Dotchi(RoomCell):
    name = "dotchi"
    minrooms = 1
    derive, derive_huge = 16, 8

    def values(self, b, p):
        return ["circle_L__1", "circle_L__2"]

    def clue_ok(self, b, x, p, v):
        return x.on(p) == v.endswith("1")

    def joint(self, b, x):
        for room in b.rooms:
            ws = [p for p in room if b.syms.get((*p, 0)) == "circle_L__1"]
            if any(x.turn(p) for p in ws) and any(x.straight(p) for p in ws):
                return False
        return True

    def layouts_of(self, b, x):
        for k in range(4):
            lay = []
            for i, room in enumerate(b.rooms):
                kind = (k + i) % 2
                for j, p in enumerate(room):
                    if x.on(p):
                        if x.turn(p) == bool(kind) and (j + k) % 3 < 2:
                            lay.append((p, "circle_L__1"))
                    elif (j + k) % 2:
                        lay.append((p, "circle_L__2"))
            yield lay


class Doubleback(RoomCell):
    name = "doubleback"
    kbig = 1
    derive, derive_huge = 0, 0
    big = ((3, 4), (4, 3), (4, 4), (4, 5), (5, 4))
    huge = ()

    def static_key(self, b):
        return super().static_key(b) + (tuple(sorted(b.dark)),)

    def values(self, b, p):
        return ["x"]

    def put(self, b, p, v):
        b.surf(*p, 4 if (p[0] + p[1]) % 2 else 1)

    def clues(self, b):
        return []

    def universe(self, b):
        from .board import rooms_of
        g = self.g(b)
        e = set(b.edges)
        for r, c in b.dark:
            e |= {("T", r, c), ("T", r + 1, c), ("L", r, c), ("L", r, c + 1)}
        ms = [g.mask(x) for x in rooms_of(b.R, b.C, e)]
        dk = g.mask(b.dark)
        ms = [m for m in ms if not m & dk]
        return [x for x in loops(b.R, b.C) if x.mask == g.full & ~dk and all(x.crossings(g, m) == 4 for m in ms)]

    def member(self, b, x):
        return super().member(b, x)

    def judge(self, b, s):
        x = self.parse(s)
        if len(b.rooms) < 2:
            return True, "walls that do not divide the grid: the rule says nothing"
        if not self.member(b, x) or pop(x.mask) + len(b.dark) != b.R * b.C:
            return False, "not a full loop"
        from .board import rooms_of
        g = self.g(b)
        e = set(b.edges)
        for r, c in b.dark:
            e |= {("T", r, c), ("T", r + 1, c), ("L", r, c), ("L", r, c + 1)}
        return all(x.crossings(g, g.mask(m)) == 4 for m in rooms_of(b.R, b.C, e) if m[0] not in b.dark), "regions"


class Moonsun(RoomCell):
    name = "moonsun"
    derive, derive_huge = 24, 14

    def values(self, b, p):
        return ["sun_moon__1", "sun_moon__2"]

    def legal(self, b, lay):
        return len(b.rooms) % 2 == 0

    def ok(self, b, x):
        g = self.g(b)
        return all(x.crossings(g, m) == 2 for m in self.rm(b))

    def joint(self, b, x):
        kind = []
        for room in b.rooms:
            moons = [p for p in room if b.syms.get((*p, 0)) == "sun_moon__1"]
            suns = [p for p in room if b.syms.get((*p, 0)) == "sun_moon__2"]
            k = None
            if moons and all(map(x.on, moons)) and not any(map(x.on, suns)):
                k = "m"
            elif suns and all(map(x.on, suns)) and not any(map(x.on, moons)):
                k = "s"
            if k is None:
                return False
            kind.append(k)
        rid = b.room_id
        return all(rid[p] == rid[q] or kind[rid[p]] != kind[rid[q]]
                   for p, q in (((r, c), (r, c + 1) if d == "r" else (r + 1, c)) for r, c, d in x.links))

    def layouts_of(self, b, x):
        """Rooms alternate along the loop; every room shows its own kind on some visited cells and the other elsewhere."""
        rid = b.room_id
        kind = {rid[next(iter(x.at))]: 0}
        changed = True
        while changed:
            changed = False
            for r, c, d in x.links:
                p, q = rid[(r, c)], rid[(r, c + 1) if d == "r" else (r + 1, c)]
                for u, v in ((p, q), (q, p)):
                    if u != v and u in kind and v not in kind:
                        kind[v] = 1 - kind[u]
                        changed = True
        for k in range(3):
            lay = []
            for i, room in enumerate(b.rooms):
                on = [p for p in room if x.on(p)]
                off = [p for p in room if not x.on(p)]
                for j, p in enumerate(on):
                    if (j + k) % 2 == 0 or len(on) == 1:
                        lay.append((p, f"sun_moon__{1 + (kind.get(i, 0) + (k == 1)) % 2}"))
                for j, p in enumerate(off):
                    if (j + k) % 2 == 0:
                        lay.append((p, f"sun_moon__{1 + (kind.get(i, 0) + 1 + (k == 1)) % 2}"))
            yield sorted(lay)


class Nothing(RoomLoop):
    name = "nothing"
    kbig = 0
    mid = ((2, 2), (2, 3), (3, 2), (2, 4), (4, 2))
    huge = ((4, 5), (5, 4), (5, 5))

    def values(self, b, p):
        return []

    def clues(self, b):
        return []

    def ok(self, b, x):
        g = self.g(b)
        for m in self.rm(b):
            if x.mask & m and (x.mask & m != m or x.crossings(g, m) != 2):
                return False
        return unvisited_apart(b, g, x.mask)


class Railpool(RoomLoop):
    name = "railpool"
    minrooms = 1
    derive, derive_huge = 24, 10

    def source(self, b):
        return full_loops(b.R, b.C)

    def static_key(self, b):
        return super().static_key(b) + (tuple(sorted(b.dark)),)

    def universe(self, b):
        g = self.g(b)
        dk = g.mask(b.dark)
        return [x for x in loops(b.R, b.C) if x.mask == g.full & ~dk]

    def values(self, b, p):
        return [[1], [2], ["?"], [1, 2], ["?", 1], [3, "?"], ["?", "?"]]

    def put(self, b, p, v):
        room = b.rooms[p]
        b.num(*room[-1 if (len(room) + p) % 2 else 0], "".join(map(str, v)), sub="4")

    def clues(self, b):
        rid = b.room_id
        return [(rid[p], v) for p, v in b.tapa.items()]

    def lens(self, b, x, p):
        m = self.rm(b)[p]
        return sorted({n for n, s in x.segments() if s & m})

    def clue_ok(self, b, x, p, v):
        t = self.lens(b, x, p)
        return len(t) == len(v) and all(z in t for z in v if z != "?")

    def truth(self, b, x, p):
        t = self.lens(b, x, p)
        if not 0 < len(t) <= 4:
            return []
        return [t, ["?"] + t[1:], t[::-1]]

    def judge(self, b, s):
        x = self.parse(s)
        if not self.member(b, x) or pop(x.mask) + len(b.dark) != b.R * b.C:
            return False, "not a full loop"
        return all(self.clue_ok(b, x, p, v) for p, v in self.clues(b)), "clues"

    def spaces(self, tier):
        out = super().spaces(tier)

        def holes():
            for s, txt, dk in (((3, 4), "aabb/aabb/ccbb", ((1, 1), (1, 2))), ((4, 4), "aabb/aabb/ccdd/ccdd", ((1, 1), (2, 2))),
                               ((4, 4), "aabb/aabb/aabb/ccdd", ((0, 0), (3, 0))), ((3, 3), "aab/aab/ccb", ((1, 1),)), ((4, 5), "aabbb/aabbb/ccddd/ccddd", ((1, 1), (1, 2))),
                               ((4, 5), "aabbb/aabbb/ccddd/ccddd", ((1, 1), (2, 1), (1, 3), (2, 3)))):
                b0 = self.make(*s, (), None, parse_part(txt))
                for p in dk:
                    b0.surf(*p, 4)
                lays = {"[]": []}
                for x in stride(self.static(b0), 12):
                    if x.links:
                        for lay in self.layouts_of(b0, x):
                            lays[json.dumps(lay)] = lay
                for lay in lays.values():
                    b = self.make(*s, lay, None, parse_part(txt))
                    for p in dk:
                        b.surf(*p, 4)
                    b._c.clear()
                    yield b
        return out + [("named divisions with black cells", holes)]


class Onsen(RoomCell):
    name = "onsen"
    minrooms = 1
    big = ((3, 4), (4, 3), (4, 4))
    derive, derive_huge = 24, 14

    def source(self, b):
        return degree_loops(b.R, b.C, (0, 2))

    def comps(self, x):
        if "comps" not in x._m:
            g = G(x.R, x.C)
            x._m["comps"] = [g.mask(c) for c in line_comps(x.links)]
        return x._m["comps"]

    def member(self, b, x):
        return bool(x.links) and all(len(v) == 2 for v in x.at.values())

    def ok(self, b, x):
        g = self.g(b)
        for m in self.rm(b):
            if not x.mask & m:
                return False
            for k in self.comps(x):
                if k & m:
                    n = 0
                    for r, c, d in x.links:
                        p, q = g.i((r, c)), g.i((r, c + 1) if d == "r" else (r + 1, c))
                        if k >> p & 1 and (m >> p & 1) != (m >> q & 1):
                            n += 1
                    if n > 2:
                        return False
        return True

    def optional(self, b, x):
        return False

    def values(self, b, p):
        return list(range(1, len(b.rooms[b.room_id[p]]) + 1)) + ["?"]

    def put(self, b, p, v):
        b.num(*p, v)

    def clues(self, b):
        return [(p, v if isinstance(v, int) else "?") for p, v in b.text.items()]

    def legal(self, b, lay):
        return bool(lay)

    def clue_ok(self, b, x, p, v):
        g = self.g(b)
        if not x.on(p):
            return False
        k = next(k for k in self.comps(x) if k & g.bit(p))
        ns = {pop(k & m) for m in self.rm(b) if k & m}
        return len(ns) == 1 and (v == "?" or ns == {v})

    def joint(self, b, x):
        g = self.g(b)
        cl = g.mask(b.text)
        return all(pop(k & cl) == 1 for k in self.comps(x))

    def layouts_of(self, b, x):
        g = self.g(b)
        if any(len({pop(k & m) for m in self.rm(b) if k & m}) != 1 for k in self.comps(x)):
            return
        for j in range(3):
            lay = []
            for i, k in enumerate(self.comps(x)):
                cs = g.list(k)
                n = next(pop(k & m) for m in self.rm(b) if k & m)
                lay.append((cs[(j * 3 + i) % len(cs)], "?" if (i + j) % 3 == 2 else n))
            yield lay

    def derived_from(self, b0):
        return [x for x in self.static(b0) if x.links and all(len({pop(k & m) for m in self.rm(b0) if k & m}) == 1 for k in self.comps(x))]

    def spaces(self, tier):
        return super().spaces(tier)


# ---- directed loops, paths, bridges ---------------------------------------------------------------------------------
class Dl:
    """A directed loop: next[p] = direction of travel out of p."""

    def __init__(self, lp, rev):
        self.links, self.at, self.mask = lp.links, lp.at, lp.mask
        self.out, self.inn = {}, {}
        if not lp.links:
            return
        s = p = min(lp.at)
        d = lp.at[p][rev]
        while True:
            self.out[p] = d
            q = step(p, d)
            self.inn[q] = d  # direction of travel into q
            p = q
            if p == s:
                break
            d = next(z for z in lp.at[p] if z != OPP[d])


class Nagare(LoopSpec):
    name = "nagare"
    kmid = 1
    kbig = 0
    derive = 30
    STYLE = {"l": 1, "u": 3, "r": 5, "d": 7}

    def source(self, b):
        k = ("dl", b.R, b.C)
        if k not in self._cache:
            self._cache[k] = [Dl(x, 0) for x in loops(b.R, b.C)[:1]] + [Dl(x, v) for x in loops(b.R, b.C)[1:] for v in (0, 1)]
        return self._cache[k]
    _cache = {}

    def values(self, b, p):
        return ["B" + d for d in "lurd"] + ["W" + d for d in "lurd"] + ["x"]

    def put(self, b, p, v):
        if v == "x":
            b.surf(*p, 4)
        else:
            b.sym(*p, f"arrow_B_{v[0]}__{self.STYLE[v[1]]}")
            if v[0] == "W":
                b.surf(*p, 4)

    def clues(self, b):
        inv = {str(n): d for d, n in self.STYLE.items()}
        out = []
        for (r, c, _), s in b.syms.items():
            out.append(((r, c), s[8] + inv[s.split("__")[1]]))
        return out + [(p, "x") for p in b.dark if (*p, 0) not in b.syms]

    def clue_ok(self, b, x, p, v):
        if v[0] == "B":
            return x.out.get(p) == v[1] and x.inn.get(p) == v[1]
        return p not in x.at

    def joint(self, b, x):
        g = self.g(b)
        stop = g.mask([p[:2] for p in b.syms]) | g.mask(b.dark)
        for p, v in self.clues(b):
            if v[0] == "W":
                for q in g.ray(p, v[1], stop):
                    if q in x.at and x.out[q] != v[1] and x.inn[q] != v[1]:
                        return False
        return True

    def legal(self, b, lay):
        # a black arrow inside a wind: whether the wind passes it is not settled
        g = self.g(b)
        bl = g.mask(p for p, v in lay if v[0] == "B")
        st = g.mask(p for p, v in lay if v[0] != "B")
        return not any(v[0] == "W" and g.mask(g.ray(p, v[1], st)) & bl for p, v in lay)

    def layouts_of(self, b, x):
        g = self.g(b)
        n = len(x.links)
        for k in range(3):
            lay = []
            for i, p in enumerate(g.cells):
                if p in x.at:
                    if x.out[p] == x.inn[p] and (i + k) % 4 == n % 4:
                        lay.append((p, "B" + x.out[p]))
                elif (i + k) % 3 == 0:
                    lay.append((p, "x"))
                else:
                    ds = [d for d in "lurd" if all(q not in x.at or d in (x.out[q], x.inn[q]) for q in g.ray(p, d))]
                    if ds:
                        lay.append((p, "W" + ds[(i + k) % len(ds)]))
            yield lay

    def judge(self, b, s):
        x = self.parse(s)
        if not self.member(b, x):
            return False, "not a loop"
        return any(all(self.clue_ok(b, y, p, v) for p, v in self.clues(b)) and self.joint(b, y) for y in (Dl(x, 0), Dl(x, 1))), "clues"


@lru_cache(None)
def ham_paths(R, C):
    """All directed paths through every cell, as tuples of cells."""
    out = []

    def rec(path, seen):
        if len(path) == R * C:
            out.append(tuple(path))
            return
        r, c = path[-1]
        for a, e in DIRS.values():
            q = (r + a, c + e)
            if 0 <= q[0] < R and 0 <= q[1] < C and q not in seen:
                path.append(q)
                seen.add(q)
                rec(path, seen)
                seen.discard(q)
                path.pop()
    for s in G(R, C).cells:
        rec([s], {s})
    return out


def path_links(path):
    out = set()
    for p, q in zip(path, path[1:]):
        a, e = min(p, q), max(p, q)
        out.add((a[0], a[1], "r" if a[0] == e[0] else "d"))
    return out


class Haisu(RoomLoop):
    name = "haisu"
    minrooms = 1
    tiny = ((1, 2), (2, 1), (1, 4), (4, 1))
    nine = ((2, 3), (3, 2))
    mid = ((2, 2),)
    big = ((3, 3), (3, 4), (4, 3), (4, 4))
    huge = ()
    derive = 16

    def universe(self, b):
        rid = b.room_id
        out = []
        for path in ham_paths(b.R, b.C):
            seen, visit, last = Counter(), {}, None
            for p in path:
                if rid[p] != last:
                    seen[rid[p]] += 1
                last = rid[p]
                visit[p] = seen[last]
            out.append((path, visit))
        return out

    def optional(self, b, x):
        return False

    def derived_from(self, b0):
        return self.static(b0)

    def places(self, b):
        return b.cells

    def put(self, b, p, v):
        b.num(*p, v)

    def clues(self, b):
        return list(b.text.items())

    def clue_ok(self, b, x, p, v):
        path, visit = x
        if v == "S":
            return path[0] == p
        if v == "G":
            return path[-1] == p
        if not isinstance(v, int):
            return True
        return path[0] != p and path[-1] != p and visit[p] == v

    def layouts_of(self, b, x):
        path, visit = x
        ends = [(path[0], "S"), (path[-1], "G")]
        n = len(path)
        for k in range(3):
            yield sorted(ends + [(p, visit[p] if (i + k) % 4 else "?") for i, p in enumerate(path[1:-1]) if (i * 7 + k + n) % 3 == 0])
        yield sorted(ends)
        if n > 3:
            yield sorted(ends + [(path[n // 2], visit[path[n // 2]] + 1)])
            yield sorted(ends + [(path[n // 2], max(1, visit[path[n // 2]] - 1)), (path[1], 1)])

    def draw(self, b, x):
        return drawn(line=halves(path_links(x[0])))

    def judge(self, b, s):
        hs = {h[:3] for h in s.halves}
        a = at({h for h in hs if h[2] in "rd"})
        start = next(p for p, v in b.text.items() if v == "S")
        path, last = [start], None
        while True:
            nx = [step(path[-1], d) for d in a.get(path[-1], "") if step(path[-1], d) != last]
            if len(path) > b.R * b.C or not nx:
                break
            last = path[-1]
            path.append(nx[0])
        if len(set(path)) != b.R * b.C or len(path) != b.R * b.C or halves(path_links(path)) != hs:
            return False, "path"
        rid = b.room_id
        seen, visit, last = Counter(), {}, None
        for p in path:
            if rid[p] != last:
                seen[rid[p]] += 1
            last = rid[p]
            visit[p] = seen[last]
        return all(self.clue_ok(b, (tuple(path), visit), p, v) for p, v in self.clues(b)), "clues"

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s in self.tiny + self.mid + self.nine:
            ps = lambda s=s: [room_masks(G(*s), p) for p in partitions(*s)]
            out.append((f"{s[0]}x{s[1]} all divisions, clue sets of paths", self.gen(s, None, 200 if th else 4, ps)))
        for s in self.big:
            ps = lambda s=s: [parse_part(t) for t in (BIGL.get(s) or ["aab/acb/ccb", "aaa/bbb/ccc", "aaa/aba/aaa", "aba/aba/aba"])]
            out.append((f"{s[0]}x{s[1]} named divisions, clue sets of paths", self.gen(s, None, 200 if th else self.derive, ps)))
        return out


def simple_paths(R, C, a, z, banned, grid=None):
    """All simple paths a..z avoiding banned cells (a, z not banned)."""
    out = []

    def rec(path, seen):
        p = path[-1]
        for e, f in DIRS.values():
            q = (p[0] + e, p[1] + f)
            if q == z:
                out.append(tuple(path) + (z,))
            elif 0 <= q[0] < R and 0 <= q[1] < C and q not in seen and q not in banned:
                path.append(q)
                seen.add(q)
                rec(path, seen)
                seen.discard(q)
                path.pop()
    rec([a], {a})
    return out


class Numlin(LoopSpec):
    name = "numlin"
    params = tuple({"visit_all": v, "no_2x2": n} for v in (True, False) for n in (True, False))

    def optional(self, b, x):
        return False

    def expected(self, b):
        g = self.g(b)
        pairs = {}
        for p, v in sorted(b.text.items()):
            pairs.setdefault(v, []).append(p)
        pairs = list(pairs.values())
        ends = set(b.text)
        out = []

        def rec(i, used, paths):
            if i == len(pairs):
                if b.param["visit_all"] and pop(used) != g.n:
                    return
                out.append(list(paths))
                return
            a, z = pairs[i]
            for path in simple_paths(b.R, b.C, a, z, (ends - {a, z}) | set(g.list(used))):
                m = g.mask(path)
                if b.param["no_2x2"] and not g.no2x2(m):
                    continue
                rec(i + 1, used | m, paths + [path])
        rec(0, 0, [])
        return out

    def static(self, b):
        return []

    def draw(self, b, x):
        ls = set()
        for path in x:
            ls |= path_links(path)
        return drawn(line=halves(ls))

    def judge(self, b, s):
        hs = {h[:3] for h in s.halves}
        ls = frozenset(h for h in hs if h[2] in "rd")
        a = at(ls)
        g = self.g(b)
        if halves(ls) != hs or any(len(v) != (1 if p in b.text else 2) for p, v in a.items()):
            return False, "degrees"
        cs = line_comps(ls)
        for c in cs:
            t = [b.text[p] for p in c if p in b.text]
            if len(t) != 2 or t[0] != t[1] or (b.param["no_2x2"] and not g.no2x2(g.mask(c))):
                return False, "paths"
        return (len(cs) * 2 == len(b.text) and (not b.param["visit_all"] or len(a) == g.n)), "cover"

    def boards(self, s, npairs, skip=1):
        def f():
            g = G(*s)
            i = 0
            for cells in combinations(g.cells, 2 * npairs):
                # all ways to pair the chosen cells up
                def match(rest):
                    if not rest:
                        yield []
                        return
                    a = rest[0]
                    for j in range(1, len(rest)):
                        for m in match(rest[1:j] + rest[j + 1:]):
                            yield [(a, rest[j])] + m
                for mt in match(list(cells)):
                    i += 1
                    if i % skip:
                        continue
                    par = self.params[(i // skip) % 4] if s[0] * s[1] > 6 else None
                    for pr in ([par] if par else self.params):
                        lay = []
                        for k, (a, z) in enumerate(mt):
                            lab = [1, 2, "A", 13, 4][k]
                            lay += [(a, lab), (z, lab)]
                        yield self.make(*s, lay, pr)
        return f

    def full_boards(self, s, n):
        """Boards read off complete coverings by paths (all cells visited)."""
        def f():
            sets = [x for x in degree_loops(*s, (1, 2)) if len(line_comps(x.links)) * 2 == sum(len(v) == 1 for v in x.at.values())]
            for i, x in enumerate(stride(sets, n)):
                lay = []
                for k, c in enumerate(line_comps(x.links)):
                    e = [p for p in c if len(x.at[p]) == 1]
                    lay += [(p, k + 1 if (k + i) % 4 else "ABCDEFGHIJ"[k]) for p in e]
                yield self.make(*s, lay, self.params[i % 4])
        return f

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s in ((1, 2), (1, 3), (2, 1), (1, 5), (2, 2), (2, 3), (3, 2)):
            for k in range(1, s[0] * s[1] // 2 + 1):
                out.append((f"{s[0]}x{s[1]} all placements of {k} pairs", self.boards(s, k)))
        out.append(("3x3 all placements of 1 pair", self.boards((3, 3), 1)))
        out.append(("3x3 all placements of 2 pairs", self.boards((3, 3), 2)))
        out.append(("3x3 placements of 3 pairs", self.boards((3, 3), 3, 1 if th else 7)))
        out.append(("3x4 placements of 1 pair", self.boards((3, 4), 1)))
        out.append(("3x4 placements of 2 pairs", self.boards((3, 4), 2, 1 if th else 7)))
        for s, n in (((3, 4), 100), ((4, 3), 100), ((4, 4), 90)):
            out.append((f"{s[0]}x{s[1]} boards of {n} coverings", self.full_boards(s, n * (20 if th else 1))))
        return out


class Hashi(LoopSpec):
    name = "hashi"

    def optional(self, b, x):
        return False

    def static(self, b):
        return []

    def expected(self, b):
        isl = sorted(b.text)
        pairs = []
        for p in isl:
            for d in "rd":
                q = step(p, d)
                mid = []
                while 0 <= q[0] < b.R and 0 <= q[1] < b.C and q not in b.text:
                    mid.append(q)
                    q = step(q, d)
                if q in b.text:
                    pairs.append((p, q, frozenset(mid)))
        out = []

        def rec(i, acc, used, deg):
            if any(isinstance(v, int) and deg.get(p, 0) > v for p, v in b.text.items()):
                return
            if i == len(pairs):
                if all(not isinstance(v, int) or deg.get(p, 0) == v for p, v in b.text.items()):
                    seen, todo = {isl[0]}, [isl[0]]
                    while todo:
                        u = todo.pop()
                        for (p, q, _), n in acc:
                            for s, t in ((p, q), (q, p)):
                                if s == u and t not in seen:
                                    seen.add(t)
                                    todo.append(t)
                    if len(seen) == len(isl):
                        out.append(list(acc))
                return
            p, q, mid = pairs[i]
            rec(i + 1, acc, used, deg)
            if not mid & used:
                for n in (1, 2):
                    rec(i + 1, acc + [(pairs[i], n)], used | mid, {**deg, p: deg.get(p, 0) + n, q: deg.get(q, 0) + n})
        rec(0, [], frozenset(), {})
        return out

    def draw(self, b, x):
        hs = set()
        for (p, q, mid), n in x:
            d = "r" if p[0] == q[0] else "d"
            u = p
            while u != q:
                hs.add((*u, d, n))
                u = step(u, d)
                hs.add((*u, OPP[d], n))
        return drawn(line=hs)

    def boards(self, s, kmax, skip=1):
        """Island sets of kmax cells; clues: all '?', and the sums of every (or some) connected bridge set."""
        def f():
            i = 0
            for cells in combinations(G(*s).cells, kmax):
                i += 1
                if i % skip:
                    continue
                b0 = self.make(*s, [(p, "?") for p in cells])
                yield b0
                exp = self.expected(b0)
                for j, x in enumerate(stride(exp, 5)):
                    deg = Counter()
                    for (p, q, _), n in x:
                        deg[p] += n
                        deg[q] += n
                    yield self.make(*s, [(p, deg[p] if (k + j) % 4 else "?") for k, p in enumerate(cells) if deg[p]] +
                                    [(p, "?") for p in cells if not deg[p]])
                    yield self.make(*s, [(p, deg[p] + (k == j % len(cells)) if deg[p] else 1) for k, p in enumerate(cells)])
        return f

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s, ks in (((1, 2), (1, 2)), ((1, 4), (1, 2, 3)), ((4, 1), (2, 3)), ((2, 2), (1, 2, 3, 4)), ((2, 3), (2, 3, 4)), ((3, 3), (2, 3))):
            for k in ks:
                out.append((f"{s[0]}x{s[1]} all placements of {k} islands", self.boards(s, k)))
        for s, k, n in (((3, 3), 4, 2), ((3, 3), 5, 3), ((3, 3), 6, 2), ((3, 4), 5, 17), ((4, 4), 6, 199), ((4, 5), 7, 1999), ((5, 5), 6, 4999), ((1, 6), 4, 3)):
            out.append((f"{s[0]}x{s[1]} placements of {k} islands", self.boards(s, k, max(1, n // 20) if th else n)))
        return out

    def parse(self, s):
        return s.halves

    def judge(self, b, s):
        got = {h for h in s.halves}
        return any(self.draw(b, x)[4] == got for x in self.expected_from(b, got)), "bridges"

    def expected_from(self, b, got):
        # only the answer that was drawn: read the bridges back, then check them with the reference rules
        isl = sorted(b.text)
        bridges = []
        for p in isl:
            for d in "rd":
                n = next((h[3] for h in got if h[:3] == (*p, d)), 0)
                q = step(p, d)
                mid = []
                while n and q not in b.text and 0 <= q[0] < b.R and 0 <= q[1] < b.C:
                    mid.append(q)
                    q = step(q, d)
                if n:
                    if q not in b.text:
                        return []
                    bridges.append(((p, q, frozenset(mid)), n))
        deg = Counter()
        for (p, q, _), n in bridges:
            deg[p] += n
            deg[q] += n
        if any(isinstance(v, int) and deg[p] != v for p, v in b.text.items()):
            return []
        for (x, _), (y, _) in combinations(bridges, 2):
            if x[2] & y[2]:
                return []
        seen, todo = {isl[0]}, [isl[0]]
        while todo:
            u = todo.pop()
            for (p, q, _), n in bridges:
                for s, t in ((p, q), (q, p)):
                    if s == u and t not in seen:
                        seen.add(t)
                        todo.append(t)
        return [bridges] if len(seen) == len(isl) else []


class Pipelink(LoopSpec):
    name = "pipelink"
    tiny = ((1, 1), (1, 2), (2, 2))
    mid = ((2, 3), (3, 2), (2, 4), (4, 2), (3, 3))
    nine = ((3, 4), (4, 3))
    big = ((4, 4), (3, 5))
    huge = ((4, 5),)
    kmid, knine, kbig = 1, 1, 1
    PAT = ("dl", "dr", "lu", "ru", "lr", "du", "dlru")

    def source(self, b):
        return [x for x in degree_loops(b.R, b.C, (2, 4)) if self.one(x)]

    def one(self, x):
        """Following the line straight through crossings visits every link."""
        if not x.links:
            return False
        p, d = min(x.at), None
        d = x.at[p][0]
        s, n = (p, d), 0
        while True:
            p, n = step(p, d), n + 1
            if len(x.at[p]) == 4:
                pass
            else:
                d = next(z for z in x.at[p] if z != OPP[d])
            if (p, d) == s:
                break
            if n > 1000:
                return False
        return n == len(x.links)

    def member(self, b, x):
        return all(len(x.at.get(p, "")) in (2, 4) for p in b.cells) and self.one(x)

    def values(self, b, p):
        return list(self.PAT)

    def put(self, b, p, v):
        for d in v:
            b.q["line"][b.half_key(*p, d)] = 2

    def clues(self, b):
        out = {}
        for r, c, d, _ in b.halves_of(b.q):
            out[(r, c)] = out.get((r, c), "") + d
        return [(p, "".join(sorted(v))) for p, v in out.items()]

    def clue_ok(self, b, x, p, v):
        return x.at[p] == v


class Firefly(LoopSpec):
    name = "firefly"

    def optional(self, b, x):
        # whether a line may come back to its own firefly is not settled
        return any(w[0] == w[-1] for w in x)

    def static(self, b):
        return []

    DIR = {1: "r", 2: "d", 3: "l", 4: "u"}

    def flies(self, b):
        return {(r + 1, c + 1): (self.DIR[int(s[-1])], b.text_at.get((r, c, 1))) for (r, c, k), s in b.syms.items() if s.startswith("firefly") and k == 1}

    def put(self, b, p, v):
        # the symbol sits on the upper left corner of cell p, i.e. on corner (category 1) of the cell above left
        b.sym(p[0] - 1, p[1] - 1, f"firefly__{v[0]}", 1)
        if v[1] is not None:
            b.num(p[0] - 1, p[1] - 1, v[1], 1)

    def expected(self, b):
        R, C = b.R + 1, b.C + 1
        fl = self.flies(b)
        order = sorted(fl)
        out = []

        def walks(s, used_v, used_e):
            d0, n = fl[s]
            res = []

            def rec(path, d, bends):
                q = step(path[-1], d)
                if not (0 <= q[0] < R and 0 <= q[1] < C):
                    return
                e = frozenset((path[-1], q))
                if e in used_e or q in path[1:]:
                    return
                if q in fl:
                    if OPP[d] != fl[q][0] and (not isinstance(n, int) or n == bends):
                        res.append((tuple(path) + (q,)))
                    return
                if q in used_v:
                    return
                for d2 in DIRS:
                    if d2 != OPP[d]:
                        rec(path + [q], d2, bends + (d2 != d))
            rec([s], d0, 0)
            return res

        def rec(i, acc, uv, ue):
            if i == len(order):
                par = {p: p for p in order}

                def find(p):
                    while par[p] != p:
                        p = par[p]
                    return p
                for w in acc:
                    par[find(w[0])] = find(w[-1])
                if len({find(p) for p in order}) == 1:
                    out.append(list(acc))
                return
            for w in walks(order[i], uv, ue):
                rec(i + 1, acc + [w], uv | set(w[1:-1]), ue | {frozenset(z) for z in zip(w, w[1:])})
        rec(0, [], set(), set())
        return out

    def draw(self, b, x):
        ls = set()
        for w in x:
            ls |= path_links(w)
        return drawn(edge={("T" if d == "r" else "L", r, c) for r, c, d in ls})

    def boards(self, s, k, skip=1, nums=True):
        def f():
            i = 0
            pts = [(r, c) for r in range(s[0] + 1) for c in range(s[1] + 1)]
            for ps in combinations(pts, k):
                for ds in product((1, 2, 3, 4), repeat=k):
                    i += 1
                    if i % skip:
                        continue
                    b0 = self.make(*s, [(p, (d, None)) for p, d in zip(ps, ds)])
                    exp = self.expected(b0)
                    if exp or i % (5 * skip) == 0:
                        yield b0
                    for x in stride(exp, 2):
                        lay = []
                        for j, (p, d) in enumerate(zip(ps, ds)):
                            w = next(w for w in x if w[0] == p)
                            bends = sum((w[t + 1][0] - w[t][0], w[t + 1][1] - w[t][1]) != (w[t][0] - w[t - 1][0], w[t][1] - w[t - 1][1]) for t in range(1, len(w) - 1))
                            lay.append((p, (d, bends if j != 1 else "?")))
                        yield self.make(*s, lay)
                        yield self.make(*s, [(p, (v[0], v[1] + 1 if j == 0 and isinstance(v[1], int) else None)) for j, (p, v) in enumerate(lay)])
        return f

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s, k, n in (((1, 1), 2, 1), ((1, 1), 3, 1), ((1, 2), 2, 1), ((2, 1), 2, 1), ((1, 1), 4, 1), ((2, 2), 2, 1), ((1, 2), 3, 5), ((2, 2), 3, 29), ((2, 2), 4, 97),
                        ((2, 3), 2, 5), ((2, 3), 3, 151), ((3, 3), 3, 799), ((1, 3), 2, 1), ((3, 3), 2, 41)):
            out.append((f"{s[0]}x{s[1]} {'all' if n == 1 else 'every %dth of the' % n} placements of {k} fireflies", self.boards(s, k, max(1, n // 20) if th else n)))
        return out

    def parse(self, s):
        return frozenset(s.edges)

    def judge(self, b, s):
        """Walk from every dot."""
        es = {("T" if d == "r" else "L", r, c) for r, c, d in ()}
        ls = frozenset((r, c, "r" if k == "T" else "d") for k, r, c in s.edges)
        a = at(ls)
        fl = self.flies(b)
        used, par = set(), {p: p for p in fl}

        def find(p):
            while par[p] != p:
                p = par[p]
            return p
        for p, (d, n) in fl.items():
            q, bends = p, 0
            while True:
                if d not in a.get(q, ""):
                    return False, "line"
                nq = step(q, d)
                e = frozenset((q, nq))
                if e in used:
                    return False, "line used twice"
                used.add(e)
                q = nq
                if q in fl:
                    break
                if len(a[q]) != 2:
                    return False, "branch"
                nd = next(z for z in a[q] if z != OPP[d])
                bends += nd != d
                d = nd
            if OPP[d] == fl[q][0] or (isinstance(n, int) and n != bends):
                return False, "clue"
            par[find(p)] = find(q)
        return len(used) == len(ls) and len({find(p) for p in fl}) == 1, "connected"


class Anglers(LoopSpec):
    name = "anglers"
    margin = (1, 1, 1, 1)

    def optional(self, b, x):
        return False

    def static(self, b):
        return []

    def put(self, b, p, v):
        if v == "fish":
            b.sym(*p, "tents__3")
        elif v == "x":
            b.surf(*p, 4 if sum(p) % 2 else 8)
        else:
            b.num(*p, v)

    def expected(self, b):
        g = self.g(b)
        nums = sorted(b.text.items())
        fish = {p[:2] for p in b.syms}
        need = g.n - len(b.dark)
        out = []

        def rec(i, used, acc):
            if i == len(nums):
                if pop(used) == need:
                    out.append(list(acc))
                return
            p, v = nums[i]

            def walk(path, m):
                q0 = path[-1]
                for e, f in DIRS.values():
                    q = (q0[0] + e, q0[1] + f)
                    if not g.inside(*q) or q in b.dark or (used | m) & g.bit(q) or q in b.text:
                        continue
                    n = len(path)
                    if isinstance(v, int) and n > v:
                        continue
                    if q in fish:
                        if not isinstance(v, int) or n == v:
                            rec(i + 1, used | m | g.bit(q), acc + [tuple(path) + (q,)])
                    else:
                        walk(path + [q], m | g.bit(q))
            walk([p], g.bit(p) if g.inside(*p) else 0)
        rec(0, 0, [])
        return out

    def draw(self, b, x):
        hs = set()
        for path in x:
            for p, q in zip(path, path[1:]):
                d = next(k for k in DIRS if step(p, k) == q)
                hs.add((*p, d))
                hs.add((*q, OPP[d]))
        return drawn(line=hs)

    def outside(self, s):
        return [(-1, c) for c in range(s[1])] + [(s[0], c) for c in range(s[1])] + [(r, -1) for r in range(s[0])] + [(r, s[1]) for r in range(s[0])]

    def coverings(self, s, dark):
        """Path covers of the non-dark cells: tuples of paths, each with at least one cell."""
        g = G(*s)
        out = []

        def rec(free, acc):
            if len(out) > 20000:
                return
            if not free:
                out.append(list(acc))
                return
            p = g.list(free & -free)[0]
            # p is somewhere on a path: enumerate all paths containing p inside free, as two arms

            def arms(path, m, last):
                yield path, m
                for d in DIRS.values():
                    q = (path[-1][0] + d[0], path[-1][1] + d[1])
                    if g.inside(*q) and free & ~m & g.bit(q):
                        yield from arms(path + [q], m | g.bit(q), q)
            for a1, m1 in arms([p], g.bit(p), p):
                for a2, m2 in arms([p], m1, p):
                    if len(a2) > 1 and len(a1) > 1 and a2[1] < a1[1]:
                        continue
                    if len(a1) == 1 and len(a2) > 1:
                        continue
                    path = a2[:0:-1] + a1
                    rec(free & ~m2, acc + [path])
        rec(g.full & ~g.mask(dark), [])
        return out

    def boards(self, s, n, darks=((),)):
        def f():
            for dark in darks:
                for i, cov in enumerate(stride(self.coverings(s, dark), n)):
                    outs = set(self.outside(s))
                    lay = [(p, "x") for p in dark]
                    ok = True
                    for j, path in enumerate(cov):
                        if (i + j) % 3 == 1:
                            path = path[::-1]
                        inner = len(path) > 1 and (i + j) % 2
                        if inner:
                            lay.append((path[0], len(path) - 1 if (i + j) % 5 else "?"))
                        else:
                            o = [q for q in (step(path[0], d) for d in DIRS) if q in outs]
                            if not o:
                                if len(path) < 2:
                                    ok = False
                                    break
                                lay.append((path[0], len(path) - 1))
                            else:
                                outs.discard(o[0])
                                lay.append((o[0], len(path) if (i + j) % 5 else "?"))
                        lay.append((path[-1], "fish"))
                    if ok:
                        yield self.make(*s, lay)
                        k = next(k for k, (p, v) in enumerate(lay) if v not in ("fish", "x"))
                        v = lay[k][1]
                        yield self.make(*s, lay[:k] + [(lay[k][0], v + 1 if isinstance(v, int) else 1)] + lay[k + 1:])
        return f

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s, n in (((1, 1), 99), ((1, 2), 99), ((2, 1), 99), ((1, 4), 99), ((2, 2), 999), ((2, 3), 300), ((3, 2), 300), ((3, 3), 250), ((3, 4), 60)):
            g = G(*s)
            darks = [()] + [(p,) for p in g.cells if g.n > 3] + ([((0, 1), (1, 0))] if g.n > 6 else [])
            out.append((f"{s[0]}x{s[1]} boards of path coverings", self.boards(s, (n * 20 if th else n) // max(1, len(darks) // 2), darks)))
        return out

    def judge(self, b, s):
        a = {}
        for r, c, d, _ in s.halves:
            a.setdefault((r, c), set()).add(d)
        fish = {p[:2] for p in b.syms}
        seen = set()
        for p, v in b.text.items():
            path, q = [p], p
            while True:
                nx = [step(q, d) for d in a.get(q, ()) if step(q, d) not in path[-2:-1]]
                if len(nx) != 1 or nx[0] in path:
                    return False, "path"
                q = nx[0]
                path.append(q)
                if q in fish:
                    break
            if isinstance(v, int) and len(path) - 1 != v:
                return False, "length"
            if any(z in b.text or z in fish for z in path[1:-1]) or seen & set(path):
                return False, "paths"
            seen |= set(path)
        return all(p in seen or p in b.dark for p in b.cells), "cover"


SPECS = [Anglers, Balance, Castle, Country, Detour, Dotchi, Doubleback, Firefly, Geradeweg, Haisu, Hashi, Koburin, Masyu, Moonsun, Myopia, Nagare,
         Nothing, Numlin, Onsen, Pipelink, Railpool, SimpleLoop, Slitherlink, Tapaloop, Yajilin, YajilinRegions]
