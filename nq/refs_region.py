"""Reference rules of the area division puzzles.  A candidate is a tuple of cell masks (the areas)."""

import json

from .exact import Spec, drawn, subsets
from .grid import DIRS, G, congruent_key, divide, omino, pop, rect_divide, rectangulations
from .refs_shade import YAJI, stride


def side(p, d):
    """The side of cell p towards d as a drawn edge."""
    r, c = p
    return {"u": ("T", r, c), "d": ("T", r + 1, c), "l": ("L", r, c), "r": ("L", r, c + 1)}[d]


def area_of(g, x, p):
    k = g.bit(p)
    for m in x:
        if m & k:
            return m
    return 0


def sides(g, x, p):
    m = area_of(g, x, p)
    n = 0
    for dr, dc in DIRS.values():
        q = (p[0] + dr, p[1] + dc)
        if not g.inside(*q) or not m & g.bit(q):
            n += 1
    return n


def touching(g, x):
    """Pairs of areas that share a side."""
    for i, a in enumerate(x):
        e = g.expand(a)
        for b in x[i + 1:]:
            if e & b:
                yield a, b


def no_cross(g, x):
    """No point where four areas' borders meet."""
    for q in g.sq2:
        i = q & -q
        a, b, c, d = i, i << 1, i << g.C, i << (g.C + 1)
        own = {}
        for m in x:
            for k in (a, b, c, d):
                if m & k:
                    own[k] = m
        if own[a] != own[b] and own[a] != own[c] and own[d] != own[b] and own[d] != own[c]:
            return False
    return True


class Div(Spec):
    lo, hi = 1, None
    holes_ok = False
    max_holes = 1
    rect = False
    one_clue = False          # every area holds exactly one clue
    unknown = True
    tiny = ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1))
    mid = ((2, 3), (3, 2))
    nine = ((2, 4), (4, 2), (3, 3))
    big = ((3, 4), (4, 3))
    huge = ()
    ktiny, kmid, knine, kbig = 2, 2, 1, 1
    nmid, nnine, nbig, nhuge = 10 ** 6, 10 ** 6, 60, 40

    # -- general rules
    def area(self, b, g, m):
        return True

    def base(self, b, g, x):
        return True

    def hole_mask(self, b):
        return b._memo("hm", lambda: G(b.R, b.C).mask(p for p in b.dark if 0 <= p[0] < b.R and 0 <= p[1] < b.C)) if self.holes_ok else 0

    def static_key(self, b):
        return (b.R, b.C, self.hole_mask(b), json.dumps(b.param, sort_keys=True))

    def divisions(self, b, g):
        free = g.full & ~self.hole_mask(b)
        lo, hi = self.bounds(b)
        if self.rect:
            return rect_divide(b.R, b.C, lambda m: self.area(b, g, m)) if type(self).area is not Div.area else rectangulations(b.R, b.C)
        if lo == hi and pop(free) % lo:
            return []
        return divide(b.R, b.C, free, lo, hi, good=lambda m: self.area(b, g, m))

    def bounds(self, b):
        return self.lo, self.hi

    def universe(self, b):
        g = G(b.R, b.C)
        return [x for x in self.divisions(b, g) if self.base(b, g, x)]

    # -- clues
    def clues(self, b):
        return [(p, v) for p, v in b.text.items() if 0 <= p[0] < b.R and 0 <= p[1] < b.C]

    def clue_ok(self, b, x, p, v):
        return not isinstance(v, int) or self.number(b, G(b.R, b.C), x, p) == v

    def number(self, b, g, x, p):
        raise NotImplementedError

    def joint(self, b, x):
        if self.one_clue:
            m = b._memo("cm", lambda: G(b.R, b.C).mask(p for p, _ in self.clues(b)))
            return all(pop(a & m) == 1 for a in x)
        return True

    # -- drawing
    def draw(self, b, x):
        g = G(b.R, b.C)
        own = {}
        for m in x:
            for p in g.list(m):
                own[p] = m
        es = set()
        for r in range(b.R + 1):
            for c in range(b.C + 1):
                if c < b.C and (r in (0, b.R) or own.get((r, c)) != own.get((r - 1, c))):
                    es.add(("T", r, c))
                if r < b.R and (c in (0, b.C) or own.get((r, c)) != own.get((r, c - 1))):
                    es.add(("L", r, c))
        return drawn(edge=es)

    def parse(self, s):
        g = G(s.R, s.C)
        h = self.hole_mask(s)
        return tuple(sorted((k for k in (g.mask(x) for x in s.rooms) if not k & h), key=lambda k: k & -k))

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        inner = {e for e in s.edges if (e[0] == "T" and 0 <= e[1] <= b.R and 0 <= e[2] < b.C) or (e[0] == "L" and 0 <= e[1] < b.R and 0 <= e[2] <= b.C)}
        lo, hi = self.bounds(b)
        if sum(x) != g.full & ~self.hole_mask(b) or inner != set(self.draw(b, x)[3]):
            return False, "sides drawn inside an area"
        if not all(lo <= pop(m) <= (hi or g.n) and (not self.rect or g.is_rect(m)) and self.area(b, g, m) for m in x) or not self.base(b, g, x):
            return False, "general rules"
        for p, v in self.clues(b):
            if not self.clue_ok(b, x, p, v):
                return False, f"clue {p} {v}"
        return self.joint(b, x), "clues together"

    # -- boards
    def places(self, b):
        h = self.hole_mask(b)
        return [p for p in b.cells if not h & G(b.R, b.C).bit(p)]

    def values(self, b, p):
        raise NotImplementedError

    def put(self, b, p, v):
        b.num(*p, v)

    def legal(self, b, lay):
        return True

    def make(self, R, C, lay=(), par=None, holes=()):
        b = self.board(R, C, par)
        for p in holes:
            b.surf(*p, 4)
        for p, v in lay:
            self.put(b, p, v)
        b._c.clear()
        return b

    def exact_value(self, b, g, x, p):
        v = self.number(b, g, x, p)
        return v if v in self.values(b, p) else None

    def layouts_of(self, b, x):
        """Clue sets that hold in x."""
        g = G(b.R, b.C)
        if self.one_clue:
            for j in range(4):
                lay = []
                for i, m in enumerate(x):
                    cs = g.list(m)
                    p = cs[[0, len(cs) - 1, (i + len(cs)) % len(cs), (7 * i + 2) % len(cs)][j]]
                    v = self.exact_value(b, g, x, p)
                    lay.append((p, v if v is not None and not (self.unknown and j == 2 and i % 2) else "?"))
                yield tuple(sorted(lay))
            if len(x) > 1:
                yield tuple(sorted(lay))[:-1]
            return
        full = [(p, v) for p in self.places(b) for v in [self.exact_value(b, g, x, p)] if v is not None]
        yield tuple(full)
        k = len(x)
        yield tuple(full[k % 2::2])
        yield tuple(full[k % 3::3])

    def hole_sets(self, shape, quick):
        if not self.holes_ok:
            return [()]
        cells = [(r, c) for r in range(shape[0]) for c in range(shape[1])]
        out = []
        for k in range(0, min(self.max_holes + (0 if quick else 1), len(cells) - 1) + 1):
            out += [tuple(p for p, _ in s) for s in subsets(cells, lambda p: [1], k, k)]
        return [h for h in out if self.divisible(shape, h)]

    def divisible(self, shape, h):
        return self.lo != self.hi or (shape[0] * shape[1] - len(h)) % self.lo == 0

    empty_ok = False          # a board without clues is a legal request

    def gen(self, shape, kmax, derive, quick):
        def f():
            hs = self.hole_sets(shape, quick)
            for par in self.params:
                for holes in hs:
                    b0 = self.make(*shape, (), par, holes)
                    seen = set()
                    if kmax is not None:
                        for lay in subsets(self.places(b0), lambda p: self.values(b0, p), kmax):
                            if (lay or self.empty_ok) and self.legal(b0, lay):
                                seen.add(json.dumps(lay))
                                yield self.make(*shape, lay, par, holes)
                    if derive:
                        n = max(2, derive // len(hs)) if derive < 10 ** 6 else derive
                        for x in stride(self.static(b0), n):
                            for lay in self.layouts_of(b0, x):
                                key = json.dumps(lay)
                                if (lay or self.empty_ok) and key not in seen and self.legal(b0, lay):
                                    seen.add(key)
                                    yield self.make(*shape, lay, par, holes)
        return f

    def shapes_ok(self, s):
        return True

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for ss, k, n in ((self.tiny, self.ktiny, 10 ** 6), (self.mid, self.kmid, self.nmid), (self.nine, self.knine, self.nnine),
                         (self.big, self.kbig, self.nbig), (self.huge, None, self.nhuge)):
            for s in ss:
                if not self.shapes_ok(s):
                    continue
                kk = k if k is None else k + (1 if th else 0)
                nn = n * 10 if th else n
                out.append((f"{s[0]}x{s[1]}" + (f", all boards with <={kk} clues" if kk is not None else "") + f", clue sets of <={nn} divisions",
                            self.gen(s, kk, nn, not th)))
        return out


# ---- rectangles -----------------------------------------------------------------------------------------------------
class Rect(Div):
    rect = True
    one_clue = True
    huge = ((4, 4), (3, 5))
    nhuge, nnine = 8, 60


class Shikaku(Rect):
    name = "shikaku"

    def number(self, b, g, x, p):
        return pop(area_of(g, x, p))

    def values(self, b, p):
        return list(range(1, b.R * b.C + 1)) + ["?"]


class Nawabari(Rect):
    name = "nawabari"

    def number(self, b, g, x, p):
        return sides(g, x, p)

    def values(self, b, p):
        return [0, 1, 2, 3, 4, "?"]


class Tatamibari(Rect):
    name = "tatamibari"

    def base(self, b, g, x):
        return no_cross(g, x)

    def number(self, b, g, x, p):
        r0, c0, r1, c1 = g.box(area_of(g, x, p))
        h, w = r1 - r0, c1 - c0
        return "+" if h == w else "-" if w > h else "|"

    def clue_ok(self, b, x, p, v):
        return v == "?" or self.number(b, G(b.R, b.C), x, p) == v

    def values(self, b, p):
        return ["+", "-", "|", "?"]


class Usotatami(Rect):
    name = "usotatami"
    huge = ((4, 4), (3, 5))

    def area(self, b, g, m):
        r0, c0, r1, c1 = g.box(m)
        return r0 == r1 or c0 == c1

    def base(self, b, g, x):
        return no_cross(g, x)

    def number(self, b, g, x, p):
        return pop(area_of(g, x, p))

    def clue_ok(self, b, x, p, v):
        return not isinstance(v, int) or self.number(b, G(b.R, b.C), x, p) != v

    def values(self, b, p):
        return list(range(1, max(b.R, b.C) + 1)) + ["?"]

    def exact_value(self, b, g, x, p):
        n = pop(area_of(g, x, p))
        k = 1 + (n + p[0] + 2 * p[1]) % (max(b.R, b.C) + 1)
        return k if k != n else n + 1


class Squarejam(Rect):
    name = "squarejam"
    one_clue = False
    huge = ((4, 4), (3, 5), (5, 5))

    def area(self, b, g, m):
        return g.is_square(m)

    def base(self, b, g, x):
        return no_cross(g, x)

    def number(self, b, g, x, p):
        r0, _, r1, _ = g.box(area_of(g, x, p))
        return r1 - r0 + 1

    def values(self, b, p):
        return list(range(1, min(b.R, b.C) + 1)) + ["?"]


class Yajitatami(Rect):
    name = "yajitatami"
    one_clue = False
    unknown = False
    huge = ((4, 4), (4, 5))

    def area(self, b, g, m):
        r0, c0, r1, c1 = g.box(m)
        return (r0 == r1 or c0 == c1) and pop(m) > 1

    def base(self, b, g, x):
        return no_cross(g, x)

    def walls_ahead(self, g, x, p, d):
        """Borders crossed from p towards d, the border of the grid not counted."""
        run = [p] + g.ray(p, d)
        own = [area_of(g, x, q) for q in run]
        return sum(own[i] != own[i + 1] for i in range(len(own) - 1)), len(own) > 1 and own[0] != own[1]

    def clue_ok(self, b, x, p, v):
        if not isinstance(v, str) or "_" not in v:
            return True
        g = G(b.R, b.C)
        n, d = map(int, v.split("_"))
        k, first = self.walls_ahead(g, x, p, YAJI[d])
        return pop(area_of(g, x, p)) == n and k == n and first

    def values(self, b, p):
        return [f"{n}_{d}" for n in range(1, max(b.R, b.C)) for d in range(4)]

    def put(self, b, p, v):
        b.num(*p, v, sub="2")

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        full = []
        for p in b.cells:
            n = pop(area_of(g, x, p))
            for d in range(4):
                if self.clue_ok(b, x, p, f"{n}_{d}"):
                    full.append((p, f"{n}_{d}"))
        for k in range(3):
            lay = dict(full[k::2])
            yield tuple(sorted(lay.items()))

    def joint(self, b, x):
        es = b._memo("given", lambda: {e for e in b.edges})
        return not es or es <= set(self.draw(b, x)[3])


class Kramma(Div):
    name = "kramma"
    big = ((3, 4), (4, 3), (4, 4))
    huge = ((5, 5),)
    nine = ((3, 3), (2, 4), (4, 2), (1, 6))
    ktiny, kmid, knine, kbig = 4, 3, 3, 2
    nbig = 64
    empty_ok = True

    def divisions(self, b, g):
        out = []
        for hs in range(1 << (b.R - 1)):
            for vs in range(1 << (b.C - 1)):
                d = {}
                for r, c in g.cells:
                    k = (pop(hs & ((1 << r) - 1)), pop(vs & ((1 << c) - 1)))
                    d[k] = d.get(k, 0) | g.bit((r, c))
                out.append(tuple(d.values()))
        return out

    def judge(self, b, s):
        g, x = G(b.R, b.C), self.parse(s)
        full = {a for m in x for cs in [g.list(m)] for a in [(min(r for r, _ in cs), max(r for r, _ in cs), min(c for _, c in cs), max(c for _, c in cs))]
                if pop(m) != (a[1] - a[0] + 1) * (a[3] - a[2] + 1)}
        rows = {(min(r for r, _ in g.list(m)), max(r for r, _ in g.list(m))) for m in x}
        cols = {(min(c for _, c in g.list(m)), max(c for _, c in g.list(m))) for m in x}
        # rectangles, and as many as all pairs of the row bands and column bands that occur: the bands do not overlap
        if full or len(x) != len(rows) * len(cols) or sum(a[1] - a[0] + 1 for a in rows) != b.R or sum(a[1] - a[0] + 1 for a in cols) != b.C:
            return False, "general rules"
        return self.joint(b, x), "clues together"

    def clues(self, b):
        return []

    def joint(self, b, x):
        g = G(b.R, b.C)
        w, k = b._memo("wk", lambda: tuple(g.mask(p[:2] for p, n in b.syms.items() if n == f"circle_M__{i}" and g.inside(*p[:2])) for i in (1, 2)))
        return all(bool(m & w) != bool(m & k) for m in x)

    def values(self, b, p):
        return ["circle_M__1", "circle_M__2"]

    def put(self, b, p, v):
        b.sym(*p, v)

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in range(3):
            lay = []
            for i, m in enumerate(x):
                cs = g.list(m)
                r, c = cs[0]
                col = 1 + (i + (i // 2 if j == 1 else r + c if j == 2 else 0)) % 2
                lay += [(p, f"circle_M__{col}") for p in (cs if j == 0 else cs[j - 1::2] or cs)]
            yield tuple(sorted(lay))


# ---- areas of a fixed size ------------------------------------------------------------------------------------------
class Cells(Div):
    """Areas of equal size; a number counts the sides of its cell that are borders."""

    size = 0
    ktiny, kmid, knine, kbig = 2, 2, 2, 1
    empty_ok = True

    def bounds(self, b):
        return self.size, self.size

    def shapes_ok(self, s):
        return s[0] * s[1] % self.size == 0

    def number(self, b, g, x, p):
        return sides(g, x, p)

    def values(self, b, p):
        return [0, 1, 2, 3, 4, "?"]


class Fourcells(Cells):
    name = "fourcells"
    size = 4
    huge = ((4, 4), (4, 5), (2, 6))


class Fivecells(Cells):
    name = "fivecells"
    size = 5
    tiny = ((1, 5), (5, 1))
    mid = ((2, 5), (5, 2))
    nine = ((3, 5), (5, 3))
    big = ((4, 5),)
    ktiny, kmid, knine, kbig = 1, 1, 1, 0
    nnine, nbig = 20, 20
    huge = ((5, 4), (5, 5))


class Ncells(Cells):
    name = "ncells"
    params = tuple({"region_size": str(k)} for k in (1, 2, 3, 4, 5, 6))
    kmid, knine = 1, 1
    huge = ((4, 4), (2, 5), (5, 3))
    nnine, nbig, nhuge = 40, 20, 12

    def bounds(self, b):
        k = int(b.param["region_size"])
        return k, k

    def shapes_ok(self, s):
        return True

    def make(self, R, C, lay=(), par=None, holes=()):
        return super().make(R, C, lay, par, holes)

    def gen(self, shape, kmax, derive, quick):
        inner = super().gen(shape, kmax, derive, quick)

        def f():
            for b in inner():
                if b.R * b.C % int(b.param["region_size"]) == 0:
                    yield b
        return f


class Ominous(Div):
    """Polyominoes of one size with black cells; a letter names the shape of its area; equal shapes do not touch."""

    size = 0
    holes_ok = True
    empty_ok = True
    ktiny, kmid, knine, kbig = 1, 1, 1, 1

    def bounds(self, b):
        return self.size, self.size

    def divisible(self, shape, h):
        return (shape[0] * shape[1] - len(h)) % self.size == 0

    def base(self, b, g, x):
        return all(congruent_key(g, m) != congruent_key(g, n) for m, n in touching(g, x))

    def clue_ok(self, b, x, p, v):
        g = G(b.R, b.C)
        return omino(g, area_of(g, x, p))[1] == v

    def exact_value(self, b, g, x, p):
        return omino(g, area_of(g, x, p))[1]

    def shapes_ok(self, s):
        return any(self.hole_sets(s, True))


class Tetrominous(Ominous):
    name = "tetrominous"
    size = 4
    tiny = ((1, 4), (4, 1), (2, 2), (1, 5), (5, 1))
    mid = ((2, 3), (3, 2), (2, 4), (4, 2))
    nine = ((3, 3),)
    big = ((3, 4), (4, 3))
    huge = ((4, 4), (4, 5), (3, 5), (5, 5))
    max_holes = 2

    def values(self, b, p):
        return list("TOILS")

    def hole_sets(self, shape, quick):
        hs = super().hole_sets(shape, quick)
        if shape[0] * shape[1] % 4 == 0 and shape[0] * shape[1] > 4:
            cells = [(r, c) for r in range(shape[0]) for c in range(shape[1])]
            R, C = shape
            hs += [((0, 0), (0, 1), (R - 1, C - 1), (R - 1, C - 2)), tuple(cells[:4]), ((1 % R, 0), (0, C - 1), (R - 1, 1), (R - 1, C - 1))]
        hs = [h for h in dict.fromkeys(tuple(sorted(set(h))) for h in hs) if self.divisible(shape, h) and len(h) < shape[0] * shape[1]]
        return stride(hs, 24) if quick else hs


class Pentominous(Ominous):
    name = "pentominous"
    size = 5
    tiny = ((1, 5), (5, 1), (2, 3), (3, 2), (1, 6), (6, 1))
    mid = ((2, 4), (3, 3), (4, 2), (2, 5), (5, 2))
    nine = ((3, 4), (4, 3))
    big = ((3, 5), (5, 3))
    huge = ((4, 5), (5, 4), (4, 4), (5, 5))
    kbig = 0
    max_holes = 3

    def values(self, b, p):
        k = p[0] * 5 + p[1] * 3
        return list("FILNPTUVWXYZ") if b.R * b.C <= 6 else ["FILNPTUVWXYZ"[(k + 4 * i) % 12] for i in range(3)]

    def exact_value(self, b, g, x, p):
        return omino(g, area_of(g, x, p))[1]

    def hole_sets(self, shape, quick):
        hs = super().hole_sets(shape, quick)
        if shape[0] * shape[1] % 5 == 0 and shape[0] * shape[1] > 5:
            R, C = shape
            hs.append(tuple(sorted({(0, 0), (0, 1), (R - 1, C - 1), (R - 1, C - 2), (0, C - 1)})))
            hs = [h for h in hs if self.divisible(shape, h)]
        return stride(hs, 3 if shape[0] * shape[1] <= 6 else 8) if quick else hs


class Heteromino(Ominous):
    name = "heteromino"
    size = 3
    tiny = ((1, 3), (3, 1), (2, 2), (1, 4), (4, 1))
    mid = ((2, 3), (3, 2), (2, 4), (4, 2))
    nine = ((3, 3), (2, 5), (5, 2))
    big = ((3, 4), (4, 3), (4, 4))
    huge = ((4, 5), (3, 5), (5, 5))
    ktiny = kmid = knine = kbig = 0
    max_holes = 3
    nnine = nbig = nmid = nhuge = 0

    def base(self, b, g, x):
        from .grid import canon
        return all(canon(g.list(m)) != canon(g.list(n)) for m, n in touching(g, x))

    def clues(self, b):
        return []

    def values(self, b, p):
        return []

    def spaces(self, tier):
        out = []
        for s in self.tiny + self.mid + self.nine + self.big + self.huge + (((5, 6),) if tier == "thorough" else ()):
            out.append((f"{s[0]}x{s[1]}, boards of black cells", self.boards(s, tier)))
        return out

    def hole_sets(self, shape, quick):
        cells = [(r, c) for r in range(shape[0]) for c in range(shape[1])]
        out = []
        for k in range(0, min(4 if len(cells) <= 9 else 4, len(cells) - 1) + 1):
            if (len(cells) - k) % 3 == 0:
                out += [tuple(p for p, _ in s) for s in subsets(cells, lambda p: [1], k, k)]
        return stride(out, 300 if len(cells) <= 12 else 120) if quick else stride(out, 4000)

    def boards(self, s, tier):
        def f():
            for h in self.hole_sets(s, tier == "quick"):
                yield self.make(*s, (), self.params[0], h)
        return f


class Triplace(Div):
    """Trominoes; a clue counts the straight ones met by the cells after it up to the next clue cell."""

    name = "triplace"
    lo = hi = 3
    empty_ok = True

    def hole_mask(self, b):
        g = G(b.R, b.C)
        return b._memo("hm", lambda: g.mask(p[:2] for p, n in b.syms.items() if n.startswith("kakuro") and g.inside(*p[:2])))

    def clues(self, b):
        return [(p, v) for p, v in b.corner.items() if isinstance(v, int)]

    def run(self, b, p):
        g = G(b.R, b.C)
        return g.mask(g.ray(p[:2], "r" if p[2] == 1 else "d", self.hole_mask(b)))

    def clue_ok(self, b, x, p, v):
        g = G(b.R, b.C)
        run = self.run(b, p)
        return sum(bool(m & run) and omino(g, m)[1] == "I" for m in x) == v

    def make(self, R, C, lay=(), par=None, holes=()):
        b = self.board(R, C, par)
        for p in holes:
            b.sym(*p, "kakuro__3")
        for p, v in lay:
            b.corner_num(*p, v)
        b._c.clear()
        return b

    def slots(self, b0):
        g = G(b0.R, b0.C)
        return [(*p, k) for p in g.list(self.hole_mask(b0)) for k in (1, 2) if self.run(b0, (*p, k))]

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s in ((1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3), (4, 4), (4, 5), (5, 4)) + (((5, 5),) if th else ()):
            n = 10 ** 6 if s[0] * s[1] <= 9 else 40 if s[0] * s[1] <= 12 else 16
            out.append((f"{s[0]}x{s[1]}, clue cells and <={1 + th} clues or the clues of a division", self.boards(s, n * 20 if th else n, 1 + th)))
        return out

    def boards(self, s, n, kmax):
        def f():
            cells = [(r, c) for r in range(s[0]) for c in range(s[1])]
            hs = []
            for k in range(1, min(4, len(cells) - 1) + 1):
                if (len(cells) - k) % 3 == 0:
                    hs += [tuple(p for p, _ in x) for x in subsets(cells, lambda p: [1], k, k)]
            R, C = s
            frame = tuple(sorted({(0, c) for c in range(C)} | {(r, 0) for r in range(R)}))
            if (len(cells) - len(frame)) % 3 == 0 and len(frame) < len(cells):
                hs.append(frame)
            for p in cells:
                if p not in frame and (len(cells) - len(frame) - 1) % 3 == 0 and len(frame) + 1 < len(cells):
                    hs.append(tuple(sorted(frame + (p,))))
            for h in stride(hs, n) + hs[-3:]:
                b0 = self.make(*s, (), None, h)
                sl = self.slots(b0)
                L = self.static(b0)
                if not L:
                    yield b0
                    continue
                for lay in subsets(sl, lambda p: [0, 1, 2] if len(sl) < 6 else [1], kmax):
                    yield self.make(*s, lay, None, h)
                for x in stride(L, 6):
                    full = [(p, v) for p in sl for v in range(6) if self.clue_ok(b0, x, p, v)]
                    yield self.make(*s, full, None, h)
        return f

    def judge(self, b, s):
        return super().judge(b, s)


# ---- areas of any size ----------------------------------------------------------------------------------------------
class Araf(Div):
    name = "araf"
    lo = 2
    unknown = False
    mid = ((2, 3), (3, 2), (1, 6))
    big = ((3, 4), (4, 3))
    ktiny, kmid, knine, kbig = 4, 3, 2, 2
    nnine, nbig = 200, 40

    def clue_ok(self, b, x, p, v):
        return True

    def number(self, b, g, x, p):
        return 0

    def joint(self, b, x):
        g = G(b.R, b.C)
        cl = b._memo("cl", lambda: [(g.bit(p), v) for p, v in self.clues(b) if isinstance(v, int)])
        if 2 * len(x) != len(cl):
            return False
        for m in x:
            vs = [v for k, v in cl if k & m]
            if len(vs) != 2 or not min(vs) < pop(m) < max(vs):
                return False
        return True

    def values(self, b, p):
        n = b.R * b.C
        return list(range(1, n + 2)) if n <= 4 else [1, 2, 3, 5, n, n + 1] if n <= 6 else [1, 4, n + 1]

    def legal(self, b, lay):
        return len(lay) % 2 == 0 or len(lay) == 1

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in range(4):
            lay = []
            for i, m in enumerate(x):
                cs = g.list(m)
                n = len(cs)
                a = [0, n - 1, (i + n) % n, (3 * i + 1) % n][j]
                z = (a + 1 + (i + j) % (n - 1)) % n if n > 1 else a
                lo, hi = [(n - 1, n + 1), (1, n + 1), (n - 1, n + 3), (max(1, n - 2), n + 2)][j]
                if lo < 1:
                    lo = 1
                v = (lo, hi) if (i + j) % 2 else (hi, lo)
                lay += [(cs[a], v[0]), (cs[z], v[1])]
            yield tuple(sorted(lay))


class Compass(Div):
    name = "compass"
    holes_ok = True
    big = ((3, 4), (4, 3))
    nine = ((2, 4), (4, 2), (3, 3))
    kmid, kbig = 1, 0
    nmid, nnine, nbig = 120, 100, 16

    def clues(self, b):
        return [(p, v) for p, v in b.corner.items() if G(b.R, b.C).inside(*p[:2])]

    def clue_ok(self, b, x, p, v):
        return not isinstance(v, int) or self.count(G(b.R, b.C), x, p) == v

    def count(self, g, x, p):
        r, c, k = p
        m = area_of(g, x, (r, c))
        return sum({4: a < r, 7: a > r, 6: e < c, 5: e > c}[k] for a, e in g.list(m))

    def joint(self, b, x):
        m = b._memo("cm", lambda: G(b.R, b.C).mask(p[:2] for p, _ in self.clues(b)))
        return all(pop(a & m) == 1 for a in x)

    def put(self, b, p, v):
        b.corner_num(*p, v)

    def places(self, b):
        h = self.hole_mask(b)
        return [(*p, k) for p in b.cells for k in (4, 5, 6, 7) if not h & G(b.R, b.C).bit(p)]

    def values(self, b, p):
        return [0, 1, 2, "?"] if b.R * b.C <= 3 else [0, 1, 2] if b.R * b.C <= 6 else [2]

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in range(3):
            lay = []
            for i, m in enumerate(x):
                cs = g.list(m)
                n = len(cs)
                p = cs[[n // 2, (i + n) % n, (5 * i + 2) % n][j]]
                for k in (4, 5, 6, 7):
                    if j == 0 or (k + i + j) % (j + 1) == 0:
                        lay.append(((*p, k), self.count(g, x, (*p, k))))
                    elif j == 2:
                        lay.append(((*p, k), " "))
            yield tuple(sorted(lay, key=str))


class Tentaisho(Div):
    name = "tentaisho"
    holes_ok = True
    big = ((3, 4), (4, 3))
    huge = ((4, 4),)
    nmid, nnine, nbig, nhuge = 10 ** 6, 400, 120, 50
    empty_ok = False

    def centre(self, g, m):
        """Doubled coordinates of the centre of a 180-degree symmetric mask, or None."""
        cs = g.list(m)
        n = len(cs)
        y, x = 2 * sum(r for r, _ in cs), 2 * sum(c for _, c in cs)
        if y % n or x % n:
            return None
        y, x = y // n, x // n
        return (y, x) if all((y - r, x - c) in cs for r, c in cs) else None

    def area(self, b, g, m):
        return self.centre(g, m) is not None

    def clues(self, b):
        return []

    def stars(self, b):
        out = set()
        for (r, c, cat), n in b.syms.items():
            y, x = 2 * r + (cat in (1, 2)), 2 * c + (cat in (1, 3))
            if 0 <= y <= 2 * b.R - 2 and 0 <= x <= 2 * b.C - 2:
                out.add((y, x))
        return out

    def joint(self, b, x):
        g = G(b.R, b.C)
        st = b._memo("stars", lambda: self.stars(b))
        return len(st) == len(x) and {self.centre(g, m) for m in x} == st

    def places(self, b):
        return [(y, x) for y in range(2 * b.R - 1) for x in range(2 * b.C - 1)]

    def values(self, b, p):
        return ["circle_SS__1"] if sum(p) % 3 else ["circle_SS__2"]

    def legal(self, b, lay):
        g, h = G(b.R, b.C), self.hole_mask(b)
        for (y, x), _ in lay:   # a star lies in, or between, white cells
            if any(h & g.bit((r, c)) for r in {y // 2, (y + 1) // 2} for c in {x // 2, (x + 1) // 2}):
                return False
        return True

    def put(self, b, p, v):
        y, x = p
        b.sym(y // 2, x // 2, v, cat={(0, 0): 0, (1, 1): 1, (1, 0): 2, (0, 1): 3}[(y % 2, x % 2)])

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        full = tuple(sorted((q, f"circle_SS__{1 + i % 2}") for i, q in enumerate(self.centre(g, m) for m in x)))
        yield full
        if len(full) > 2:
            yield full[1:]


class Voxas(Div):
    name = "voxas"
    lo, hi = 2, 3
    nine = ((2, 4), (4, 2), (3, 3))
    big = ((3, 4), (4, 3), (4, 4))
    huge = ((4, 5), (5, 4))
    ktiny, kmid, knine, kbig = 2, 2, 2, 1
    nbig, nhuge = 60, 40
    empty_ok = True

    def area(self, b, g, m):
        return g.is_rect(m)

    def clues(self, b):
        out = []
        for (r, c, cat), n in b.syms.items():
            s = ("T", r + 1, c) if cat == 2 else ("L", r, c + 1)
            if (s[0] == "T" and 0 < s[1] < b.R) or (s[0] == "L" and 0 < s[2] < b.C):
                out.append((s, n))
        return out

    def clue_ok(self, b, x, p, v):
        g = G(b.R, b.C)
        k, r, c = p
        m, n = area_of(g, x, (r, c)), area_of(g, x, (r - 1, c) if k == "T" else (r, c - 1))
        if m == n:
            return False
        bm, bn = g.box(m), g.box(n)
        same_shape = pop(m) == pop(n)
        same_way = (bm[0] == bm[2]) == (bn[0] == bn[2])
        return {"circle_SS__1": same_shape and same_way, "circle_SS__2": not same_shape and not same_way,
                "circle_SS__5": same_shape != same_way}[v]

    def joint(self, b, x):
        return set(b.edges) <= set(self.draw(b, x)[3])

    def places(self, b):
        return [("T", r, c) for r in range(1, b.R) for c in range(b.C)] + [("L", r, c) for r in range(b.R) for c in range(1, b.C)]

    def values(self, b, p):
        return ["circle_SS__1", "circle_SS__2", "circle_SS__5"]

    def put(self, b, p, v):
        k, r, c = p
        b.wall(k, r, c)
        if k == "T":
            b.sym(r - 1, c, v, cat=2)
        else:
            b.sym(r, c - 1, v, cat=3)

    def layouts_of(self, b, x):
        full = [(p, v) for p in self.places(b) for v in self.values(b, p) if self.clue_ok(b, x, p, v)]
        yield tuple(full)
        yield tuple(full[len(x) % 2::2])
        yield tuple(full[len(x) % 3::3])


class Fillmat(Div):
    name = "fillmat"
    hi = 4
    unknown = True
    huge = ((4, 4),)

    def area(self, b, g, m):
        r0, c0, r1, c1 = g.box(m)
        return g.is_rect(m) and (r0 == r1 or c0 == c1)

    def base(self, b, g, x):
        return no_cross(g, x) and all(pop(m) != pop(n) for m, n in touching(g, x))

    def number(self, b, g, x, p):
        return pop(area_of(g, x, p))

    def values(self, b, p):
        return [1, 2, 3, 4, "?"]


SPECS = [Shikaku, Nawabari, Tatamibari, Usotatami, Squarejam, Yajitatami, Kramma, Fourcells, Fivecells, Ncells, Tetrominous, Pentominous,
         Heteromino, Triplace, Araf, Compass, Tentaisho, Voxas, Fillmat]
