"""Reference rules: shading puzzles without given regions."""

from collections import Counter
from itertools import combinations, product

from .exact import Spec, drawn, subsets
from .grid import G, omino, pop, rectangulations
from .shade import Shade

YAJI = {0: "u", 1: "l", 2: "r", 3: "d"}


def stride(seq, n):
    """At most n members of seq, evenly spaced."""
    if len(seq) <= n:
        return list(seq)
    return [seq[i * len(seq) // n] for i in range(n)]


class ClueShade(Shade):
    """A shading puzzle whose clues sit in cells (or wherever `places` says)."""

    vmin = 0
    unknown = True     # '?' is a legal clue
    tiny = ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2))
    strips = ((1, 5), (5, 1))
    mid = ((2, 3), (3, 2))
    nine = ((3, 3),)
    big = ((3, 4), (4, 3), (2, 5), (5, 2), (4, 4))
    long = ((1, 12), (12, 1), (2, 6), (6, 2))
    ktiny = 2
    kmid = 2
    knine = 1
    kbig = 0
    nderive = 40

    def places(self, b):
        return b.cells

    def vmax(self, b):
        return b.R * b.C

    def values(self, b, p):
        return list(range(self.vmin, self.vmax(b) + 1)) + (["?"] if self.unknown else [])

    def put(self, b, p, v):
        b.num(*p, v)

    def make(self, R, C, layout, param=None):
        b = self.board(R, C, param)
        for p, v in layout:
            self.put(b, p, v)
        return b

    def legal(self, b, layout):
        """Is the layout a board the puzzle allows (at least one clue, say)?"""
        return True

    def clues(self, b):
        return [(p, v) for p, v in b.text.items()]

    def clue_ok(self, b, m, p, v):
        if not self.cell_ok(b, m, p):
            return False
        return not isinstance(v, int) or self.count(b, G(b.R, b.C), m, p) == v

    def cell_ok(self, b, m, p):
        return not m & G(b.R, b.C).bit(p)

    def truth(self, b, x, p):
        """The clue that x would justify at p, or None."""
        for v in self.values(b, p):
            if v != "?" and self.clue_ok(b, x, p, v):
                return v
        return None

    def layouts_of(self, b, x):
        """Clue layouts read off the solution x: all clues, and the clues of either checkerboard colour."""
        full = [(p, self.truth(b, x, p)) for p in self.places(b)]
        full = [(p, v) for p, v in full if v is not None]
        yield full
        for par in (0, 1):
            yield [(p, v) for k, (p, v) in enumerate(full) if (sum(q for q in p if isinstance(q, int)) + (k // 7)) % 2 == par]

    def derived_from(self, b0):
        return self.static(b0)

    def gen(self, shape, kmax, derive=0, kmin=0):
        def f():
            for par in self.params:
                b0 = self.make(*shape, (), par)
                if kmax is not None:
                    for lay in subsets(self.places(b0), lambda p: self.values(b0, p), kmax, kmin):
                        if self.legal(b0, lay):
                            yield self.make(*shape, lay, par)
                if derive:
                    seen = set()
                    for x in stride(self.derived_from(b0), derive):
                        for lay in self.layouts_of(b0, x):
                            key = tuple(lay)
                            if key and key not in seen and self.legal(b0, lay):
                                seen.add(key)
                                yield self.make(*shape, lay, par)
        return f

    def spaces(self, tier):
        th = tier == "thorough"
        out = []
        for s in self.tiny:
            k = 2 if th else self.ktiny
            out.append((f"{s[0]}x{s[1]} all boards with <={k} clues", self.gen(s, k, 30)))
        for s in self.strips:
            out.append((f"{s[0]}x{s[1]} all boards with <={2 if th else 1} clues", self.gen(s, 2 if th else 1, 32)))
        for s in self.mid:
            k = 2 if th else self.kmid - (s[0] > s[1] and self.kmid > 1)
            out.append((f"{s[0]}x{s[1]} all boards with <={k} clues", self.gen(s, k, 64)))
        for s in self.nine:
            k = 2 if th else self.knine
            out.append((f"{s[0]}x{s[1]} all boards with <={k} clues and clue sets of every colouring", self.gen(s, k, 512 if th else 120)))
        for s in self.big:
            k = 1 if th else self.kbig
            n = self.nderive * (10 if th else 1)
            out.append((f"{s[0]}x{s[1]} boards with <={k} clues and clue sets of {n} colourings", self.gen(s, k, n)))
        for s in self.long:
            if s not in self.big:
                n = 8 * (20 if th else 1)
                out.append((f"{s[0]}x{s[1]} no clue and clue sets of {n} colourings", self.gen(s, 0, n)))
        return out


class AreaShade(ClueShade):
    """Puzzles in which every (white) area holds exactly one clue: derived layouts choose a place in each area."""
    vmin = 1

    def areas(self, b, x):
        g = G(b.R, b.C)
        return g.comps(g.full & ~x)

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        ks = self.areas(b, x)
        if not ks:
            return
        for j, hide in ((0, ()), (1, ()), (2, (0,)), (0, tuple(range(0, len(ks), 2)))):
            lay = []
            for i, k in enumerate(ks):
                cs = g.list(k)
                p = cs[0] if j == 0 else cs[-1] if j == 1 else cs[(i + len(cs)) // 2 % len(cs)]
                lay.append((p, "?" if i in hide else pop(k)))
            yield sorted(lay)

    def one_each(self, b, g, m):
        cl = b._memo("clm", lambda: g.mask(p for p in b.text))
        return all(pop(k & cl) == 1 for k in self.areas(b, m))

    def count(self, b, g, m, p):
        return pop(g.comp_of(p, g.full & ~m))

    def joint(self, b, m):
        return self.one_each(b, G(b.R, b.C), m)


def sight(g, p, allowed):
    return sum(len(g.ray(p, d, g.full & ~allowed)) for d in "udlr")


class Aquapelago(ClueShade):
    name = "aquapelago"
    vmin = 1

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m) and g.no2x2(g.full & ~m)

    def cell_ok(self, b, m, p):
        return bool(m & G(b.R, b.C).bit(p))

    def count(self, b, g, m, p):
        return pop(next(k for k in g.comps8(m) if k & g.bit(p)))  # shaded cells never touch orthogonally


class Box(ClueShade):
    name = "box"
    margin = (1, 1, 1, 1)
    weights = ((1, 2, 3, 4, 5, 2, 3, 1, 2, 10, 4, 1), (2, 1, 2, 5, 1, 3, 1, 4, 11, 2, 1, 6))
    which = 0

    def make(self, R, C, layout, param=None, w=0):
        b = self.board(R, C, param)
        for c in range(C):
            b.num(R, c, self.weights[w][c])
        for r in range(R):
            b.num(r, C, self.weights[1 - w][r] if w else self.weights[w][r])
        for p, v in layout:
            self.put(b, p, v)
        return b

    def put(self, b, p, v):
        b.num(*((-1, p[1]) if p[0] == "c" else (p[1], -1)), v)

    def places(self, b):
        return [("c", c) for c in range(b.C)] + [("r", r) for r in range(b.R)]

    def values(self, b, p):
        ws = [b.text[(r, b.C)] for r in range(b.R)] if p[0] == "c" else [b.text[(b.R, c)] for c in range(b.C)]
        return list(range(sum(ws) + 2))

    def clues(self, b):
        return ([(("c", c), v) for (r, c), v in b.text.items() if r == -1] + [(("r", r), v) for (r, c), v in b.text.items() if c == -1])

    def static_key(self, b):
        return (super().static_key(b), tuple(sorted((p, v) for p, v in b.text.items() if p[0] == b.R or p[1] == b.C)))

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        if p[0] == "c":
            return sum(b.text[(r, b.C)] for r in range(b.R) if m & g.bit((r, p[1]))) == v
        return sum(b.text[(b.R, c)] for c in range(b.C) if m & g.bit((p[1], c))) == v

    def gen(self, shape, kmax, derive=0, kmin=0):
        def f():
            for w in (0, 1):
                b0 = self.make(*shape, (), None, w)
                for lay in subsets(self.places(b0), lambda p: self.values(b0, p), kmax, kmin):
                    yield self.make(*shape, lay, None, w)
                for x in stride(self.static(b0), derive):
                    for lay in self.layouts_of(b0, x):
                        yield self.make(*shape, lay, None, w)
        return f

    kmid = 2
    knine = 1
    big = ((3, 4), (4, 3), (2, 5), (5, 2))


class Canal(ClueShade):
    name = "canal"

    def vmax(self, b):
        return b.R + b.C - 1

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m)

    def count(self, b, g, m, p):
        return sight(g, p, m)


class Cave(ClueShade):
    name = "cave"
    params = ({"product": False}, {"product": True})
    vmin = 1

    def base(self, g, m):
        return g.connected(g.full & ~m) and all(k & g.border for k in g.comps(m))

    def vmax(self, b):
        return max(b.R + b.C, b.R * b.C if b.param.get("product") else 0)

    def count(self, b, g, m, p):
        w = g.full & ~m
        n = [len(g.ray(p, d, m)) for d in "udlr"]
        return (n[0] + n[1] + 1) * (n[2] + n[3] + 1) if b.param["product"] else sum(n) + 1


class CBanana(ClueShade):
    name = "cbanana"
    vmin = 1

    def base(self, g, m):
        return all(g.is_rect(k) for k in g.comps(m)) and not any(g.is_rect(k) for k in g.comps(g.full & ~m))

    def cell_ok(self, b, m, p):
        return True

    def count(self, b, g, m, p):
        return pop(g.comp_of(p, m if m & g.bit(p) else g.full & ~m))


class CircleSquare(ClueShade):
    name = "circlesquare"

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m) and all(g.is_square(k) for k in g.comps(g.full & ~m))

    def values(self, b, p):
        return ["circle_M__1", "circle_M__2"]

    def put(self, b, p, v):
        b.sym(*p, v)

    def clues(self, b):
        return [(p[:2], v) for p, v in b.syms.items()]

    def clue_ok(self, b, m, p, v):
        return bool(m & G(b.R, b.C).bit(p)) == (v == "circle_M__2")


class Context(ClueShade):
    name = "context"
    unknown = False

    def vmax(self, b):
        return 4

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m)

    def cell_ok(self, b, m, p):
        return True

    def count(self, b, g, m, p):
        i = g.i(p)
        return pop(m & (g.nb8[i] & ~g.nb[i] if m & g.bit(p) else g.nb[i]))


def run_lengths(g, m, p):
    return [len(k) for k in (g.runs(c=p[1], m=m) if p[0] == "c" else g.runs(r=p[1], m=m))]


class Outside(ClueShade):
    """Lists of run lengths outside the grid; a clue is one whole list."""
    clue_ok = None

    @staticmethod
    def margin(R, C):
        return ((R + 1) // 2, 0, (C + 1) // 2, 0)

    def places(self, b):
        return [("c", c) for c in range(b.C)] + [("r", r) for r in range(b.R)]

    def put(self, b, p, v):
        for k, x in enumerate(v):
            b.num(*((k - len(v), p[1]) if p[0] == "c" else (p[1], k - len(v))), x)

    def clues(self, b):
        out = {}
        for (r, c), v in sorted(b.text.items()):
            out.setdefault(("c", c) if r < 0 else ("r", r), []).append(v)
        return list(out.items())

    def judge(self, b, s):
        return super().judge(b, s)


def compositions(n, hi):
    """All lists of run lengths fitting in a line of n cells."""
    out = []

    def rec(acc, left):
        if acc:
            out.append(tuple(acc))
        for k in range(1, min(left, hi) + 1):
            rec(acc + [k], left - k - 1)
    rec([], n)
    return sorted(set(out))


class Coral(Outside):
    name = "coral"

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m) and all(k & g.border for k in g.comps(g.full & ~m))

    def values(self, b, p):
        return compositions(b.R if p[0] == "c" else b.C, 9)

    def clue_ok(self, b, m, p, v):
        return Counter(run_lengths(G(b.R, b.C), m, p)) == Counter(v)

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        full = [(p, tuple(sorted(run_lengths(g, x, p), reverse=bool(p[1] % 2)))) for p in self.places(b)]
        full = [(p, v) for p, v in full if v]
        yield full
        yield [z for z in full if z[0][0] == "c"]
        yield [z for z in full if z[0][0] == "r"]


class Nonogram(Outside):
    name = "nonogram"

    def values(self, b, p):
        n = b.R if p[0] == "c" else b.C
        out = [(0,)] + compositions(n, 9)
        out += [("?",) * k for k in range(1, (n + 1) // 2 + 1)]
        if n >= 3:
            out += [(1, "?"), ("?", 1)]
        if n >= 4:
            out += [(2, "?"), ("?", 2)]
        return out

    def clue_ok(self, b, m, p, v):
        ks = run_lengths(G(b.R, b.C), m, p)
        if list(v) == [0]:
            return not ks
        return len(ks) == len(v) and all(a == "?" or a == k for a, k in zip(v, ks))

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        full = [(p, tuple(run_lengths(g, x, p)) or (0,)) for p in self.places(b)]
        yield full
        yield [z for z in full if z[0][0] == "c"]
        yield [(p, tuple("?" if (i + p[1]) % 2 and k else k for i, k in enumerate(v))) for p, v in full]
        yield [(p, v) for i, (p, v) in enumerate(full) if i % 3 != 1]

    def universe(self, b):
        return list(range(1 << (b.R * b.C)))

    def spaces(self, tier):
        # every line carries a clue (0 where nothing is shaded): what a blank line means is not settled
        th = tier == "thorough"
        out = []

        def full(s):
            def f():
                b0 = self.make(*s, ())
                for vs in product(*[self.values(b0, p) for p in self.places(b0)]):
                    yield self.make(*s, list(zip(self.places(b0), vs)))
            return f
        for s in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)) + (((2, 3), (3, 2)) if th else ()):
            out.append((f"{s[0]}x{s[1]} every clue on every line", full(s)))

        def derived(s, n):
            def f():
                g = G(*s)
                b0 = self.make(*s, ())
                for k, x in enumerate(stride(range(1 << g.n), n)):
                    exact = [(p, tuple(run_lengths(g, x, p)) or (0,)) for p in self.places(b0)]
                    for j in range(3):
                        lay = [(p, v if (i + j) % 3 or v == (0,) else ("?",) * len(v)) for i, (p, v) in enumerate(exact)] if j else exact
                        if j == 2:
                            lay = [(p, tuple("?" if (q + i) % 2 and a else a for q, a in enumerate(v))) for i, (p, v) in enumerate(lay)]
                        yield self.make(*s, lay)
                    i = k % len(exact)  # one line gets the list of the next one of its kind
                    ps = [q for q in range(len(exact)) if exact[q][0][0] == exact[i][0][0]]
                    o = exact[ps[(ps.index(i) + 1) % len(ps)]][1]
                    yield self.make(*s, [(p, o if q == i else v) for q, (p, v) in enumerate(exact)])
            return f
        for s, n in (((2, 3), 64), ((3, 2), 64), ((3, 3), 512), ((3, 4), 200), ((4, 3), 200), ((2, 6), 100), ((6, 2), 100), ((1, 8), 256), ((8, 1), 256), ((4, 4), 30)):
            n *= 8 if th else 1
            out.append((f"{s[0]}x{s[1]} clue sets of {min(n, 1 << s[0] * s[1])} pictures, exact, with unknown numbers and with one wrong line", derived(s, n)))
        return out


class Creek(ClueShade):
    name = "creek"

    def base(self, g, m):
        return g.connected(g.full & ~m)

    def vmax(self, b):
        return 4

    def places(self, b):
        return [(r, c) for r in range(b.R + 1) for c in range(b.C + 1)]

    def put(self, b, p, v):
        b.num(p[0] - 1, p[1] - 1, v, cat=1)

    def clues(self, b):
        return [((r + 1, c + 1), v) for (r, c, cat), v in b.text_at.items() if v != "?"]

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        r, c = p
        return sum(1 for q in ((r - 1, c - 1), (r - 1, c), (r, c - 1), (r, c)) if g.inside(*q) and m & g.bit(q)) == v


class Dominion(ClueShade):
    name = "dominion"

    def base(self, g, m):
        return all(pop(k) == 2 for k in g.comps(m))

    def values(self, b, p):
        return ["A", "B", "C"]

    def clue_ok(self, b, m, p, v):
        return self.cell_ok(b, m, p)

    def joint(self, b, m):
        g = G(b.R, b.C)
        where = {}
        for k in g.comps(g.full & ~m):
            ls = {v for p, v in b.text.items() if k & g.bit(p)}
            if len(ls - {"?"}) != 1:
                if ls == {"?"}:
                    continue  # an area with unknown letters only: not decided here
                return False
            v = (ls - {"?"}).pop()
            if v in where:
                return False
            where[v] = k
        return True

    def legal(self, b, lay):
        vs = [v for _, v in lay]
        return all(ord(v) - 65 <= len(set(vs[:i])) for i, v in enumerate(vs))  # letters up to renaming

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        ks = g.comps(g.full & ~x)
        for j in (0, 1, 2):
            lay = []
            for i, k in enumerate(ks):
                cs = g.list(k)
                v = chr(65 + i)  # areas come in the order of their first cells
                if j == 2:
                    lay += [(p, v) for p in cs]
                else:
                    lay += sorted({(cs[0], v), (cs[-1], v)} if j == 1 else {(cs[len(cs) // 2], v)})
            yield lay

    kmid = 3
    knine = 2
    big = ((3, 4), (4, 3), (2, 5), (5, 2), (4, 4))


class Fillpix(ClueShade):
    name = "fillpix"

    def vmax(self, b):
        return 9

    def cell_ok(self, b, m, p):
        return True

    def count(self, b, g, m, p):
        return pop(m & (g.nb8[g.i(p)] | g.bit(p)))

    big = ((3, 4), (4, 3), (2, 5), (5, 2))


class Hitori(ClueShade):
    name = "hitori"
    unknown = False

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m)

    def clues(self, b):
        return []

    def joint(self, b, m):
        g = G(b.R, b.C)
        seen = set()
        for (r, c), v in b.text.items():
            if isinstance(v, int) and not m & g.bit((r, c)):
                for k in (("r", r, v), ("c", c, v)):
                    if k in seen:
                        return False
                    seen.add(k)
        return True

    def spaces(self, tier):
        th = tier == "thorough"
        out = []

        def latin(s, vals):
            def f():
                cells = [(r, c) for r in range(s[0]) for c in range(s[1])]
                for vs in product(vals, repeat=len(cells)):
                    used = [v for v in vs if v is not None]
                    if all(v <= len(set(used[:i])) + 1 for i, v in enumerate(used)):  # up to renaming
                        yield self.make(*s, [(p, v) for p, v in zip(cells, vs) if v is not None])
            return f
        for s in ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2)):
            out.append((f"{s[0]}x{s[1]} all boards over two numbers or none", latin(s, (None, 1, 2))))
        for s in ((2, 2), (2, 3), (1, 5)):
            out.append((f"{s[0]}x{s[1]} all boards over three numbers", latin(s, (1, 2, 3))))
        out.append(("3x3 all boards over two numbers", latin((3, 3), (1, 2))))
        if th:
            out.append(("3x3 all boards over three numbers", latin((3, 3), (1, 2, 3))))

        def derived(s, n):
            def f():
                g = G(*s)
                b0 = self.make(*s, ())
                for k, m in enumerate(stride(self.static(b0), n)):
                    lay = []
                    for r, c in g.cells:
                        if m & g.bit((r, c)):
                            r2, c2 = ((r + 1) % s[0], c) if k % 2 else (r, (c + 1) % s[1])  # repeat a neighbour's number
                            lay.append(((r, c), (r2 + c2 * (1 + k % 3 // 2)) % max(s) + 1))
                        else:
                            lay.append(((r, c), (r + c * (1 + k % 3 // 2)) % max(s) + 1))
                    yield self.make(*s, lay)
            return f
        for s in ((3, 3), (3, 4), (4, 3), (4, 4)):
            out.append((f"{s[0]}x{s[1]} cyclic squares disturbed at the shaded cells of legal colourings", derived(s, 600 if th else 80)))
        return out


class Kurochute(ClueShade):
    name = "kurochute"
    vmin = 1

    def vmax(self, b):
        return max(b.R, b.C)

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m)

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        r, c = p
        if m & g.bit(p):
            return False
        return v == "?" or sum(1 for q in ((r + v, c), (r - v, c), (r, c + v), (r, c - v)) if g.inside(*q) and m & g.bit(q)) == 1


class Kurodoko(ClueShade):
    name = "kurodoko"
    vmin = 1

    def vmax(self, b):
        return b.R + b.C

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m)

    def count(self, b, g, m, p):
        return sight(g, p, g.full & ~m) + 1


def reached(g, m, p):
    return pop(g.flood(g.nb[g.i(p)] & m, m))


class Kurotto(ClueShade):
    name = "kurotto"

    def count(self, b, g, m, p):
        return reached(g, m, p)

    big = ((3, 4), (4, 3), (2, 5), (5, 2), (3, 3))
    nderive = 80


class Lightshadow(ClueShade):
    name = "lightshadow"
    vmin = 1

    def values(self, b, p):
        return [(col, v) for col in "bw" for v in list(range(1, b.R * b.C + 1)) + ["?"]]

    def put(self, b, p, v):
        b.num(*p, v[1])
        if v[0] == "b":
            b.surf(*p, 4)

    def clues(self, b):
        return [(p, ("b" if b.surfs.get(p) == "black" else "w", v)) for p, v in b.text.items()]

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        if bool(m & g.bit(p)) != (v[0] == "b"):
            return False
        return v[1] == "?" or pop(g.comp_of(p, m if v[0] == "b" else g.full & ~m)) == v[1]

    def joint(self, b, m):
        g = G(b.R, b.C)
        cl = b._memo("clm", lambda: g.mask(b.text))
        return all(pop(k & cl) == 1 for k in g.comps(m) + g.comps(g.full & ~m))

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in (0, 1, 2):
            lay = []
            for col, s in (("b", x), ("w", g.full & ~x)):
                for i, k in enumerate(g.comps(s)):
                    cs = g.list(k)
                    lay.append(((cs[0], cs[-1], cs[len(cs) // 2])[j], (col, "?" if j == 2 and i % 2 else pop(k))))
            yield sorted(lay, key=str)

    kmid = 1
    nderive = 40
    split = {"4x4 boards with <=0 clues and clue sets of 40 colourings": 2}


class Lookair(ClueShade):
    name = "lookair"

    def vmax(self, b):
        return 5

    def base(self, g, m):
        ks = g.comps(m)
        if not all(g.is_square(k) for k in ks):
            return False
        for a, b in combinations(ks, 2):
            if pop(a) == pop(b):
                for p in g.list(a):
                    for d in "udlr":
                        ray = g.ray(p, d, m)
                        r, c = (ray[-1] if ray else p)
                        dr, dc = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}[d]
                        if g.inside(r + dr, c + dc) and b & g.bit((r + dr, c + dc)):
                            return False
        return True

    def cell_ok(self, b, m, p):
        return True

    def count(self, b, g, m, p):
        return pop(m & (g.nb[g.i(p)] | g.bit(p)))


class Mochikoro(ClueShade):
    name = "mochikoro"
    vmin = 1

    def legal(self, b, lay):
        return len(lay) > 0

    def base(self, g, m):
        w = g.full & ~m
        return g.connected8(w) and g.no2x2(m) and all(g.is_rect(k) for k in g.comps(w))

    def count(self, b, g, m, p):
        return pop(g.comp_of(p, g.full & ~m))

    def joint(self, b, m):
        g = G(b.R, b.C)
        cl = b._memo("clm", lambda: g.mask(b.text))
        return all(pop(k & cl) <= 1 for k in g.comps(g.full & ~m))

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        ks = g.comps(g.full & ~x)
        for j in (0, 1, 2):
            yield sorted(((g.list(k)[0 if j else -1]), "?" if j == 2 and i % 2 else pop(k)) for i, k in enumerate(ks) if j != 1 or i % 2 == 0)


class Mochinyoro(Mochikoro):
    name = "mochinyoro"

    def base(self, g, m):
        return super().base(g, m) and not any(g.is_rect(k) for k in g.comps(m))


class Norinuri(AreaShade):
    name = "norinuri"

    def base(self, g, m):
        return all(pop(k) == 2 for k in g.comps(m))


class Nothree(ClueShade):
    name = "nothree"

    def base(self, g, m):
        if not g.noadj(m) or not g.connected(g.full & ~m):
            return False
        for r in range(g.R):
            cs = [c for c in range(g.C) if m & g.bit((r, c))]
            if any(cs[i] - cs[i - 1] == cs[i - 1] - cs[i - 2] for i in range(2, len(cs))):
                return False
        for c in range(g.C):
            rs = [r for r in range(g.R) if m & g.bit((r, c))]
            if any(rs[i] - rs[i - 1] == rs[i - 1] - rs[i - 2] for i in range(2, len(rs))):
                return False
        return True

    def places(self, b):
        return [(r, c, 0) for r, c in b.cells] + [(r, c, 1) for r in range(b.R - 1) for c in range(b.C - 1)] + \
            [(r, c, 2) for r in range(b.R - 1) for c in range(b.C)] + [(r, c, 3) for r in range(b.R) for c in range(b.C - 1)]

    def values(self, b, p):
        return ["circle_SS__1"]

    def put(self, b, p, v):
        b.sym(p[0], p[1], v, cat=p[2])

    def clues(self, b):
        return list(b.syms.items())

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        r, c, cat = p
        qs = {0: [(r, c)], 1: [(r, c), (r + 1, c), (r, c + 1), (r + 1, c + 1)], 2: [(r, c), (r + 1, c)], 3: [(r, c), (r, c + 1)]}[cat]
        return pop(m & g.mask(qs)) == 1

    kmid = 3
    knine = 2
    kbig = 1
    strips = ((1, 5), (5, 1), (1, 7), (7, 1))
    big = ((3, 4), (4, 3), (2, 5), (5, 2), (2, 7), (7, 2), (4, 4))


class Nuribou(AreaShade):
    name = "nuribou"

    def base(self, g, m):
        ks = g.comps(m)
        for k in ks:
            r0, c0, r1, c1 = g.box(k)
            if (r0 != r1 and c0 != c1):
                return False
        for a, b in combinations(ks, 2):
            if pop(a) == pop(b) and g.expand8(a) & b:
                return False
        return True


class Nurikabe(AreaShade):
    name = "nurikabe"

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m)


class Nurimisaki(ClueShade):
    name = "nurimisaki"
    vmin = 2

    def vmax(self, b):
        return max(b.R, b.C) + 1

    def base(self, g, m):
        w = g.full & ~m
        return m and g.connected(w) and g.no2x2(m) and g.no2x2(w)

    def ends(self, b, g, m):
        w = g.full & ~m
        return g.mask(p for p in g.list(w) if pop(w & g.nb[g.i(p)]) == 1)

    def cell_ok(self, b, m, p):
        g = G(b.R, b.C)
        return bool(self.ends(b, g, m) & g.bit(p))

    def count(self, b, g, m, p):
        return sight(g, p, g.full & ~m) + 1

    def joint(self, b, m):
        g = G(b.R, b.C)
        return self.ends(b, g, m) == b._memo("clm", lambda: g.mask(b.text))

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        es = g.list(self.ends(b, g, x))
        yield [(p, self.count(b, g, x, p)) for p in es]
        yield [(p, "?") for p in es]
        yield [(p, "?" if i % 2 else self.count(b, g, x, p)) for i, p in enumerate(es)]


class Nuriuzu(ClueShade):
    name = "nuriuzu"

    def base(self, g, m):
        return g.no2x2(m) and g.no2x2(g.full & ~m)

    def legal(self, b, lay):
        return len(lay) > 0

    def places(self, b):
        return [(r, c, 0) for r, c in b.cells] + [(r, c, 2) for r in range(b.R - 1) for c in range(b.C)] + \
            [(r, c, 3) for r in range(b.R) for c in range(b.C - 1)]

    def values(self, b, p):
        return ["circle_SS__1"]

    def put(self, b, p, v):
        b.sym(p[0], p[1], v, cat=p[2])

    def clues(self, b):
        return list(b.syms.items())

    def covered(self, p):
        r, c, cat = p
        return {0: [(r, c)], 2: [(r, c), (r + 1, c)], 3: [(r, c), (r, c + 1)]}[cat]

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        w = g.full & ~m
        if any(not w & g.bit(q) for q in self.covered(p)):
            return False
        k = g.comp_of(self.covered(p)[0], w)
        sr, sc = 2 * p[0] + (p[2] == 2), 2 * p[1] + (p[2] == 3)
        return all(g.inside(sr - r, sc - c) and k & g.bit((sr - r, sc - c)) for r, c in g.list(k))

    def joint(self, b, m):
        g = G(b.R, b.C)
        n = Counter()
        for p in b.syms:
            n[g.comp_of(self.covered(p)[0], g.full & ~m)] += 1
        return all(n[k] == 1 for k in g.comps(g.full & ~m))

    def derived_from(self, b0):
        """Colourings whose unshaded areas are all symmetric about a cell or a side."""
        g = G(b0.R, b0.C)
        return [m for m in self.static(b0) if m != g.full and all(self.centre(g, m, k) for k in g.comps(g.full & ~m))]

    def centre(self, g, m, k):
        cs = g.list(k)
        sr, sc = min(r for r, _ in cs) + max(r for r, _ in cs), min(c for _, c in cs) + max(c for _, c in cs)
        if sr % 2 and sc % 2:
            return None
        p = (sr // 2, sc // 2, 2 if sr % 2 else 3 if sc % 2 else 0)
        if all((sr - r, sc - c) in cs for r, c in cs) and all(q in cs for q in self.covered(p)):
            return p
        return None

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        lay = [(self.centre(g, x, k), "circle_SS__1") for k in g.comps(g.full & ~x)]
        yield sorted(lay)
        if len(lay) > 1:
            yield sorted(lay)[1:]

    kmid = 3
    knine = 2
    nderive = 80


class Patchwork(Spec):
    name = "patchwork"

    def static_key(self, b):
        return (super().static_key(b), tuple(sorted(p for p, v in b.surfs.items() if v == "gray")))

    def universe(self, b):
        g = G(b.R, b.C)
        gray = g.mask(p for p, v in b.surfs.items() if v == "gray")
        out = []
        for part in rectangulations(b.R, b.C):
            if not all(g.is_square(k) for k in part):
                continue
            rid = {p: i for i, k in enumerate(part) for p in g.list(k)}
            cross = [(p, q) for p in g.cells for q in ((p[0] + 1, p[1]), (p[0], p[1] + 1)) if q in rid and rid[p] != rid[q]]
            free = g.list(g.full & ~gray)
            col = {}

            nb = {p: [q for a, q in cross if a == p] + [a for a, q in cross if q == p] for p in g.cells}

            def rec(i):
                if i == len(free):
                    out.append((part, g.mask(p for p in free if col[p])))
                    return
                p = free[i]
                for v in (0, 1):
                    if all(col.get(q) != v for q in nb[p]):
                        col[p] = v
                        rec(i + 1)
                        del col[p]
            rec(0)
        return out

    def clues(self, b):
        out = [(p, v) for p, v in b.text.items() if isinstance(v, int)]
        out += [(p, v) for p, v in b.surfs.items() if v in ("black", "green")]
        return out

    def clue_ok(self, b, x, p, v):
        g = G(b.R, b.C)
        if isinstance(v, int):
            return pop(next(k for k in x[0] if k & g.bit(p)) & x[1]) == v
        return bool(x[1] & g.bit(p)) == (v == "black")

    def draw(self, b, x):
        g = G(b.R, b.C)
        return drawn(shade=g.list(x[1]), edge=part_edges(g, x[0]))

    def parse(self, s):
        return None

    def judge(self, b, s):
        g = G(b.R, b.C)
        part = [g.mask(r) for r in s.rooms]
        black = g.mask(p for p, v in s.surfs.items() if v == "black" or (v == "gray" and b.surfs.get(p) != "gray"))
        gray = g.mask(p for p, v in b.surfs.items() if v == "gray")
        rid = s.room_id
        if not all(g.is_square(k) for k in part):
            return False, "squares"
        for p in g.cells:
            for q in ((p[0] + 1, p[1]), (p[0], p[1] + 1)):
                if q in rid and rid[q] != rid[p] and not gray & (g.bit(p) | g.bit(q)) and bool(black & g.bit(p)) == bool(black & g.bit(q)):
                    return False, "colours"
        return all(self.clue_ok(b, (part, black), p, v) for p, v in self.clues(b)), "clues"

    def spaces(self, tier):
        th = tier == "thorough"
        out = []

        def gen(s, kmax, kgray):
            def f():
                cells = [(r, c) for r in range(s[0]) for c in range(s[1])]
                for k in range(kgray + 1):
                    for gs in combinations(cells, k):
                        for lay in subsets(cells, lambda p: list(range(0, min(s) ** 2 + 1)) + ["?"], kmax):
                            b = self.board(*s)
                            for p in gs:
                                b.surf(*p, 1)
                            for p, v in lay:
                                b.num(*p, v)
                            yield b
            return f
        for s in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
            out.append((f"{s[0]}x{s[1]} <=1 gray cell, <={2 if th else 1} clues", gen(s, 2 if th else 1, 1)))
        out.append((f"2x2 <={4 if th else 2} gray cells, <=2 clues", gen((2, 2), 2, 4 if th else 2)))
        for s in ((3, 3),):
            out.append((f"{s[0]}x{s[1]} <={1 if th else 0} gray cells, <=1 clue", gen(s, 1, 1 if th else 0)))

        def derived(s, n, grays):
            def f():
                for gs in grays:
                    b0 = self.board(*s)
                    for p in gs:
                        b0.surf(*p, 1)
                    g = G(*s)
                    for part, m in stride(self.static(b0), n):
                        for j in (0, -1):
                            b = b0.copy()
                            for k in part:
                                if pop(k) > 1 or j:
                                    b.num(*g.list(k)[j], pop(k & m))
                            yield b
                        b = b0.copy()
                        for i, p in enumerate(g.cells):
                            if p not in gs and i % 3 == 1:
                                b.surf(*p, 4 if m & g.bit(p) else 2)
                        yield b
            return f
        for s in ((3, 3), (3, 4), (4, 3)):
            gr = [(), ((0, 0), (1, 1)), ((1, 1), (1, 2)), ((0, 1), (2, 0), (2, 2))]
            out.append((f"{s[0]}x{s[1]} clue sets of legal answers, four gray patterns", derived(s, 200 if th else 15, gr)))
        return out


def part_edges(g, part):
    """Every side between two areas and the outer border."""
    rid = {p: i for i, k in enumerate(part) for p in g.list(k)}
    out = set()
    for r in range(g.R + 1):
        for c in range(g.C):
            if rid.get((r, c)) != rid.get((r - 1, c)):
                out.add(("T", r, c))
    for r in range(g.R):
        for c in range(g.C + 1):
            if rid.get((r, c)) != rid.get((r, c - 1)):
                out.add(("L", r, c))
    return out


class Snake(ClueShade):
    name = "snake"
    margin = (1, 0, 1, 0)

    def base(self, g, m):
        if pop(m) < 2 or not g.connected(m):
            return False
        ds = [pop(m & g.nb[g.i(p)]) for p in g.list(m)]
        if sorted(ds)[:2] != [1, 1] or any(d != 2 for d in sorted(ds)[2:]):
            return False
        for r in range(g.R - 1):
            for c in range(g.C - 1):
                q = [bool(m & g.bit(x)) for x in ((r, c), (r, c + 1), (r + 1, c), (r + 1, c + 1))]
                if q[0] == q[3] and q[1] == q[2] and q[0] != q[1]:
                    return False
        return True

    def places(self, b):
        return [("c", c) for c in range(b.C)] + [("r", r) for r in range(b.R)] + b.cells

    def values(self, b, p):
        if p[0] == "c":
            return list(range(b.R + 1)) + ["?"]
        if p[0] == "r":
            return list(range(b.C + 1)) + ["?"]
        return ["circle_L__1", "circle_L__2"]

    def put(self, b, p, v):
        if p[0] in ("c", "r"):
            b.num(*((-1, p[1]) if p[0] == "c" else (p[1], -1)), v)
        else:
            b.sym(*p, v)

    def clues(self, b):
        return ([(("c", c) if r == -1 else ("r", r), v) for (r, c), v in b.text.items() if isinstance(v, int)] +
                [(p[:2], v) for p, v in b.syms.items()])

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        if p[0] in ("c", "r"):
            return v == "?" or pop(m & (g.col if p[0] == "c" else g.row)[p[1]]) == v
        return bool(m & g.bit(p)) and (pop(m & g.nb[g.i(p)]) == 1) == (v == "circle_L__2")


class Tapa(ClueShade):
    name = "tapa"
    ktiny = 1

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m)

    ALPHA = sorted({tuple(sorted(x)) for x in ([(k,) for k in range(9)] + [(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 2), (2, 3), (2, 4), (3, 3),
                   (1, 1, 1), (1, 1, 2), (1, 1, 3), (1, 2, 2), (1, 1, 1, 1)])}) + [("?",), ("?", "?"), (1, "?"), (2, "?"), (3, "?"),
                   ("?", "?", "?"), (1, 1, "?"), (2, "?", "?"), ("?",) * 4, (1, 1, 1, "?")]

    def values(self, b, p):
        return self.ALPHA

    def put(self, b, p, v):
        b.num(*p, "".join(map(str, v)), sub="4")

    def clues(self, b):
        return [(p, tuple(v)) for p, v in b.tapa.items()]

    def around(self, g, m, p):
        r, c = p
        ring = [(0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1)]
        on = [g.inside(r + a, c + e) and bool(m & g.bit((r + a, c + e))) for a, e in ring]
        if all(on):
            return [8]
        if not any(on):
            return [0]
        k = on.index(False)
        txt = "".join("1" if x else "0" for x in on[k:] + on[:k])
        return sorted(len(t) for t in txt.split("0") if t)

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        if m & g.bit(p):
            return False
        got = self.around(g, m, p)
        need = Counter(x for x in v if x != "?")
        return len(got) == len(v) and not need - Counter(got)

    def truth(self, b, x, p):
        g = G(b.R, b.C)
        return None if x & g.bit(p) else tuple(self.around(g, x, p))

    kmid = 1


class Tasquare(ClueShade):
    name = "tasquare"

    def base(self, g, m):
        return g.connected(g.full & ~m) and all(g.is_square(k) for k in g.comps(m))

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        if m & g.bit(p):
            return False
        n = reached(g, m, p)
        return n == v if isinstance(v, int) else n > 0


class Arrow(ClueShade):
    def values(self, b, p):
        r, c = p
        room = {0: r, 1: c, 2: b.C - 1 - c, 3: b.R - 1 - r}
        return [f"{n}_{d}" for d in range(4) for n in range(0, room[d] + 2 - (room[d] > 1))]

    def arrow(self, g, m, p, v):
        n, d = map(int, v.split("_"))
        return pop(m & g.mask(g.ray(p, YAJI[d]))) == n

    def put(self, b, p, v):
        b.num(*p, v, sub="2")

    def layouts_of(self, b, x):
        g = G(b.R, b.C)
        for j in range(3):
            lay = []
            for i, p in enumerate(b.cells):
                if x & g.bit(p) and not self.on_shaded:
                    continue
                d = (i + j) % 4
                n = pop(x & g.mask(g.ray(p, YAJI[d])))
                if x & g.bit(p):
                    n = max(0, n - 1) if i % 2 else n + 1
                if j == 0 or (i + j) % 3:
                    lay.append((p, f"{n}_{d}"))
            yield lay


class Tetrochain(Arrow):
    name = "tetrochain"
    on_shaded = False

    def base(self, g, m):
        ks = g.comps(m)
        if any(pop(k) != 4 for k in ks) or not g.connected8(m):
            return False
        return all(not g.expand8(a) & b or omino(g, a) != omino(g, b) for a, b in combinations(ks, 2))

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        return not m & g.bit(p) and self.arrow(g, m, p, v)

    tiny = ((1, 1),)
    strips = ((1, 5), (2, 3))
    mid = ()
    knine = 1
    big = ((4, 2), (2, 4), (5, 1), (3, 4), (4, 3), (2, 6), (6, 2), (3, 5), (5, 3), (4, 4))
    nderive = 12


class Yajikazu(Arrow):
    name = "yajikazu"
    on_shaded = True

    def base(self, g, m):
        return m and g.noadj(m) and g.connected(g.full & ~m)

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        return bool(m & g.bit(p)) or self.arrow(g, m, p, v)

    kmid = 2


class Yinyang(ClueShade):
    name = "yinyang"

    def base(self, g, m):
        w = g.full & ~m
        return g.connected(m) and g.connected(w) and g.no2x2(m) and g.no2x2(w)

    def values(self, b, p):
        return ["circle_M__1", "circle_M__2"]

    def put(self, b, p, v):
        b.sym(*p, v)

    def clues(self, b):
        return [(p[:2], v) for p, v in b.syms.items()]

    def clue_ok(self, b, m, p, v):
        return bool(m & G(b.R, b.C).bit(p)) == (v == "circle_M__1")

    def draw(self, b, m):
        g = G(b.R, b.C)
        return drawn(sym={p: "circle_M__1" if m & g.bit(p) else "circle_M__2" for p in g.cells})

    def parse(self, s):
        return G(s.R, s.C).mask(p[:2] for p, v in s.syms.items() if v == "circle_M__1")

    knine = 2
    kbig = 1
    big = ((1, 7), (7, 1), (3, 4), (4, 3), (2, 5), (5, 2), (4, 4))


SPECS = [Aquapelago, Box, Canal, Cave, CBanana, CircleSquare, Context, Coral, Creek, Dominion, Fillpix, Hitori, Kurochute, Kurodoko, Kurotto,
         Lightshadow, Lookair, Mochikoro, Mochinyoro, Nonogram, Norinuri, Nothree, Nuribou, Nurikabe, Nurimisaki, Nuriuzu, Patchwork, Snake,
         Tapa, Tasquare, Tetrochain, Yajikazu, Yinyang]
