"""Candidate universes on small grids.  Sets of cells are bit masks (bit r * C + c); nothing here imports noqx."""

from functools import lru_cache
from itertools import product

DIRS = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}
OPP = {"u": "d", "d": "u", "l": "r", "r": "l"}


class Grid:
    """Bit mask geometry of an R x C grid."""

    def __init__(self, R, C):
        self.R, self.C, self.n = R, C, R * C
        self.full = (1 << self.n) - 1
        self.cells = [(r, c) for r in range(R) for c in range(C)]
        self.notl = sum(1 << (r * C + c) for r, c in self.cells if c > 0)
        self.notr = sum(1 << (r * C + c) for r, c in self.cells if c < C - 1)
        self.row = [sum(1 << (r * C + c) for c in range(C)) for r in range(R)]
        self.col = [sum(1 << (r * C + c) for r in range(R)) for c in range(C)]
        self.nb = [self.expand(1 << i) & ~(1 << i) for i in range(self.n)]
        self.nb8 = [self.expand8(1 << i) & ~(1 << i) for i in range(self.n)]
        self.border = self.row[0] | self.row[-1] | self.col[0] | self.col[-1] if self.n else 0
        self.sq2 = [1 << i | 1 << (i + 1) | 1 << (i + C) | 1 << (i + C + 1)
                    for i in range(self.n) if i // C < R - 1 and i % C < C - 1]
        self._comp = {}
        self._comp8 = {}

    def bit(self, p):
        return 1 << (p[0] * self.C + p[1])

    def i(self, p):
        return p[0] * self.C + p[1]

    def inside(self, r, c):
        return 0 <= r < self.R and 0 <= c < self.C

    def mask(self, cells):
        m = 0
        for r, c in cells:
            m |= 1 << (r * self.C + c)
        return m

    def list(self, m):
        out = []
        while m:
            b = m & -m
            out.append(self.cells[b.bit_length() - 1])
            m ^= b
        return out

    def expand(self, m):
        return (m | (m & self.notr) << 1 | (m & self.notl) >> 1 | m << self.C | m >> self.C) & self.full

    def expand8(self, m):
        h = m | (m & self.notr) << 1 | (m & self.notl) >> 1
        return (h | h << self.C | h >> self.C) & self.full

    def flood(self, seed, allowed):
        seed &= allowed
        while True:
            n = self.expand(seed) & allowed
            if n == seed:
                return seed
            seed = n

    def flood8(self, seed, allowed):
        seed &= allowed
        while True:
            n = self.expand8(seed) & allowed
            if n == seed:
                return seed
            seed = n

    def comps(self, m):
        """Orthogonally connected components of the mask."""
        out = self._comp.get(m)
        if out is None:
            out, rest = [], m
            while rest:
                k = self.flood(rest & -rest, rest)
                out.append(k)
                rest &= ~k
            if len(self._comp) < 400000:
                self._comp[m] = out
        return out

    def comps8(self, m):
        out, rest = [], m
        while rest:
            k = self.flood8(rest & -rest, rest)
            out.append(k)
            rest &= ~k
        return out

    def connected(self, m):
        """At most one component."""
        return m == 0 or self.flood(m & -m, m) == m

    def connected8(self, m):
        return m == 0 or self.flood8(m & -m, m) == m

    def comp_of(self, p, m):
        return self.flood(self.bit(p), m)

    def no2x2(self, m):
        return all(m & s != s for s in self.sq2)

    def noadj(self, m):
        return not ((m & self.notr) << 1 & m) and not (m << self.C & m)

    def line_run(self, k, m):
        """A 1 x k or k x 1 bar inside m."""
        a, b = m, m
        for j in range(1, k):
            a &= m >> (j * self.C)
        if a:
            return True
        for row in range(self.R):
            x = (m >> (row * self.C)) & ((1 << self.C) - 1)
            b = x
            for j in range(1, k):
                b &= x >> j
            if b:
                return True
        return False

    def box(self, m):
        cs = self.list(m)
        r0, r1 = min(r for r, _ in cs), max(r for r, _ in cs)
        c0, c1 = min(c for _, c in cs), max(c for _, c in cs)
        return r0, c0, r1, c1

    def is_rect(self, m):
        r0, c0, r1, c1 = self.box(m)
        return pop(m) == (r1 - r0 + 1) * (c1 - c0 + 1)

    def is_square(self, m):
        r0, c0, r1, c1 = self.box(m)
        return r1 - r0 == c1 - c0 and self.is_rect(m)

    def ray(self, p, d, stop=0):
        """Cells from p (excluded) towards d up to the edge or the first cell of `stop` (excluded)."""
        dr, dc = DIRS[d] if isinstance(d, str) else d
        r, c = p[0] + dr, p[1] + dc
        out = []
        while self.inside(r, c) and not stop >> (r * self.C + c) & 1:
            out.append((r, c))
            r, c = r + dr, c + dc
        return out

    def runs(self, r=None, c=None, m=0):
        """Lengths of the maximal runs of m in row r or column c, in order, with their cells."""
        line = [(r, x) for x in range(self.C)] if r is not None else [(x, c) for x in range(self.R)]
        out, cur = [], []
        for p in line:
            if m >> self.i(p) & 1:
                cur.append(p)
            elif cur:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        return out


pop = int.bit_count


@lru_cache(None)
def G(R, C):
    return Grid(R, C)


# ---- divisions ------------------------------------------------------------------------------------------------------
@lru_cache(None)
def partitions(R, C, lo=1, hi=None, kmin=1, kmax=None):
    """All divisions of the R x C grid into connected areas with lo..hi cells, as tuples of masks ordered by first cell."""
    return divide(R, C, G(R, C).full, lo, hi, kmin, kmax)


def divide(R, C, free, lo=1, hi=None, kmin=1, kmax=None, good=None):
    """All divisions of the cells in free into connected areas with lo..hi cells that satisfy good(mask)."""
    g = G(R, C)
    whole = free
    hi = hi or g.n
    kmax = kmax or g.n
    out = []

    @lru_cache(None)
    def areas(free):
        """Connected sets inside free containing its lowest cell, sizes lo..hi."""
        start = free & -free
        res = []

        def grow(m, banned):
            if lo <= pop(m) and (good is None or good(m)):
                res.append(m)
            if pop(m) == hi:
                return
            fr = g.expand(m) & free & ~m & ~banned
            b = banned
            while fr:
                x = fr & -fr
                fr ^= x
                grow(m | x, b)
                b |= x
        grow(start, 0)
        return tuple(res)

    def rec(free, acc):
        if not free:
            if len(acc) >= kmin:
                out.append(tuple(acc))
            return
        if len(acc) >= kmax:
            return
        for a in areas(free):
            rest = free & ~a
            if lo > 1 and any(pop(k) < lo for k in g.comps(rest)):
                continue
            rec(rest, acc + [a])

    rec(whole, [])
    return tuple(out)


@lru_cache(None)
def rectangulations(R, C):
    return rect_divide(R, C, lambda m: True)


def rect_divide(R, C, good):
    """All divisions into rectangles that satisfy good(mask)."""
    g = G(R, C)
    out = []

    def rec(free, acc):
        if not free:
            out.append(tuple(acc))
            return
        i = (free & -free).bit_length() - 1
        r, c = divmod(i, C)
        w = 0
        while c + w < C and free >> (i + w) & 1:
            w += 1
            m = 0
            for h in range(1, R - r + 1):
                m |= ((1 << w) - 1) << (i + (h - 1) * C)
                if m & ~free:
                    break
                if good(m):
                    rec(free & ~m, acc + [m])
    rec(g.full, [])
    return tuple(out)


# ---- loops and paths ------------------------------------------------------------------------------------------------
def links(R, C):
    """All undirected links (r, c, 'r' | 'd') between neighbouring cells."""
    return [(r, c, d) for r in range(R) for c in range(C) for d in "rd" if (d == "r" and c < C - 1) or (d == "d" and r < R - 1)]


@lru_cache(None)
def cycles(R, C):
    """All simple cycles of the R x C grid graph, as frozensets of links."""
    ls = links(R, C)
    ends = {}
    for x in ls:
        r, c, d = x
        ends[x] = ((r, c), (r, c + 1) if d == "r" else (r + 1, c))
    adj = {}
    for x, (a, b) in ends.items():
        adj.setdefault(a, []).append((b, x))
        adj.setdefault(b, []).append((a, x))
    out = set()
    for s in sorted(adj):
        # cycles whose smallest cell is s: path starts to one neighbour and returns by the other
        def walk(p, seen, used):
            for q, x in adj[p]:
                if q == s and len(used) >= 3 and x not in used:
                    out.add(frozenset(used | {x}))
                elif q > s and q not in seen:
                    walk(q, seen | {q}, used | {x})
        nbs = [(q, x) for q, x in adj[s] if q > s]
        if len(nbs) == 2:
            q, x = nbs[0]
            walk(q, {s, q}, frozenset({x}))
    return tuple(sorted(out, key=lambda f: (len(f), sorted(f))))


@lru_cache(None)
def degree_sets(R, C, allowed):
    """All sets of links in which every cell's number of links lies in `allowed` (a tuple), as frozensets."""
    ls = links(R, C)
    last = {}
    for k, (r, c, d) in enumerate(ls):
        last[(r, c)] = k
        last[(r, c + 1) if d == "r" else (r + 1, c)] = k
    mx = max(allowed)
    out = []
    deg = {(r, c): 0 for r in range(R) for c in range(C)}

    def rec(k, acc):
        if k == len(ls):
            if all(v in allowed for v in deg.values()):
                out.append(frozenset(acc))
            return
        r, c, d = ls[k]
        a, b = (r, c), ((r, c + 1) if d == "r" else (r + 1, c))
        for take in (0, 1):
            if take and (deg[a] >= mx or deg[b] >= mx):
                continue
            deg[a] += take
            deg[b] += take
            if all(not (last[p] == k and deg[p] not in allowed) for p in (a, b)):
                rec(k + 1, acc + [ls[k]] if take else acc)
            deg[a] -= take
            deg[b] -= take
    rec(0, [])
    return tuple(out)


def ends(x):
    r, c, d = x
    return (r, c), ((r, c + 1) if d == "r" else (r + 1, c))


def halves(ls):
    out = set()
    for r, c, d in ls:
        out.add((r, c, d))
        out.add((r, c + 1, "l") if d == "r" else (r + 1, c, "u"))
    return out


def at(ls):
    """cell -> string of directions drawn there."""
    out = {}
    for r, c, d in halves(ls):
        out[(r, c)] = out.get((r, c), "") + d
    return {p: "".join(sorted(v)) for p, v in out.items()}


def line_comps(ls):
    """Connected components of a link set, as (set of cells)."""
    nb = {}
    for x in ls:
        a, b = ends(x)
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    out, seen = [], set()
    for p in sorted(nb):
        if p in seen:
            continue
        comp, todo = {p}, [p]
        while todo:
            for q in nb[todo.pop()]:
                if q not in comp:
                    comp.add(q)
                    todo.append(q)
        seen |= comp
        out.append(comp)
    return out


# ---- shapes ---------------------------------------------------------------------------------------------------------
def canon(cells):
    cells = sorted(cells)
    r0, c0 = min(r for r, _ in cells), min(c for _, c in cells)
    return tuple(sorted((r - r0, c - c0) for r, c in cells))


def orientations(cells):
    out, cur = set(), list(cells)
    for _ in range(2):
        for _ in range(4):
            out.add(canon(cur))
            cur = [(-c, r) for r, c in cur]
        cur = [(r, -c) for r, c in cur]
    return out


def shape_id(cells):
    """Equal for congruent cell sets (rotation and reflection)."""
    return min(orientations(cells))


def S(txt):
    return shape_id([(r, c) for r, line in enumerate(txt.split("/")) for c, ch in enumerate(line) if ch == "#"])


TETRO = {S("###/.#."): "T", S("##/##"): "O", S("####"): "I", S("###/#.."): "L", S("##./.##"): "S"}
PENTO = {
    S(".##/##./.#."): "F", S("#####"): "I", S("####/#..."): "L", S("###./..##"): "N", S("##/##/#."): "P", S("###/.#./.#."): "T",
    S("#.#/###"): "U", S("#../#../###"): "V", S("#../##./.##"): "W", S(".#./###/.#."): "X", S("####/.#.."): "Y", S("##./.#./.##"): "Z",
}
OMINO_NAMES = {1: {S("#"): "."}, 2: {S("##"): "I"}, 3: {S("###"): "I", S("##/#."): "L"}, 4: TETRO, 5: PENTO}
_SID = {}


def omino(g, m):
    """(size, name) of a connected mask with up to 5 cells."""
    k = (g.R, g.C, m)
    if k not in _SID:
        _SID[k] = (pop(m), OMINO_NAMES[pop(m)][shape_id(g.list(m))])
    return _SID[k]


def congruent_key(g, m):
    k = (g.R, g.C, m, "c")
    if k not in _SID:
        _SID[k] = shape_id(g.list(m))
    return _SID[k]


# ---- fillings -------------------------------------------------------------------------------------------------------
def fill(keys, domain, ok_partial):
    """All maps key -> value with ok_partial(d, key) true after each assignment (keys in order)."""
    out, d = [], {}

    def rec(i):
        if i == len(keys):
            out.append(dict(d))
            return
        k = keys[i]
        for v in (domain(k, d) if callable(domain) else domain):
            d[k] = v
            if ok_partial(d, k):
                rec(i + 1)
        d.pop(k, None)
    rec(0)
    return out
