"""Common parts of the shading reference models."""

import json

from .board import Board
from .exact import Spec, drawn, subsets
from .grid import G, partitions, pop

_BASE = {}


class Shade(Spec):
    key = None      # name of the shared room-free filter (so that types with the same filter share the list)

    def base(self, g, m):
        return True

    def ok(self, b, g, m):
        return True

    def basic(self, b, g):
        k = (self.name, g.R, g.C, json.dumps(b.param, sort_keys=True))
        if k not in _BASE:
            if len(_BASE) > 60:
                _BASE.clear()
            _BASE[k] = [m for m in range(1 << g.n) if self.base(g, m)]
        return _BASE[k]

    def universe(self, b):
        g = G(b.R, b.C)
        self.rm(b)
        return [m for m in self.basic(b, g) if self.ok(b, g, m)]

    def rm(self, b):
        g = G(b.R, b.C)
        return b._memo("rm", lambda: [g.mask(x) for x in b.rooms])

    def draw(self, b, m):
        return drawn(shade=G(b.R, b.C).list(m))

    def parse(self, s):
        return G(s.R, s.C).mask(p for p in s.dark if 0 <= p[0] < s.R and 0 <= p[1] < s.C)

    def judge(self, b, s):
        g, m = G(b.R, b.C), self.parse(s)
        if not self.base(g, m) or not self.ok(b, g, m):
            return False, "general rules"
        for p, v in self.clues(b):
            if not self.clue_ok(b, m, p, v):
                return False, f"clue {p} {v}"
        return self.joint(b, m), "clues together"


def room_masks(g, part):
    return [[p for p in g.list(m)] for m in part]


def crosses_border_pairs(b, g):
    """Pairs of orthogonally adjacent cells in different rooms, as two-bit masks."""
    def f():
        out = []
        rid = b.room_id
        for r, c in g.cells:
            for q in ((r + 1, c), (r, c + 1)):
                if g.inside(*q) and rid[(r, c)] != rid[q]:
                    out.append(g.bit((r, c)) | g.bit(q))
        return out
    return b._memo("xpairs", f)


def adjacent_rooms(b, g):
    def f():
        out = set()
        rid = b.room_id
        for r, c in g.cells:
            for q in ((r + 1, c), (r, c + 1)):
                if g.inside(*q) and rid[(r, c)] != rid[q]:
                    out.add(tuple(sorted((rid[(r, c)], rid[q]))))
        return sorted(out)
    return b._memo("xrooms", f)


def parse_part(txt):
    """'aab/abb' -> tuple of room cell lists."""
    rooms = {}
    for r, line in enumerate(txt.split("/")):
        for c, ch in enumerate(line):
            rooms.setdefault(ch, []).append((r, c))
    return list(rooms.values())


BIG = {  # named divisions used beyond the sizes whose divisions are all enumerated
    (3, 4): ["aabb/aabb/ccdd", "aaab/acbb/cccb", "abbb/abcc/addd", "aaaa/bbbb/cccc", "aabb/acdb/ccdd", "abcd/abcd/abcd", "aaaa/abba/aaaa"],
    (4, 3): ["aab/aab/ccb/ccd", "aaa/abb/abc/dcc", "abc/abc/abc/abc", "aaa/aba/aba/aaa"],
    (4, 4): ["aabb/aabb/ccdd/ccdd", "aaab/acbb/acdb/ccdd", "aaaa/abbb/abcc/abcd", "abbb/abcb/accb/aaab", "aabb/acbd/accd/eedd", "aaaa/aaaa/aaaa/aaaa",
             "abcc/abcd/aadd/eeed", "abbc/aabc/daec/ddee"],
    (3, 5): ["aaaaa/bbbba/aaaaa", "aaabb/ccabb/aaadd", "aaaaa/abbba/aaaca"],
    (5, 3): ["aba/aba/aba/aba/aaa"],
    (4, 5): ["aabbb/aacbd/eccdd/eeeed", "aaabb/acbbd/accdd/eeedd", "abbbb/abccd/aaccd/eeeed", "aaaaa/abbba/cbddd/ccccd"],
    (5, 4): ["aabb/acbb/accd/eecd/eedd", "aaab/cabb/cadd/ccdd/eeed", "abbb/abcb/acca/aaad/dddd"],
    (1, 12): ["aaaaaaaaaaaa", "aaaabbbbcccc", "abbbbbbbbbcc", "abcdefghijkl", "aabbccddeeff"],
    (12, 1): ["/".join(x) for x in ("aaaaaaaaaaaa", "aaaabbbbcccc", "abbbbbbbbbbc", "abcdefghijkl", "aaabcccdeeef")],
    (2, 6): ["aabbcc/aabbcc", "aaaaaa/bbbbbb", "abbbbc/aabccc", "abcdef/ghijkl", "aaaaaa/aaaaaa", "aabcdd/abbccd"],
    (6, 2): ["aa/bb/cc/dd/ee/ff", "ab/ab/ab/cd/cd/cd", "ab/ab/aa/cc/dc/dd", "ab/cd/ef/gh/ij/kl", "aa/ab/bb/cc/ad/dd"],
    (5, 5): ["aabbb/aacbd/eccdd/eefgd/effgg", "abccc/abbbc/addbc/eedff/eeedf"],
}


class RoomShade(Shade):
    uses_rooms = True
    rooms_matter = True   # the clue-independent rules refer to the rooms
    with_clues = True
    vmin = 0
    lo = 1            # smallest room worth enumerating
    clue_where = "room"
    big = ((3, 4), (4, 3), (4, 4))
    long = ((1, 12), (12, 1), (2, 6), (6, 2))
    small1 = ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3))
    small0 = ((3, 2), (3, 3), (2, 4), (4, 2), (1, 6))
    derive_cap = 24
    skip0 = ()        # divisions of these sizes are left out without clues in the quick tier (too many answers)

    # ---- clue alphabet of one division
    def places(self, b):
        return list(range(len(b.rooms)))

    def values(self, b, p):
        return list(range(self.vmin, len(b.rooms[p]) + 1)) + ["?"]

    def put(self, b, p, v):
        room = b.rooms[p]
        b.num(*room[-1 if (len(room) + p) % 2 else 0], v)

    def derived(self, b, x):
        """All clue values that hold in x."""
        out = []
        for p in self.places(b):
            vs = [v for v in self.values(b, p) if v != "?" and self.clue_ok(b, x, self.place_key(b, p), v)]
            if vs:
                out.append((p, vs[0]))
        return out

    def place_key(self, b, p):
        return p

    def make(self, R, C, rooms, layout=(), param=None):
        b = self.board(R, C, param)
        b.rooms_walls(rooms)
        tmp = b.rooms
        for p, v in layout:
            self.put(b, p, v)
        b._c.clear()
        b._c["rooms"] = tmp
        return b

    def clues(self, b):
        rid = b.room_id
        return [(rid[p], v) for p, v in b.text.items() if isinstance(v, int) and p in rid]

    def gen(self, shape, rooms_list, kmax, derive=0, params=None, kmin=0):
        def f():
            turn = 0
            for rooms in rooms_list():
                for par in params or self.params:
                    b0 = self.make(*shape, rooms, (), par)
                    seen = set()
                    for lay in subsets(self.places(b0), lambda p: self.values(b0, p), kmax, kmin):
                        yield self.make(*shape, rooms, lay, par)
                    if derive:
                        sols = self.static(b0)
                        if derive == "one":
                            turn += 1
                            sols = [sols[(7 * turn + 3) % len(sols)]] if sols else []
                        elif len(sols) > derive:
                            sols = [sols[i * len(sols) // derive] for i in range(derive)]
                        for x in sols:
                            lay = tuple(self.derived(b0, x))
                            if lay and lay not in seen:
                                seen.add(lay)
                                yield self.make(*shape, rooms, lay, par)
        return f

    def spaces(self, tier):
        out = []
        lo = self.lo
        th = tier == "thorough"
        for s in self.small1:
            if s[0] * s[1] >= lo:
                ps = lambda s=s: [room_masks(G(*s), p) for p in partitions(*s, lo)]
                out.append((f"{s[0]}x{s[1]} all divisions, <=1 clue" if not th else f"{s[0]}x{s[1]} all divisions, <=2 clues",
                            self.gen(s, ps, 2 if th else 1, 60 if th else 6)))
        for s in self.small0:
            if s[0] * s[1] >= lo:
                ps = lambda s=s: [room_masks(G(*s), p) for p in partitions(*s, lo)]
                if self.rooms_matter and (th or s not in self.skip0):
                    out.append((f"{s[0]}x{s[1]} all divisions, no clue" if not th else f"{s[0]}x{s[1]} all divisions, <=1 clue",
                                self.gen(s, ps, 1 if th else 0, 20 if th else 0)))
                if self.with_clues:
                    out.append((f"{s[0]}x{s[1]} all divisions, one full clue set", self.gen(s, ps, 0, "one", kmin=1)))
        for s in self.big + (((4, 5), (5, 4)) if th else ()):
            ps = lambda s=s: [parse_part(t) for t in BIG[s] if min(map(len, parse_part(t))) >= lo]
            if ps():
                out.append((f"{s[0]}x{s[1]} named divisions, <=1 clue and full clue sets", self.gen(s, ps, 2 if th else 1, 400 if th else self.derive_cap)))
        for s in self.long:
            ps = lambda s=s: [parse_part(t) for t in BIG[s] if min(map(len, parse_part(t))) >= lo]
            if s not in self.big and ps():
                out.append((f"{s[0]}x{s[1]} named divisions, {'<=1 clue' if th else 'no clue'} and full clue sets", self.gen(s, ps, 1 if th else 0, 200 if th else 10)))
        return out
