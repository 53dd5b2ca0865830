"""Reference rules: shading puzzles with given regions."""

from .exact import drawn
from .grid import G, omino, partitions, pop
from .shade import BIG, RoomShade, adjacent_rooms, crosses_border_pairs, parse_part, room_masks


def room_count(self, b, m, p, v):
    return pop(m & self.rm(b)[p]) == v


def separated(b, g, m):
    """No two shaded cells touch across a room border."""
    return all(m & x != x for x in crosses_border_pairs(b, g))


class Aqre(RoomShade):
    name = "aqre"
    rooms_matter = False
    clue_ok = room_count

    def base(self, g, m):
        return g.connected(m) and not g.line_run(4, m) and not g.line_run(4, g.full & ~m)


class Aquarium(RoomShade):
    name = "aquarium"
    skip0 = ((3, 3),)
    margin = (1, 0, 1, 0)

    def ok(self, b, g, m):
        for room in b.rooms:
            wet = [r for r, c in room if m >> g.i((r, c)) & 1]
            if wet and any(r >= min(wet) and not m >> g.i((r, c)) & 1 for r, c in room):
                return False
        return True

    def places(self, b):
        return [("c", c) for c in range(b.C)] + [("r", r) for r in range(b.R)]

    def values(self, b, p):
        return list(range((b.R if p[0] == "c" else b.C) + 1)) + ["?"]

    def put(self, b, p, v):
        b.num(*((-1, p[1]) if p[0] == "c" else (p[1], -1)), v)

    def clues(self, b):
        return [(("c", c) if r == -1 else ("r", r), v) for (r, c), v in b.text.items() if isinstance(v, int)]

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        return pop(m & (g.col if p[0] == "c" else g.row)[p[1]]) == v


class Chocona(RoomShade):
    name = "chocona"
    skip0 = ((3, 3),)
    rooms_matter = False
    clue_ok = room_count

    def base(self, g, m):
        return all(g.is_rect(k) for k in g.comps(m))


class Cocktail(RoomShade):
    name = "cocktail"
    skip0 = ((3, 3),)
    clue_ok = room_count

    def base(self, g, m):
        return g.no2x2(m) and g.connected8(m)

    def ok(self, b, g, m):
        return separated(b, g, m) and all(g.connected(m & r) for r in self.rm(b))


def three_room_runs(b, g):
    """Bars that span at least three rooms: masks of the minimal ones."""
    def f():
        out, rid = [], b.room_id
        for line in [[(r, c) for c in range(g.C)] for r in range(g.R)] + [[(r, c) for r in range(g.R)] for c in range(g.C)]:
            for i in range(len(line)):
                changes = 0
                for j in range(i + 1, len(line)):
                    changes += rid[line[j]] != rid[line[j - 1]]
                    if changes == 2:
                        out.append(g.mask(line[i:j + 1]))
                        break
        return out
    return b._memo("runs3", f)


class Heyablock(RoomShade):
    name = "heyablock"
    vmin = 1  # a clue 0 contradicts the rule that every region is used
    clue_ok = room_count

    def base(self, g, m):
        return g.connected(g.full & ~m)

    def ok(self, b, g, m):
        w = g.full & ~m
        return (separated(b, g, m) and all(w & x != x for x in three_room_runs(b, g)) and
                all(m & r and g.connected(m & r) for r in self.rm(b)))


class Heyawake(RoomShade):
    name = "heyawake"
    params = ({"fast_mode": False, "limit_border": "0", "limit_2x2": "0"},)
    clue_ok = room_count

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m)

    def ok(self, b, g, m):
        w = g.full & ~m
        return all(w & x != x for x in three_room_runs(b, g))


class Hinge(RoomShade):
    name = "hinge"
    skip0 = ((3, 3),)
    clue_ok = room_count

    def ok(self, b, g, m):
        walls = b._memo("hw", lambda: {e for e in b.edges if (e[0] == "T" and 0 < e[1] < b.R) or (e[0] == "L" and 0 < e[2] < b.C)})
        for k in g.comps(m):
            cells = set(g.list(k))
            used = {("T", r, c) for r, c in cells if (r - 1, c) in cells and ("T", r, c) in walls}
            used |= {("L", r, c) for r, c in cells if (r, c - 1) in cells and ("L", r, c) in walls}
            if not used or len({e[0] for e in used}) > 1:
                return False
            kind = next(iter(used))[0]
            if kind == "T":
                rows = {r for _, r, _ in used}
                if len(rows) > 1:
                    return False
                r0 = rows.pop()
                cs = sorted(c for _, _, c in used)
                if any(("T", r0, c) not in walls for c in range(cs[0], cs[-1] + 1)):
                    return False
                if any((2 * r0 - 1 - r, c) not in cells for r, c in cells):
                    return False
            else:
                cols = {c for _, _, c in used}
                if len(cols) > 1:
                    return False
                c0 = cols.pop()
                rs = sorted(r for _, r, _ in used)
                if any(("L", r, c0) not in walls for r in range(rs[0], rs[-1] + 1)):
                    return False
                if any((r, 2 * c0 - 1 - c) not in cells for r, c in cells):
                    return False
        return True


class NoClue:
    with_clues = False

    def places(self, b):
        return []

    def clues(self, b):
        return []


class Lits(NoClue, RoomShade):
    name = "lits"
    params = ({"invlitso": False}, {"invlitso": True})
    lo = 4
    small1 = ((1, 4), (4, 1), (2, 3), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3))
    small0 = ((2, 5), (5, 2), (1, 8))
    big = ((4, 4),)

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m)

    def ok(self, b, g, m):
        inv = b.param["invlitso"]
        parts = []
        for r in self.rm(b):
            k = r & ~m if inv else r & m
            if pop(k) != 4 or not g.connected(k):
                return False
            parts.append(k)
        rid = b.room_id
        for i, j in adjacent_rooms(b, g):
            if g.expand(parts[i]) & parts[j] and omino(g, parts[i]) == omino(g, parts[j]):
                return False
        return inv or all(omino(g, k)[1] != "O" for k in parts)

    def spaces(self, tier):
        out = super().spaces(tier)
        ps = lambda: [room_masks(G(4, 4), p) for p in partitions(4, 4, 4, 12 if tier == "thorough" else 4)]
        return out + [("4x4 divisions into rooms of at least four" if tier == "thorough" else "4x4 all divisions into tetrominoes",
                       self.gen((4, 4), ps, 0))]


class Mannequin(RoomShade):
    name = "mannequin"
    lo = 2
    big = ((3, 4), (4, 3), (4, 4), (3, 5), (5, 3))

    def base(self, g, m):
        return g.connected(g.full & ~m)

    def dist(self, b, g, p, q):
        def f():
            out = {}
            for k, room in enumerate(b.rooms):
                rs = set(room)
                for s in room:
                    d, fr = {s: 0}, [s]
                    while fr:
                        nx = []
                        for r, c in fr:
                            for n in ((r + 1, c), (r - 1, c), (r, c + 1), (r, c - 1)):
                                if n in rs and n not in d:
                                    d[n] = d[(r, c)] + 1
                                    nx.append(n)
                        fr = nx
                    for t, v in d.items():
                        out[(s, t)] = v - 1
            return out
        return b._memo("mdist", f)[(p, q)]

    def ok(self, b, g, m):
        ds = []
        for r in self.rm(b):
            k = r & m
            if pop(k) != 2:
                return False
            ds.append(self.dist(b, g, *g.list(k)))
        return all(ds[i] != ds[j] for i, j in adjacent_rooms(b, g))

    def values(self, b, p):
        return list(range(0, len(b.rooms[p]) - 1)) + ["?"]

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        return self.dist(b, g, *g.list(m & self.rm(b)[p])) == v


class Martini(RoomShade):
    name = "martini"

    def base(self, g, m):
        return g.connected8(m)

    def ok(self, b, g, m):
        return separated(b, g, m) and all(g.connected(m & r) for r in self.rm(b))

    def places(self, b):
        return b.cells

    def values(self, b, p):
        return ["o", "x", "1", "2", "3"]

    def put(self, b, p, v):
        b.sym(*p, "circle_L__2" if v == "x" else "circle_L__1")
        if v.isdigit():
            b.num(*p, v)

    def clues(self, b):
        out = [(p[:2], "x" if v == "circle_L__2" else "o") for p, v in b.syms.items() if v in ("circle_L__1", "circle_L__2")]
        return out

    def clue_ok(self, b, m, p, v):
        return bool(m & G(b.R, b.C).bit(p)) == (v == "x")

    def joint(self, b, m):
        g = G(b.R, b.C)
        circles = b._memo("circ", lambda: g.mask(p[:2] for p, v in b.syms.items() if v == "circle_L__1"))
        return all(pop(g.comp_of(p, g.full & ~m) & circles) == v for p, v in b.text.items() if isinstance(v, int))

    def spaces(self, tier):
        out = []
        th = tier == "thorough"
        for s, k in (((1, 3), 3), ((2, 2), 2), ((2, 3), 2 if th else 1), ((3, 2), 2 if th else 1), ((3, 3), 1 if th else 0)):
            if s == (3, 3) and not th:
                continue
            ps = lambda s=s: [room_masks(G(*s), p) for p in partitions(*s)]
            out.append((f"{s[0]}x{s[1]} all divisions, <={k} clues", self.gen(s, ps, k)))
        for s in ((2, 3), (3, 3)):
            ps = lambda s=s: [room_masks(G(*s), p) for p in partitions(*s, 1, None, 2, 2)]
            out.append((f"{s[0]}x{s[1]} divisions in two, <={2 if th else 1} clues", self.gen(s, ps, 2 if th else 1)))
        for s in ((3, 4), (4, 3)):
            ps = lambda s=s: [parse_part(t) for t in BIG[s]]
            out.append((f"{s[0]}x{s[1]} named divisions, <={2 if th else 1} clues", self.gen(s, ps, 2 if th else 1)))

        def full():
            # every pattern of circles on a 2x4 board with two rooms, the first circle carrying every number
            for txt in ("aabb/aabb", "aaab/abbb"):
                rooms = parse_part(txt)
                for k in range(1, 6 if th else 4):
                    import itertools
                    for ps in itertools.combinations(range(8), k):
                        for n in range(1, k + 2):
                            b = self.make(2, 4, rooms)
                            for j, i in enumerate(ps):
                                self.put(b, divmod(i, 4), str(n) if j == 0 else "o")
                            yield b
        out.append(("2x4 all circle patterns, one number", full))
        return out


class Norinori(NoClue, RoomShade):
    name = "norinori"
    lo = 2
    small0 = ((3, 3), (2, 4), (4, 2), (1, 6), (6, 1), (3, 4), (2, 5))

    def base(self, g, m):
        return all(pop(k) == 2 for k in g.comps(m))

    def ok(self, b, g, m):
        return all(pop(m & r) == 2 for r in self.rm(b))

    def spaces(self, tier):
        out = []
        for label, f in super().spaces(tier):
            if label.startswith(("3x4 all", "2x5 all")):
                s = (3, 4) if label[0] == "3" else (2, 5)
                lo = 2 if tier == "thorough" else 3
                f = self.gen(s, lambda s=s, lo=lo: [room_masks(G(*s), p) for p in partitions(*s, lo)], 0)
                label += f" (rooms >= {lo})"
            out.append((label, f))
        return out


class Paintarea(RoomShade):
    name = "paintarea"

    def base(self, g, m):
        return g.connected(m) and g.no2x2(m) and g.no2x2(g.full & ~m)

    def ok(self, b, g, m):
        return all(m & r in (0, r) for r in self.rm(b))

    def places(self, b):
        return b.cells

    def values(self, b, p):
        return [0, 1, 2, 3, 4, "?"]

    def put(self, b, p, v):
        b.num(*p, v)

    def clues(self, b):
        return [(p, v) for p, v in b.text.items() if isinstance(v, int)]

    def clue_ok(self, b, m, p, v):
        g = G(b.R, b.C)
        return pop(g.nb[g.i(p)] & m) == v

    small1 = ((1, 1), (1, 2), (2, 1), (1, 4), (2, 2), (2, 3))


class Shimaguni(RoomShade):
    name = "shimaguni"
    vmin = 1  # a clue 0 contradicts the rule that every region is used
    clue_ok = room_count

    def ok(self, b, g, m):
        ks = [m & r for r in self.rm(b)]
        return (all(k and g.connected(k) for k in ks) and separated(b, g, m) and
                all(pop(ks[i]) != pop(ks[j]) for i, j in adjacent_rooms(b, g)))


class Stostone(RoomShade):
    name = "stostone"
    vmin = 1  # a clue 0 contradicts the rule that every region is used
    clue_ok = room_count
    small1 = ((2, 1), (2, 2), (2, 3), (4, 1), (6, 1))
    small0 = ((2, 4), (4, 2))
    big = ((4, 3), (4, 4))
    long = ((12, 1), (2, 6), (6, 2))

    def base(self, g, m):
        if any(pop(m & c) * 2 != g.R for c in g.col):
            return False
        for k in g.comps(m):  # every block falls as one piece onto the lower half
            fall = set()
            for r, c in g.list(k):
                above = sum(1 for q in range(r) if m >> g.i((q, c)) & 1)
                fall.add(g.R // 2 + above - r)
            if len(fall) > 1:
                return False
        return True

    def ok(self, b, g, m):
        return separated(b, g, m) and all(m & r and g.connected(m & r) for r in self.rm(b))

    def spaces(self, tier):
        return super().spaces(tier) + ([("4x5 named divisions", self.gen((4, 5), lambda: [parse_part(t) for t in BIG[(4, 5)]], 1, 60))]
                                       if tier != "thorough" else [])


class Tilepaint(Aquarium):
    name = "tilepaint"
    skip0 = ((3, 3),)
    margin = (1, 0, 1, 0)

    def ok(self, b, g, m):
        return all(m & r in (0, r) for r in self.rm(b))

    def put(self, b, p, v):
        if p[0] == "c":
            b.corner_num(-1, p[1], 2, v)
        else:
            b.corner_num(p[1], -1, 1, v)

    def clues(self, b):
        return [(("c", c) if r == -1 else ("r", r), v) for (r, c, k), v in b.corner.items() if isinstance(v, int)]


class Usoone(RoomShade):
    name = "usoone"

    def base(self, g, m):
        return g.noadj(m) and g.connected(g.full & ~m)

    def places(self, b):
        return b.cells

    def values(self, b, p):
        return [0, 1, 2, 3, 4]

    def put(self, b, p, v):
        b.num(*p, v)

    def clues(self, b):
        return [(p, "clue") for p in b.text]

    def clue_ok(self, b, m, p, v):
        return not m & G(b.R, b.C).bit(p)

    def lies(self, b, m):
        g = G(b.R, b.C)
        return {p: pop(g.nb[g.i(p)] & m) != v for p, v in b.text.items()}

    def joint(self, b, m):
        n = {}
        for p, lie in self.lies(b, m).items():
            n[b.room_id[p]] = n.get(b.room_id[p], 0) + lie
        return all(v == 1 for v in n.values())

    def draw(self, b, m):
        return drawn(shade=G(b.R, b.C).list(m), sym={p: "ox_E__7" if lie else "ox_E__1" for p, lie in self.lies(b, m).items()})

    small1 = ((1, 1), (1, 3), (2, 2))
    small0 = ()

    def derived(self, b, x):
        return []

    def spaces(self, tier):
        th = tier == "thorough"
        out = super().spaces(tier)
        for s in ((2, 2), (1, 4)) + (((2, 3),) if th else ()):
            ps = lambda s=s: [room_masks(G(*s), p) for p in partitions(*s, 1, None, 1, 2 if not th else None)]
            out.append((f"{s[0]}x{s[1]} divisions, <=2 clues", self.gen(s, ps, 2)))
        if not th:
            out = [z for z in out if not z[0].startswith("4x4")]
        ps3 = lambda: [parse_part("aab/abb/abb"), parse_part("aaa/aaa/aaa")]
        out.append(("3x3 named divisions, <=2 clues", self.gen((3, 3), ps3, 2)))

        def full():
            # for every colouring of a 3x3 and a 3x4 board: all unshaded cells carry their count, one clue per room is changed
            for s, txt in (((3, 3), "aab/cbb/ccb"), ((3, 4), "aabb/ccbb/cddd")):
                g = G(*s)
                rooms = parse_part(txt)
                b0 = self.make(*s, rooms)
                for m in self.static(b0):
                    for off in (0, 1, 2):
                        b = self.make(*s, rooms)
                        for k, room in enumerate(b0.rooms):
                            free = [p for p in room if not m & g.bit(p)]
                            for j, p in enumerate(free):
                                t = pop(g.nb[g.i(p)] & m)
                                b.num(*p, t + 1 if j == (off + k) % len(free) else t)
                        yield b
        out.append(("3x3 and 3x4 full clue sets derived from every colouring", full))
        return out


SPECS = [Aqre, Aquarium, Chocona, Cocktail, Heyablock, Heyawake, Hinge, Lits, Mannequin, Martini, Norinori, Paintarea, Shimaguni,
         Stostone, Tilepaint, Usoone]
