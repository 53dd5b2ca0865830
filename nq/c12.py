"""C12: the shared shape rules hold exactly of the colourings and divisions that have, or do not have, the shapes."""

import itertools

from .c10 import FREE, OPS, SB, SE, _e, _f, _p, adj, blacks, colours, divisions, free_edges, j
from .rules import atoms, build, edge_atoms, facts, grids, groups, named, near, open_pair, parted, rect, rule, run_cases, sides, subsets

LEVEL = "model_checking"
MAPPING = {"states": "states", "transitions": "models", "traces_validated_against_impl": "rule_runs"}
ASSUME = ["the generated program is run by clingo with free choices for the cell colour or the drawn sides", "all_rect and no_rect are judged on boards without holes (no solver uses them with holes); area variants of the shapes are judged with the simple form solvers use"]
S = lambda fn: rule("shape", fn)


def norm(cells):
    r0, c0 = min(r for r, _ in cells), min(c for _, c in cells)
    return tuple(sorted((r - r0, c - c0) for r, c in cells))


def turns(cells, rot=True, refl=True):
    """All orientations, moved to the corner."""
    out, todo = set(), [norm(cells)]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if rot:
            todo.append(norm([(c, -r) for r, c in x]))
        if refl:
            todo += [norm([(-r, c) for r, c in x])]
    return out


def fixed(n):
    """All fixed polyominoes of n cells."""
    out = {((0, 0),)}
    for _ in range(n - 1):
        new = set()
        for x in out:
            for r, c in x:
                for y in ((r + 1, c), (r - 1, c), (r, c + 1), (r, c - 1)):
                    if y not in x:
                        new.add(norm(x + (y,)))
        out = new
    return out


# one drawing of each piece, by its usual letter
DRAWN = {1: {".": ["#"]}, 2: {"I": ["##"]}, 3: {"I": ["###"], "L": ["##", "#."]},
         4: {"T": ["###", ".#."], "O": ["##", "##"], "I": ["####"], "L": ["###", "#.."], "S": [".##", "##."]},
         5: {"F": [".##", "##.", ".#."], "I": ["#####"], "L": ["####", "#..."], "N": [".###", "##.."], "P": ["##", "##", "#."], "T": ["###", ".#.", ".#."], "U": ["#.#", "###"], "V": ["#..", "#..", "###"],
             "W": ["#..", "##.", ".##"], "X": [".#.", "###", ".#."], "Y": ["####", ".#.."], "Z": ["##.", ".#.", ".##"]}}


def piece(rows):
    return norm([(r, c) for r, row in enumerate(rows) for c, x in enumerate(row) if x == "#"])


PIECES = {n: {k: piece(v) for k, v in d.items()} for n, d in DRAWN.items()}


def size(tier, q, t):
    return t if tier == "thorough" else q


def g_table(tier):
    """The table of pieces: every free polyomino once, under its letter."""
    import importlib
    try:
        table = getattr(importlib.import_module("noqx.rule.shape"), "OMINOES", None)
    except ImportError:
        table = None
    if table is None:
        return
    for n, d in PIECES.items():
        for k, x in d.items():
            got = turns(table[n][k]) if k in table.get(n, {}) else set()
            yield f"piece {k} of {n} cells", "".join(f'p({i},{r},{c}).' for i, y in enumerate(sorted(got)) for r, c in y) + "\n", [("p", 3)], {frozenset(("p", i, *x) for i, y in enumerate(sorted(turns(x))) for x in y)}
        free = {min(turns(x)) for x in fixed(n)}
        listed = sorted(min(turns(x)) for x in table.get(n, {}).values())
        yield f"list of the pieces of {n} cells", "".join(f"p({i},{r},{c})." for i, y in enumerate(listed) for r, c in y) + "\n", [("p", 3)], {frozenset(("p", i, *x) for i, y in enumerate(sorted(free)) for x in y)}


def g_variants(tier):
    f = S("get_variants")
    if f is None:
        return
    for n in range(1, size(tier, 6, 7)):
        for x in fixed(n):
            for shift, rot, refl in itertools.product(((0, 0), (2, -1)), (True, False), (True, False)):
                y = [(r + shift[0], c + shift[1]) for r, c in reversed(x)]

                def case(x=x, y=y, rot=rot, refl=refl):
                    got = sorted(norm(v) for v in f(tuple(y), rot, refl))
                    want = sorted(turns(x, rot, refl))
                    fmt = lambda vs: frozenset(("v", i, *z) for i, v in enumerate(vs) for z in v)
                    return f"orientations of {x}, turned {rot}, mirrored {refl}", facts([a[1:] for a in fmt(got)], "v") + "\n", [("v", 3)], {fmt(want)}
                yield case


def g_shapes(tier):
    """Every group of coloured cells is one of the given pieces; so many of them."""
    f, al, cnt = S("general_shape"), S("all_shapes"), S("count_shape")
    boards = [(R, C, x) for R, C, x in grids(size(tier, 6, 9), holes=False)] + [(3, 3, tuple(x for x in rect(3, 3) if x != h)) for h in ((9, 9), (0, 1), (1, 1))] + [(3, 4, tuple(rect(3, 4))), (4, 3, tuple(rect(4, 3)))] + ([(4, 4, tuple(rect(4, 4))), (3, 5, tuple(rect(3, 5))), (2, 7, tuple(rect(2, 7)))] if tier == "thorough" else [])
    for R, C, cells in boards:
        for t in (4,):
            for colour in ("black", "not black"):
                if colour == "not black" and len(cells) > 9:
                    continue
                gl = {}

                def gof(b, cells=cells, colour=colour, gl=gl, t=t):
                    if b not in gl:
                        gl[b] = [min(turns(g)) for g in groups(colours(cells, b, colour), j(t))]
                    return gl[b]
                for n in (1, 2, 3, 4, 5):
                    if n > len(cells):
                        continue
                    pcs = [min(turns(p)) for p in PIECES[n].values()]

                    def text(n=n, colour=colour, t=t):
                        ps = [build(f, f"omino_{n}", i, p, color=colour, adj_type=t) for i, p in enumerate(PIECES[n].values())]
                        return None if any(p is None for p in ps) else "\n".join(ps) + "\n"
                    yield lambda R=R, C=C, cells=cells, n=n, colour=colour, text=text, t=t, gof=gof: (
                        f"all {colour} groups are pieces of {n} cells on {R}x{C} ({len(cells)} cells)", _join(text(), build(al, f"omino_{n}", color=colour), cells, t), SB, lambda: blacks(cells, lambda b: all(len(g) == n for g in gof(b))))
                    for target in (0, 1, 2, ("ge", 1), ("le", 1)) if len(cells) <= 9 else (1, 2, ("le", 1)):
                        def ok(b, n=n, target=target, gof=gof, which=None):
                            k = sum(len(g) == n and (which is None or g == which) for g in gof(b))
                            return k == target if isinstance(target, int) else OPS[target[0]](k, target[1])
                        yield lambda R=R, C=C, cells=cells, n=n, colour=colour, text=text, t=t, ok=ok, target=target: (
                            f"{target} {colour} groups are pieces of {n} cells on {R}x{C} ({len(cells)} cells)", _join(text(), build(cnt, target, f"omino_{n}", color=colour), cells, t), SB, lambda: blacks(cells, ok))
                        if n >= 3 and (target == 1 or target == ("le", 1)):
                            for i, p in enumerate(pcs):
                                if len(cells) > 9 and target == 1 and tier != "thorough":
                                    continue
                                yield lambda R=R, C=C, cells=cells, n=n, colour=colour, text=text, t=t, ok=ok, target=target, i=i, p=p: (
                                    f"{target} {colour} groups are the piece {i} of {n} cells on {R}x{C} ({len(cells)} cells)", _join(text(), build(cnt, target, f"omino_{n}", _id=i, color=colour), cells, t), SB,
                                    lambda: blacks(cells, lambda b: ok(b, which=p)))


def poly(n, t):
    """All fixed groups of n cells joined in the way t."""
    out = {((0, 0),)}
    for _ in range(n - 1):
        out = {norm(x + ((r + dr, c + dc),)) for x in out for r, c in x for dr in (-1, 0, 1) for dc in (-1, 0, 1) if (r + dr, c + dc) not in x and near((0, 0), (dr, dc), t)}
    return out


def g_diag(tier):
    """The same with groups that are joined at corners (too)."""
    f, al, cnt = S("general_shape"), S("all_shapes"), S("count_shape")
    boards = [(R, C, x) for R, C, x in grids(size(tier, 6, 9), holes=False)] + [(3, 3, tuple(x for x in rect(3, 3) if x != h)) for h in ((9, 9), (0, 1), (1, 1))]
    for R, C, cells in boards:
        for t, n, colour in itertools.product((8, "x"), (1, 2, 3), ("black", "not black")):
            pcs = sorted({min(turns(p)) for p in poly(n, t)})
            memo = {}

            def gof(b, cells=cells, colour=colour, t=t, memo=memo):
                if b not in memo:
                    memo[b] = [min(turns(g)) for g in groups(colours(cells, b, colour), j(t))]
                return memo[b]

            def text(n=n, colour=colour, t=t, pcs=pcs, only=None):
                ps = [build(f, f"group_{n}", i, p, color=colour, adj_type=t) for i, p in enumerate(pcs) if only in (None, i)]
                return None if any(p is None for p in ps) else "\n".join(ps) + "\n"
            if n > len(cells):
                continue
            yield lambda R=R, C=C, cells=cells, n=n, colour=colour, text=text, t=t, gof=gof: (
                f"all {colour} groups ({t}) have {n} cells on {R}x{C} ({len(cells)} cells)", _join(text(), build(al, f"group_{n}", color=colour), cells, t), SB, lambda: blacks(cells, lambda b: all(len(g) == n for g in gof(b))))
            for i, p in enumerate(pcs):
                yield lambda R=R, C=C, cells=cells, n=n, colour=colour, text=text, t=t, gof=gof, i=i, p=p: (
                    f"all {colour} groups ({t}) are the group {p} on {R}x{C} ({len(cells)} cells)", _join(text(only=i), build(al, f"group_{n}", color=colour), cells, t), SB, lambda: blacks(cells, lambda b: all(g == p for g in gof(b))))
                yield lambda R=R, C=C, cells=cells, n=n, colour=colour, text=text, t=t, gof=gof, i=i, p=p: (
                    f"one {colour} group ({t}) is the group {p} on {R}x{C} ({len(cells)} cells)", _join(text(), build(cnt, 1, f"group_{n}", _id=i, color=colour), cells, t), SB, lambda: blacks(cells, lambda b: sum(g == p for g in gof(b)) == 1))


def _join(a, b, cells, *ts, more=""):
    return None if a is None or b is None else _p(a + b, cells, *ts, more=more)


def g_belong(tier):
    """Which cells belong to which piece."""
    f, tag = S("general_shape"), rule("helper", "tag_encode")
    if tag is None:
        return
    for R, C, cells in grids(size(tier, 9, 10), holes=False):
        for n in (2, 3, 4):
            if n > len(cells):
                continue
            tg = tag("belong_to_shape", f"omino_{n}", "black")
            pcs = [min(turns(p)) for p in PIECES[n].values()]

            def prog(cells=cells, n=n, tg=tg):
                ps = [named(build(f, f"omino_{n}", i, p, color="black", adj_type=4), tg) for i, p in enumerate(PIECES[n].values())]
                return None if any(p is None for p in ps) else _p("\n".join(ps) + f"\nof(R, C, I) :- {tg}(R, C, I, _).\n", cells, 4)

            def exp(cells=cells, n=n, pcs=pcs):
                out = set()
                for b in subsets(cells):
                    a = set(atoms("black", b))
                    for g in groups(b, j(4)):
                        if len(g) == n:
                            a |= {("of", *x, pcs.index(min(turns(g)))) for x in g}
                    out.add(frozenset(a))
                return out
            yield lambda R=R, C=C, n=n, prog=prog, exp=exp: (f"piece of {n} cells a cell belongs to on {R}x{C}", prog(), SB + [("of", 3)], exp)


def g_areas(tier):
    """The simple form inside given areas: placements of the pieces in each area."""
    f, cnt, al, tag = S("general_shape"), S("count_shape"), S("all_shapes"), rule("helper", "tag_encode")
    for R, C in ((1, 4), (2, 3), (3, 2), (2, 4), (3, 3)):
        cells = tuple(rect(R, C))
        for jj, div in enumerate(divisions(R, C)):
            if R * C > 6 and (tier != "thorough" or R * C > 8) and jj % 9:
                continue
            af = "".join(facts([(i, *x) for x in a], "area") for i, a in enumerate(div)) + "\n"
            for n in (3, 4):
                if n > len(cells):
                    continue
                pcs = list(PIECES[n].values())
                places = [[(i, frozenset((r + dr, c + dc) for dr, dc in v)) for i, p in enumerate(pcs) for v in turns(p) for r in range(R) for c in range(C)] for _ in div]
                places = [[(i, v) for i, v in pl if v <= set(a)] for pl, a in zip(places, div)]

                def text(n=n, pcs=pcs):
                    ps = [build(f, f"omino_{n}", i, p, color="black", _type="area", adj_type=4, simple=True) for i, p in enumerate(pcs)]
                    return None if any(p is None for p in ps) else "\n".join(ps) + "\n"
                for target in (0, 1, 2, ("le", 1)):
                    def ok(b, places=places, target=target):
                        return all((k == target if isinstance(target, int) else OPS[target[0]](k, target[1])) for k in (sum(v <= b for _, v in pl) for pl in places))
                    yield lambda R=R, C=C, cells=cells, text=text, target=target, n=n, af=af, ok=ok, div=div: (
                        f"{target} pieces of {n} cells in each of the areas {[len(a) for a in div]} of {R}x{C}", _join(text(), build(cnt, target, f"omino_{n}", color="black", _type="area"), cells, 4, more=af), SB, lambda: blacks(cells, ok))
                for i in range(len(pcs)):
                    def ok3(b, places=places, i=i):
                        return all(sum(v <= b for k, v in pl if k == i) <= 1 for pl in places)
                    yield lambda R=R, C=C, cells=cells, text=text, n=n, af=af, ok3=ok3, div=div, i=i: (
                        f"at most one piece {i} of {n} cells in each of the areas {[len(a) for a in div]} of {R}x{C}", _join(text(), build(cnt, ("le", 1), f"omino_{n}", _id=i, color="black", _type="area"), cells, 4, more=af),
                        SB, lambda: blacks(cells, ok3))

                def ok2(b, places=places):
                    return set(b) <= {x for pl in places for _, v in pl if v <= b for x in v}
                yield lambda R=R, C=C, cells=cells, text=text, n=n, af=af, ok2=ok2, div=div: (
                    f"all cells in pieces of {n} cells, areas {[len(a) for a in div]} of {R}x{C}", _join(text(), build(al, f"omino_{n}", color="black", _type="area"), cells, 4, more=af), SB, lambda: blacks(cells, ok2))
                tg = tag("belong_to_shape", f"omino_{n}", "black") if tag else None

                def exp(cells=cells, places=places):
                    return {atoms("black", b) | frozenset(("of", k, *x, i) for k, pl in enumerate(places) for i, v in pl if v <= b for x in v) for b in subsets(cells)}
                if tg and n == 4:
                    yield lambda R=R, C=C, cells=cells, text=text, n=n, af=af, exp=exp, div=div, tg=tg: (
                        f"piece a cell belongs to, areas {[len(a) for a in div]} of {R}x{C}", _join(named(text(), tg), f"of(A, R, C, I) :- {tg}(A, R, C, I, _).\n", cells, 4, more=af), SB + [("of", 4)], exp)


def tidy(walls, cells):
    """Groups of cells drawn by sides, or None when a side lies inside a group."""
    gs = groups(cells, open_pair(walls))
    return gs if all(not parted(x, y, walls) for g in gs for x in g for y in g if x < y and near(x, y, 4)) else None


def g_divide(tier):
    """Every area drawn by sides is one of the pieces."""
    f, al, cnt = S("general_shape"), S("all_shapes"), S("count_shape")
    sets = {"dominoes": [(2, "I")], "threes": [(3, "I"), (3, "L")], "fours": [(4, k) for k in PIECES[4]], "fives": [(5, k) for k in PIECES[5]], "bars": [(1, "."), (2, "I"), (3, "I"), (4, "I")], "square or corner": [(4, "O"), (3, "L")]}
    for R, C in ((1, 1), (1, 3), (1, 4), (2, 2), (2, 3), (3, 2), (2, 4), (1, 5), (3, 3)) + (((4, 2), (2, 5), (3, 4)) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        free, s, b = free_edges(cells, R, C)
        base = free + adj("edge")
        for name, ps in sets.items():
            if len(s) > 12 and name not in ("fours", "threes", "bars"):
                continue
            lib = {min(turns(PIECES[n][k])): i for i, (n, k) in enumerate(ps)}

            def text(ps=ps):
                t = [build(f, "piece", i, PIECES[n][k], color="grid", adj_type="edge") for i, (n, k) in enumerate(ps)]
                return None if any(x is None for x in t) else "\n".join(t) + "\n"

            def ok(w, cells=cells, lib=lib):
                gs = groups(cells, open_pair(w))
                return all(min(turns(g)) in lib for g in gs) and tidy(w, cells) is not None
            yield lambda R=R, C=C, base=base, s=s, b=b, ok=ok, text=text, name=name: (f"{R}x{C} divided into {name}", _e(base, text(), build(al, "piece", color="grid")), SE, lambda: {edge_atoms(w | b) for w in subsets(s) if ok(w)})
            for target, which in ((1, None), (2, None), (("le", 1), 0), (1, len(ps) - 1)):
                if len(s) > 12:
                    continue

                def ok2(w, cells=cells, lib=lib, target=target, which=which):
                    k = 0
                    for g in groups(cells, open_pair(w)):
                        x = lib.get(min(turns(g)))
                        if x is not None and (which is None or x == which) and all(not parted(p, q, w) for p in g for q in g if p < q and near(p, q, 4)):
                            k += 1
                    return k == target if isinstance(target, int) else OPS[target[0]](k, target[1])
                yield lambda R=R, C=C, base=base, s=s, b=b, ok2=ok2, text=text, name=name, target=target, which=which: (
                    f"{target} areas of {R}x{C} are {name} ({which})", _e(base, text(), build(cnt, target, "piece", _id=which, color="grid")), SE, lambda: {edge_atoms(w | b) for w in subsets(s) if ok2(w)})


def is_rect(g):
    rs, cs = {r for r, _ in g}, {c for _, c in g}
    return len(g) == (max(rs) - min(rs) + 1) * (max(cs) - min(cs) + 1)


def is_square(g):
    rs, cs = {r for r, _ in g}, {c for _, c in g}
    return is_rect(g) and len(rs) == len(cs)


def g_rect(tier):
    f, no = S("all_rect"), S("no_rect")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12), holes=False), [(3, 4, tuple(rect(3, 4))), (4, 3, tuple(rect(4, 3)))], [(4, 4, tuple(rect(4, 4))), (3, 5, tuple(rect(3, 5)))] if tier == "thorough" else []):
        for sq in (False, True):
            good = is_square if sq else is_rect
            yield lambda R=R, C=C, cells=cells, sq=sq, good=good: (f"all_rect(square={sq}) on {R}x{C} ({len(cells)} cells)", _p(build(f, color="black", square=sq), cells), SB,
                                                                  lambda: blacks(cells, lambda b: all(good(g) for g in groups(b, j(4)))))
        prog = build(f, color="black")
        if named(prog, "upleft") and len(cells) <= 12:
            yield lambda R=R, C=C, cells=cells, prog=prog: (
                f"corners of the rectangles on {R}x{C} ({len(cells)} cells)", _p(prog, cells), SB + [("upleft", 2)],
                lambda: {atoms("black", b) | atoms("upleft", [min(g) for g in gs]) for b in subsets(cells) for gs in [groups(b, j(4))] if all(is_rect(g) for g in gs)})
        if len(cells) == R * C:
            for colour in ("black", "not black"):
                yield lambda R=R, C=C, cells=cells, colour=colour: (f"no_rect({colour}) on {R}x{C}", _p(build(no, color=colour), cells, 4), SB,
                                                                   lambda: blacks(cells, lambda b: all(not is_rect(g) for g in groups(colours(cells, b, colour), j(4)))))


def tilings(R, C, sq):
    """All divisions of a rectangle into rectangles (squares)."""
    def go(used):
        x = next((x for x in rect(R, C) if x not in used), None)
        if x is None:
            yield []
            return
        r, c = x
        for h in range(1, R - r + 1):
            for w in range(1, C - c + 1):
                if sq and h != w:
                    continue
                g = frozenset((r + a, c + b) for a in range(h) for b in range(w))
                if not g & used:
                    for rest in go(used | g):
                        yield [g] + rest
    yield from go(frozenset())


def g_rect_region(tier):
    f = S("all_rect_region")
    for R, C in ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (3, 4), (4, 3)) + (((4, 4), (2, 7), (3, 5)) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        free, s, b = free_edges(cells, R, C)
        for sq in (False, True):
            def exp(R=R, C=C, cells=cells, s=s, b=b, sq=sq, up=False):
                out = set()
                for t in tilings(R, C, sq):
                    of = {x: g for g in t for x in g}
                    w = frozenset(x for x in s if of[x[1], x[2]] != of[(x[1], x[2] - 1) if x[0] == "left" else (x[1] - 1, x[2])])
                    out.add(edge_atoms(w | b) | (atoms("upleft", [min(g) for g in t]) if up else frozenset()))
                return out
            yield lambda R=R, C=C, free=free, sq=sq, exp=exp: (f"all_rect_region(square={sq}) on {R}x{C}", _f(free, build(f, square=sq)), SE, exp)
            if named(build(f, square=sq), "upleft"):
                yield lambda R=R, C=C, free=free, sq=sq, exp=exp: (f"corners of the areas, all_rect_region(square={sq}) on {R}x{C}", _f(free, build(f, square=sq)), SE + [("upleft", 2)], lambda: exp(up=True))


def g_avoid(tier):
    f, cross = S("avoid_rect"), S("avoid_region_border_crossover")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 10)), [(2, 5, tuple(rect(2, 5))), (3, 4, tuple(rect(3, 4)))]):
        for h, w in itertools.product((1, 2, 3, 4), repeat=2):
            if h > R + 1 or w > C + 1:
                continue
            for colour in ("black", "not black"):
                corners = [(None, None)]
                if len(cells) == R * C <= 6:
                    corners += [(r, c) for r in range(R - h + 1) for c in range(C - w + 1)] + [(r, None) for r in range(R)] + [(None, c) for c in range(C)]
                for corner in corners:
                    def ok(b, h=h, w=w, colour=colour, corner=corner, cells=cells, R=R, C=C):
                        col = colours(cells, b, colour)
                        return not any(all((r + i, c + k) in col for i in range(h) for k in range(w)) for r in range(R) for c in range(C) if corner[0] in (None, r) and corner[1] in (None, c))
                    if colour == "not black" and len(cells) != R * C:
                        continue
                    yield lambda R=R, C=C, cells=cells, h=h, w=w, colour=colour, corner=corner, ok=ok: (
                        f"no {h}x{w} block of {colour} cells at {corner} on {R}x{C} ({len(cells)} cells)", _p(build(f, h, w, color=colour, corner=corner), cells), SB, lambda: blacks(cells, ok))
    for R, C in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (2, 4), (3, 3)) + (((3, 4),) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        free, s, b = free_edges(cells, R, C)

        def ok2(w, R=R, C=C):
            return not any({("left", r, c), ("left", r - 1, c), ("top", r, c), ("top", r, c - 1)} <= w for r in range(1, R) for c in range(1, C))
        yield lambda R=R, C=C, free=free, s=s, b=b, ok2=ok2: (f"no crossing of sides on {R}x{C}", _f(free, build(cross)), SE, lambda: {edge_atoms(w | b) for w in subsets(s) if ok2(w)})


def g_nori(tier):
    f = rule("variety", "nori_adjacent")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), [(3, 4, tuple(rect(3, 4)))]):
        for t in (4,) if len(cells) > 9 else (4, 8, "x"):
            for colour in ("black", "not black"):
                yield lambda R=R, C=C, cells=cells, colour=colour, t=t: (f"nori_adjacent({colour}, {t}) on {R}x{C} ({len(cells)} cells)", _p(build(f, color=colour, adj_type=t), cells, t), SB,
                                                                        lambda: blacks(cells, lambda b: all(sum(near(x, y, t) for y in colours(cells, b, colour)) == 1 for x in colours(cells, b, colour))))


GROUPS = {"table": (g_table, 1), "orientations": (g_variants, 1), "pieces": (g_shapes, 16), "diagonal groups": (g_diag, 4), "belonging": (g_belong, 2), "areas": (g_areas, 10), "division": (g_divide, 10), "rectangles": (g_rect, 5), "rectangular areas": (g_rect_region, 5),
          "blocks": (g_avoid, 6), "dominoes": (g_nori, 3)}


def task(name, k, tier):
    res = run_cases("C12", GROUPS[name][0](tier), k, GROUPS[name][1])
    res.names.add(name)
    return res


def tasks(tier, only=None):
    return [("nq.c12", "task", (n, k, tier)) for n, (_, p) in GROUPS.items() for k in range(p) if not only or n in only]
