"""C10: the shared connectivity and reachability rules admit exactly the colourings in which their statement is true."""

import itertools


from .rules import (atoms, border_sides, build, edge_atoms, facts, grids, groups, named, near, open_pair, parted, reach, rect, rule, run_cases, segments, sides, subsets)

LEVEL = "model_checking"
MAPPING = {"states": "states", "transitions": "models", "traces_validated_against_impl": "rule_runs"}
ASSUME = ["the generated program is run by clingo with free choices for the cell colour or the drawn sides; internal predicates of the rules are not looked at (except the reachability relation of grid_branch_color_connected, named by tag_encode)"]
FREE = "{ black(R, C) } :- grid(R, C).\n"
SB = [("black", 2)]
OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
R_ = lambda fn: rule("reachable", fn)
N_ = lambda fn: rule("neighbor", fn)


def adj(t):
    """Adjacency written by hand, so that an error there does not hide one here."""
    if t == 4:
        return "adj_4(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| + |C - C1| = 1.\n"
    if t == "x":
        return "adj_x(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| = 1, |C - C1| = 1.\n"
    if t == 8:
        return "adj_8(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| <= 1, |C - C1| <= 1, (R, C) != (R1, C1).\n"
    return ("adj_edge(R, C, R, C + 1) :- grid(R, C), grid(R, C + 1), not edge_left(R, C + 1).\nadj_edge(R, C, R + 1, C) :- grid(R, C), grid(R + 1, C), not edge_top(R + 1, C).\n"
            "adj_edge(R, C, R1, C1) :- adj_edge(R1, C1, R, C).\n")


def colours(cells, black_set, colour):
    """The cells of the colour the rule speaks of."""
    return black_set if colour == "black" else frozenset(cells) - black_set


def blacks(cells, ok):
    return {atoms("black", b) for b in subsets(cells) if ok(b)}


def size(tier, q, t):
    return t if tier == "thorough" else q


def j(t):
    return lambda a, b: near(a, b, t)


def g_connected(tier):
    f = R_("grid_color_connected")
    for R, C, cells in grids(size(tier, 9, 12)):
        for t in (4, 8, "x"):
            for colour in ("black", "not black"):
                for gs in (None, (R, C)):
                    yield lambda R=R, C=C, cells=cells, t=t, colour=colour, gs=gs: (
                        f"grid_color_connected({colour}, {t}, {gs}) on {R}x{C} ({len(cells)} cells)", _p(build(f, color=colour, adj_type=t, grid_size=gs), cells, t),
                        SB, lambda: blacks(cells, lambda b: len(groups(colours(cells, b, colour), j(t))) <= 1))


def _p(text, cells, *ts, more=""):
    if text is None:
        return None
    return facts(cells) + "\n" + "".join(adj(t) for t in ts) + FREE + more + text


def g_border(tier):
    f = R_("border_color_connected")
    for R, C, cells in grids(size(tier, 10, 12), holes=False):
        for t in (4, 8, "x"):
            for colour in ("black", "not black"):
                def ok(b, R=R, C=C, cells=cells, t=t, colour=colour):
                    return all(any(r in (0, R - 1) or c in (0, C - 1) for r, c in g) for g in groups(colours(cells, b, colour), j(t)))
                yield lambda R=R, C=C, cells=cells, t=t, colour=colour, ok=ok: (f"border_color_connected({colour}, {t}) on {R}x{C}", _p(build(f, rows=R, cols=C, color=colour, adj_type=t), cells, t),
                                                                               SB, lambda: blacks(cells, ok))
    if tier == "thorough":
        for R, C in ((4, 4), (3, 5)):
            cells = rect(R, C)
            for t in (4, 8, "x"):
                def ok(b, R=R, C=C, t=t):
                    return all(any(r in (0, R - 1) or c in (0, C - 1) for r, c in g) for g in groups(b, j(t)))
                yield lambda R=R, C=C, cells=cells, t=t, ok=ok: (f"border_color_connected(black, {t}) on {R}x{C}", _p(build(f, rows=R, cols=C, color="black", adj_type=t), cells, t), SB, lambda: blacks(cells, ok))


def divisions(R, C):
    """All divisions of a rectangle into connected areas."""
    cells = rect(R, C)
    seen = set()
    for w in subsets(sides(cells)):
        g = groups(cells, open_pair(w))
        k = frozenset(g)
        if k not in seen:
            seen.add(k)
            yield sorted(sorted(x) for x in g)


def g_area(tier):
    f = R_("area_color_connected")
    for R, C in ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if tier == "thorough" else ()):
        cells = rect(R, C)
        for div in divisions(R, C):
            af = "".join(facts([(i, *x) for x in a], "area") for i, a in enumerate(div)) + "\n"
            for t, colour in itertools.product((4, 8, "x"), ("black", "not black")):
                def ok(b, t=t, colour=colour, div=div, cells=cells):
                    return all(len(groups(colours(cells, b, colour) & set(a), j(t))) <= 1 for a in div)
                yield lambda R=R, C=C, cells=cells, t=t, colour=colour, ok=ok, af=af, div=div: (
                    f"area_color_connected({colour}, {t}) on {R}x{C} divided into {[len(a) for a in div]}", _p(build(f, color=colour, adj_type=t), cells, t, more=af), SB, lambda: blacks(cells, ok))


def g_src(tier):
    """A source reaches exactly / at least / ... N cells."""
    f, cnt = R_("grid_src_color_connected"), R_("count_reachable_src")
    for R, C, cells in grids(size(tier, 6, 9), holes=tier == "thorough"):
        for src in cells:
            for t, colour in itertools.product((4, 8, "x"), ("black", "not black")):
                if t == "x" and len(cells) > 6 and tier != "thorough":
                    continue
                for target in [n for n in range(0, len(cells) + 1)] + [(o, n) for o in OPS for n in (1, 3)]:
                    if not isinstance(target, int) and (t == "x" or src != cells[-1]):
                        continue

                    def ok(b, cells=cells, src=src, t=t, colour=colour, target=target):
                        col = colours(cells, b, colour)
                        n = len(reach([src], col, j(t)))
                        return OPS["eq"](n, target) if isinstance(target, int) else OPS[target[0]](n, target[1])
                    yield lambda R=R, C=C, cells=cells, src=src, t=t, colour=colour, target=target, ok=ok: (
                        f"{target} cells reached from {src}, {colour}, {t} on {R}x{C}", _two(build(f, src_cell=src, color=colour, adj_type=t), build(cnt, target=target, src_cell=src, main_type="grid", color=colour, adj_type=t),
                                                                                           cells, t), SB, lambda: blacks(cells, ok))


def _two(a, b, cells, *ts, more=""):
    return None if a is None or b is None else _p(a + "\n" + b, cells, *ts, more=more)


def g_unknown(tier):
    """Every coloured cell is reached from one of the sources; sources with other starting cells and with cells they must not reach."""
    f, un = R_("grid_src_color_connected"), R_("avoid_unknown_src")
    for R, C, cells in grids(size(tier, 6, 9), holes=False):
        for k in (1, 2):
            for srcs in itertools.combinations(cells, k):
                for t, colour in itertools.product((4, 8), ("black", "not black")):
                    def ok(b, cells=cells, srcs=srcs, t=t, colour=colour):
                        col = colours(cells, b, colour)
                        seen = set()
                        for s in srcs:
                            seen |= reach([s], col, j(t))
                        return col <= seen
                    yield lambda R=R, C=C, cells=cells, srcs=srcs, t=t, colour=colour, ok=ok: (
                        f"all {colour} cells reached from {srcs}, {t} on {R}x{C}", _two("\n".join(build(f, src_cell=s, color=colour, adj_type=t) or "" for s in srcs), build(un, color=colour, adj_type=t), cells, t),
                        SB, lambda: blacks(cells, ok))
        for src, inc, exc in itertools.product(cells, list(cells), list(cells)):
            if len(cells) < 3 or len({src, inc, exc}) < 3 or R * C > 6:
                continue

            def ok2(b, cells=cells, src=src, inc=inc, exc=exc):
                got = reach([src, inc], b, j(4))
                return exc not in got and b <= got
            yield lambda R=R, C=C, cells=cells, src=src, inc=inc, exc=exc, ok2=ok2: (
                f"black cells reached from {src} and {inc} and not {exc} on {R}x{C}", _two(build(f, src_cell=src, include_cells=[inc], exclude_cells=[exc], color="black", adj_type=4), build(un, color="black", adj_type=4), cells, 4),
                SB, lambda: blacks(cells, ok2))


def g_bulb(tier):
    """Cells seen from a source in the four directions."""
    f, cnt, rc = R_("bulb_src_color_connected"), R_("count_reachable_src"), R_("count_rect_src")
    for R, C, cells in grids(size(tier, 9, 12), holes=False):
        for src in cells:
            for colour in ("black", "not black"):
                def seen(b, cells=cells, src=src, colour=colour):
                    col = colours(cells, b, colour)
                    v = h = 1
                    for dr, dc in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                        x = (src[0] + dr, src[1] + dc)
                        while x in col:
                            v, h = v + abs(dr), h + abs(dc)
                            x = (x[0] + dr, x[1] + dc)
                    return v, h
                for target in sorted({1, 2, 3, R + C - 1}) + [("ge", 2), ("lt", 3)]:
                    def ok(b, target=target, seen=seen):
                        v, h = seen(b)
                        n = v + h - 1
                        return n == target if isinstance(target, int) else OPS[target[0]](n, target[1])

                    def ok2(b, target=target, seen=seen):
                        v, h = seen(b)
                        return v * h == target if isinstance(target, int) else OPS[target[0]](v * h, target[1])
                    if len(cells) <= size(tier, 9, 12):
                        yield lambda R=R, C=C, cells=cells, src=src, colour=colour, target=target, ok=ok: (
                            f"{target} {colour} cells seen from {src} on {R}x{C}", _two(build(f, src_cell=src, color=colour, adj_type=4), build(cnt, target=target, src_cell=src, main_type="bulb", color=colour, adj_type=4), cells, 4),
                            SB, lambda: blacks(cells, ok))
                    if len(cells) <= 6:
                        yield lambda R=R, C=C, cells=cells, src=src, colour=colour, target=target, ok2=ok2: (
                            f"rectangle of {target} {colour} cells seen from {src} on {R}x{C}", _two(build(f, src_cell=src, color=colour, adj_type=4), build(rc, target=target, src_cell=src, color=colour, adj_type=4), cells, 4),
                            SB, lambda: blacks(cells, ok2))


SE = [("edge_left", 2), ("edge_top", 2)]


def free_edges(cells, R, C):
    s = sides(cells)
    b = [x for x in border_sides(R, C)]
    return (facts(cells) + "\n" + ("{ " + "; ".join(f"edge_{d}({r}, {c})" for d, r, c in s) + " }.\n" if s else "") + "".join(f"edge_{d}({r}, {c})." for d, r, c in b) + "\n"), s, frozenset(b)


def walls_ok(s, b, ok):
    return {edge_atoms(w | b) for w in subsets(s) if ok(w)}


def g_edge(tier):
    """Areas drawn by sides."""
    f, cnt, un, br, bulb, rc = (R_(x) for x in ("grid_src_color_connected", "count_reachable_src", "avoid_unknown_src", "grid_branch_color_connected", "bulb_src_color_connected", "count_rect_src"))
    th = tier == "thorough"
    for R, C in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)) + (((1, 6), (2, 4), (4, 2), (3, 3)) if th else ((1, 5),)):
        cells = rect(R, C)
        free, s, b = free_edges(cells, R, C)
        base = free + adj("edge")
        for src in cells:
            whole = lambda w, src, cells=cells: reach([src], cells, open_pair(w))

            def inner(w, g):
                return all(not parted(x, y, w) for x in g for y in g if x < y and near(x, y, 4))
            for target in list(range(1, len(cells) + 1)) + [("ge", 2), ("le", 2), ("ne", 3)]:
                def ok(w, src=src, target=target, whole=whole, inner=inner):
                    g = whole(w, src)
                    return inner(w, g) and (len(g) == target if isinstance(target, int) else OPS[target[0]](len(g), target[1]))
                yield lambda R=R, C=C, src=src, target=target, base=base, s=s, b=b, ok=ok: (
                    f"area of {target} cells around {src} drawn by sides on {R}x{C}", _e(base, build(f, src_cell=src, color=None, adj_type="edge"), build(cnt, target=target, src_cell=src, main_type="grid", color=None, adj_type="edge")),
                    SE, lambda: walls_ok(s, b, ok))

                def ok2(w, src=src, target=target, cells=cells):
                    v = h = 1
                    for dr, dc in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                        x = src
                        while True:
                            y = (x[0] + dr, x[1] + dc)
                            if y not in cells or parted(x, y, w):
                                break
                            v, h, x = v + abs(dr), h + abs(dc), y
                    n = v * h
                    return n == target if isinstance(target, int) else OPS[target[0]](n, target[1])
                yield lambda R=R, C=C, src=src, target=target, base=base, s=s, b=b, ok2=ok2: (
                    f"rectangle of {target} cells around {src} drawn by sides on {R}x{C}", _e(base, build(bulb, src_cell=src, color=None, adj_type="edge"), build(rc, target=target, src_cell=src, color=None, adj_type="edge")),
                    SE, lambda: walls_ok(s, b, ok2))
        for k in (1, 2):
            for srcs in itertools.combinations(cells, k):
                def ok3(w, srcs=srcs, cells=cells):
                    gs = [reach([x], cells, open_pair(w)) for x in srcs]
                    if any(y in g for x, g in zip(srcs, gs) for y in srcs if y != x):
                        return False
                    return set().union(*gs) == set(cells) and all(not parted(x, y, w) for g in gs for x in g for y in g if x < y and near(x, y, 4))
                yield lambda R=R, C=C, srcs=srcs, base=base, s=s, b=b, ok3=ok3: (
                    f"one area per source {srcs} drawn by sides on {R}x{C}",
                    _e(base, *[build(f, src_cell=x, exclude_cells=[y for y in srcs if y != x], color=None, adj_type="edge") for x in srcs], build(un, color=None, adj_type="edge")), SE, lambda: walls_ok(s, b, ok3))

        def ok4(w, cells=cells):
            return all(not parted(x, y, w) for g in groups(cells, open_pair(w)) for x in g for y in g if x < y and near(x, y, 4))
        yield lambda R=R, C=C, base=base, s=s, b=b, ok4=ok4: (f"no side inside an area on {R}x{C}", _e(base, build(br, color=None, adj_type="edge")), SE, lambda: walls_ok(s, b, ok4))

        def rel(w, cells=cells):
            return frozenset(("same", *x, *y) for g in groups(cells, open_pair(w)) for x in g for y in g)
        tag = rule("helper", "tag_encode")
        if tag and len(cells) <= 6:
            t = tag("reachable", "grid", "branch", "adj", "edge", None)
            yield lambda R=R, C=C, base=base, s=s, b=b, ok4=ok4, rel=rel, t=t: (
                f"cells of the same area on {R}x{C}", _e(base, named(build(br, color=None, adj_type="edge"), t), f"same(A, B, C, D) :- {t}(A, B, C, D)."), SE + [("same", 4)],
                lambda: {edge_atoms(w | b) | rel(w) for w in subsets(s) if ok4(w)})


def _e(base, *parts):
    return None if any(p is None for p in parts) else base + "\n".join(parts)


def g_branch(tier):
    """The reachability relation between cells of a colour."""
    f = R_("grid_branch_color_connected")
    tag = rule("helper", "tag_encode")
    if f is None or tag is None:
        return
    for R, C, cells in grids(size(tier, 6, 9), holes=tier == "thorough"):
        for t, colour in itertools.product((4, 8, "x"), ("black", "not black")):
            def exp(cells=cells, t=t, colour=colour):
                return {atoms("black", b) | frozenset(("same", *x, *y) for g in groups(colours(cells, b, colour), j(t)) for x in g for y in g) for b in subsets(cells)}
            tg = tag("reachable", "grid", "branch", "adj", t, colour)
            yield lambda R=R, C=C, cells=cells, t=t, colour=colour, exp=exp, tg=tg: (
                f"cells of the same {colour} group, {t} on {R}x{C}", _two(named(build(f, color=colour, adj_type=t), tg), f"same(A, B, C, D) :- {tg}(A, B, C, D).", cells, t), SB + [("same", 4)], exp)


def g_bits(tier):
    """Groups told apart by the bits of their clue's number."""
    rng, clue, conn, un = (R_(x) for x in ("num_binary_range", "clue_bit", "grid_bit_color_connected", "avoid_unknown_src_bit"))
    for R, C, cells in grids(size(tier, 6, 8), holes=False, lo=2):
        for k in (1, 2, 3):
            for at in itertools.combinations(cells, k):
                ids = [(1,), (2,)] if k == 1 else [(1, 1), (1, 2), (2, 3), (1, 3)] if k == 2 else [(1, 2, 3), (1, 2, 1), (3, 4, 5), (1, 1, 2)]
                for idv in ids:
                    if k == 3 and len(cells) > 6 and tier != "thorough":
                        continue
                    for t in (4, 8):
                        def prog(cells=cells, at=at, idv=idv, t=t):
                            rg = build(rng, max(idv))
                            if rg is None:
                                return None
                            ps = [rg[0]] + [build(clue, r, c, n, rg[1]) for (r, c), n in zip(at, idv)] + [build(conn, color="black", adj_type=t), build(un, color="black", adj_type=t)]
                            return None if any(p is None for p in ps) else _p("\n".join(ps), cells, t, more="".join(f":- not black({r}, {c}).\n" for r, c in at))

                        def ok(b, at=at, idv=idv, t=t):
                            if not set(at) <= b:
                                return False
                            for g in groups(b, j(t)):
                                n = {v for x, v in zip(at, idv) if x in g}
                                if len(n) != 1:
                                    return False
                            return True
                        yield lambda R=R, C=C, cells=cells, at=at, idv=idv, t=t, ok=ok, prog=prog: (f"groups of the clues {dict(zip(at, idv))}, {t} on {R}x{C}", prog(), SB, lambda: blacks(cells, ok))


def g_adjacent(tier):
    """The adjacency relations themselves."""
    f = N_("adjacent")
    for R, C, cells in grids(size(tier, 9, 12)):
        for t, own in itertools.product((4, 8, "x"), (False, True)):
            want = frozenset((f"adj_{t}", *a, *b) for a in cells for b in cells if near(a, b, t) and a != b or own and a == b)
            yield lambda R=R, C=C, cells=cells, t=t, own=own, want=want: (f"adjacent({t}, {own}) on {R}x{C} ({len(cells)} cells)", _f(facts(cells) + "\n", build(f, _type=t, include_self=own)), [(f"adj_{t}", 4)], {want})
    for R, C in ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if tier == "thorough" else ()):
        cells = rect(R, C)
        free, s, b = free_edges(cells, R, C)
        for own in (False, True):
            def exp(cells=cells, s=s, b=b, own=own):
                return {edge_atoms(w | b) | frozenset(("adj_edge", *x, *y) for x in cells for y in cells if open_pair(w)(x, y) or own and x == y) for w in subsets(s)}
            yield lambda R=R, C=C, free=free, own=own, exp=exp: (f"adjacent(edge, {own}) on {R}x{C}", _f(free, build(f, _type="edge", include_self=own)), SE + [("adj_edge", 4)], exp)
        segs = segments(cells)
        if len(segs) > 7 and tier != "thorough":
            continue
        lines = "".join(f'{{ ln({i}) }}. grid_direction({a[0]},{a[1]},"{"r" if a[0] == c[0] else "d"}") :- ln({i}). grid_direction({c[0]},{c[1]},"{"l" if a[0] == c[0] else "u"}") :- ln({i}).\n' for i, (a, c) in enumerate(segs))

        def exp2(segs=segs):
            return {frozenset(("adj_loop", *x, *y) for a, c in d for x, y in ((a, c), (c, a))) for d in subsets(segs)}
        yield lambda R=R, C=C, cells=cells, lines=lines, exp2=exp2: (f"adjacent(loop) on {R}x{C}", _f(facts(cells) + "\n" + lines, build(f, _type="loop")), [("adj_loop", 4)], exp2)
        if len(segs) > 7:
            continue
        dl = "".join(f'{{ ln({i},1..2) }} 1. ' + "".join(f'grid_out({p[0]},{p[1]},"{d}") :- ln({i},{k}). grid_in({q[0]},{q[1]},"{e}") :- ln({i},{k}). ' for k, p, q, d, e in
                     ((1, a, c, "r" if a[0] == c[0] else "d", "l" if a[0] == c[0] else "u"), (2, c, a, "l" if a[0] == c[0] else "u", "r" if a[0] == c[0] else "d"))) + "\n" for i, (a, c) in enumerate(segs))

        def exp3(segs=segs):
            return {frozenset(("adj_loop_directed", *x, *y) for a, c in d for x, y in ((a, c), (c, a))) for d in subsets(segs)}
        yield lambda R=R, C=C, cells=cells, dl=dl, exp3=exp3: (f"adjacent(loop_directed) on {R}x{C}", _f(facts(cells) + "\n" + dl, build(f, _type="loop_directed")), [("adj_loop_directed", 4)], exp3)


def _f(base, text):
    return None if text is None else base + text


def g_areas(tier):
    """Adjacent areas, optionally through cells of a colour only."""
    f = N_("area_adjacent")
    tag = rule("helper", "tag_encode")
    if f is None or tag is None:
        return
    for R, C in ((1, 3), (2, 2), (2, 3), (3, 2)):
        cells = rect(R, C)
        for div in divisions(R, C):
            of = {x: i for i, a in enumerate(div) for x in a}
            af = facts([(of[x], *x) for x in cells], "area") + "\n"
            for t, colour in itertools.product((4, 8), (None, "black", "not black")):
                def exp(cells=cells, of=of, t=t, colour=colour):
                    out = set()
                    for b in subsets(cells):
                        col = set(cells) if colour is None else colours(cells, b, colour)
                        out.add(atoms("black", b) | frozenset(("nb", of[x], of[y]) for x in col for y in col if near(x, y, t) and of[x] < of[y]))
                    return out
                tg = tag("area_adj", t, colour)
                # solvers use the relation in one direction or both; only unordered pairs of different areas are compared
                yield lambda R=R, C=C, cells=cells, af=af, t=t, colour=colour, exp=exp, tg=tg, div=div: (
                    f"adjacent areas {colour}, {t} on {R}x{C} divided into {div}", _two(named(build(f, adj_type=t, color=colour), tg), f"nb(A, B) :- {tg}(A, B), A < B. nb(B, A) :- {tg}(A, B), A > B.", cells, t, more=af), SB + [("nb", 2)], exp)


GROUPS = {"connected": (g_connected, 8), "border": (g_border, 4), "area": (g_area, 6), "source": (g_src, 10), "unknown": (g_unknown, 8), "bulb": (g_bulb, 8), "sides": (g_edge, 10), "branch": (g_branch, 4),
          "bits": (g_bits, 6), "adjacent": (g_adjacent, 2), "areas": (g_areas, 2)}


def task(name, k, tier):
    res = run_cases("C10", GROUPS[name][0](tier), k, GROUPS[name][1])
    res.names.add(name)
    return res


def tasks(tier, only=None):
    return [("nq.c10", "task", (n, k, tier)) for n, (_, parts) in GROUPS.items() for k in range(parts) if not only or n in only]
