"""C11: the shared loop and line rules admit exactly the drawings in which their statement is true."""

import itertools

from .c10 import _e, _f, divisions
from .rules import OFF, OPP, atoms, build, dirs, facts, grids, line_atoms, rect, rule, run_cases, segments, subsets

LEVEL = "model_checking"
MAPPING = {"states": "states", "transitions": "models", "traces_validated_against_impl": "rule_runs"}
ASSUME = ["the generated program is run by clingo; the free choices and the given facts are written by the harness, or are the repository's own fill rules in the runs labelled as such",
          "drawings with a cell of three line ends are judged only where the rule is about line ends at all"]
L = lambda fn: rule("loop", fn)
CM = lambda fn: rule("common", fn)
GD, W = ("grid_direction", 3), ("white", 2)
DIR = 'direction("l"). direction("u"). direction("r"). direction("d").\n'
FREE_W = "{ white(R, C) } :- grid(R, C).\n"
FREE = DIR + "{ grid_direction(R, C, D) : direction(D) } :- white(R, C).\n"
FREE_D = DIR + "{ grid_in(R, C, D) : direction(D) } 1 :- white(R, C).\n{ grid_out(R, C, D) : direction(D) } 1 :- white(R, C).\n"
# drawings made of whole segments, cells of zero or two ends, all of it written here
WHOLE = ("{ sg(R, C, R, C + 1) } :- grid(R, C), grid(R, C + 1).\n{ sg(R, C, R + 1, C) } :- grid(R, C), grid(R + 1, C).\n"
         'grid_direction(R, C, "r") :- sg(R, C, R, C + 1). grid_direction(R, C + 1, "l") :- sg(R, C, R, C + 1).\n'
         'grid_direction(R, C, "d") :- sg(R, C, R + 1, C), R + 1 > R. grid_direction(R + 1, C, "u") :- sg(R, C, R + 1, C).\n'
         "white(R, C) :- grid_direction(R, C, _).\n")
TWO = ":- grid(R, C), #count { D : grid_direction(R, C, D) } > 2.\n:- grid(R, C), #count { D : grid_direction(R, C, D) } = 1.\n"
ATMOST = ":- grid(R, C), #count { D : grid_direction(R, C, D) } > 2.\n"


def drawings(cells, allowed):
    """All sets of segments in which every cell's number of line ends is allowed(cell)."""
    cells = sorted(cells)
    inside, out = set(cells), []
    ok = {x: frozenset(allowed(x)) for x in cells}

    def go(i, d, deg):
        if i == len(cells):
            out.append(frozenset(d))
            return
        r, c = x = cells[i]
        nxt = [y for y in ((r, c + 1), (r + 1, c)) if y in inside]
        for pick in itertools.product((0, 1), repeat=len(nxt)):
            n = deg.get(x, 0) + sum(pick)
            if n not in ok[x]:
                continue
            new = [(x, y) for y, p in zip(nxt, pick) if p]
            for _, y in new:
                deg[y] = deg.get(y, 0) + 1
            if all(deg.get(y, 0) <= max(ok[y]) for _, y in new):
                go(i + 1, d + new, deg)
            for _, y in new:
                deg[y] -= 1
    go(0, [], {})
    return out


def parts(d):
    """Number of separate lines."""
    left, n = set(d), 0
    while left:
        n += 1
        todo = [left.pop()]
        while todo:
            s = todo.pop()
            for t in [t for t in left if set(t) & set(s)]:
                left.discard(t)
                todo.append(t)
    return n


def on(d):
    return frozenset(x for s in d for x in s)


def both(d):
    return line_atoms(d) | atoms("white", on(d))


def size(tier, q, t):
    return t if tier == "thorough" else q


def big(tier, *more):
    for R, C in ((3, 4), (4, 3), (4, 4)) + tuple(more) + (((4, 5), (5, 4), (5, 5), (3, 6)) if tier == "thorough" else ()):
        yield R, C, tuple(rect(R, C))


def degree_cells(cells, ok):
    return drawings(cells, lambda x: ok)


def g_single(tier):
    f, conn, adj = L("single_loop"), rule("reachable", "grid_color_connected"), "adj_loop(R, C, R1, C1) :- sgx(R, C, R1, C1).\n"
    near = ('adj_loop(R, C, R, C + 1) :- grid_direction(R, C, "r"), grid(R, C + 1). adj_loop(R, C + 1, R, C) :- grid_direction(R, C, "r"), grid(R, C + 1).\n'
            'adj_loop(R, C, R + 1, C) :- grid_direction(R, C, "d"), grid(R + 1, C). adj_loop(R + 1, C, R, C) :- grid_direction(R, C, "d"), grid(R + 1, C).\n')
    fill, ad, dr = CM("fill_path"), rule("neighbor", "adjacent"), CM("direction")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), big(tier)):
        base = facts(cells) + "\n" + FREE_W + FREE
        loops = lambda cells=cells: degree_cells(cells, (0, 2))
        yield lambda R=R, C=C, cells=cells, base=base, loops=loops: (f"single_loop on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white")), [GD, W], lambda: {both(d) for d in loops()})
        yield lambda R=R, C=C, cells=cells, base=base, loops=loops: (
            f"one single loop on {R}x{C} ({len(cells)} cells)", _e(base + near, build(f, color="white"), build(conn, color="white", adj_type="loop")), [GD, W], lambda: {both(d) for d in loops() if parts(d) <= 1})
        yield lambda R=R, C=C, cells=cells, loops=loops: (
            f"direction, fill_path, adjacent, single_loop, connected on {R}x{C} ({len(cells)} cells)",
            _e(facts(cells) + "\n" + FREE_W, build(dr, "lurd"), build(fill, color="white"), build(ad, _type="loop"), build(f, color="white"), build(conn, color="white", adj_type="loop")),
            [GD, W], lambda: {both(d) for d in loops() if parts(d) <= 1})
    # cells which must be on the loop
    for R, C in ((2, 3), (3, 3)) + (((3, 4),) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        ls = degree_cells(cells, (0, 2))
        for w in subsets(cells):
            if len(cells) > 6 and tier != "thorough" and hash_(w) % 8:
                continue
            yield lambda R=R, C=C, cells=cells, w=w, ls=ls: (f"single_loop through the cells {sorted(w)} on {R}x{C}", _f(facts(cells) + facts(w, "white") + "\n#defined white/2.\n" + FREE, build(f, color="white")), [GD],
                                                            lambda: {line_atoms(d) for d in ls if on(d) == w})


def hash_(w):
    return sum(3 * r + c + 1 for r, c in w)


def g_path(tier):
    f = L("single_loop")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), [(3, 4, tuple(rect(3, 4)))]):
        if len(cells) > 9 and tier != "thorough":
            continue
        base = facts(cells) + "\n" + FREE_W + FREE
        dead = "{ dead_end(R, C) } :- grid(R, C).\n"

        def exp(cells=cells):
            out = set()
            for d in drawings(cells, lambda x: (0, 1, 2)):
                deg = dirs(d)
                out.add(both(d) | atoms("dead_end", [x for x in deg if len(deg[x]) == 1]))
            return out
        yield lambda R=R, C=C, cells=cells, base=base + dead, exp=exp: (f"single_loop with ends on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white", path=True)), [GD, W, ("dead_end", 2)], exp)
        if len(cells) < 2:
            continue
        for ends in itertools.combinations(cells, 2):
            def exp2(cells=cells, ends=ends):
                return {both(d) for d in drawings(cells, lambda x: (1,) if x in ends else (0, 2))}
            yield lambda R=R, C=C, cells=cells, base=base + facts(ends, "dead_end") + "\n", exp2=exp2, ends=ends: (
                f"single_loop with the ends {ends} on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white", path=True)), [GD, W], exp2)


def g_cross(tier):
    f = L("intersect_loop")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), big(tier)):
        base = facts(cells) + "\n" + FREE_W + FREE
        yield lambda R=R, C=C, cells=cells, base=base: (f"intersect_loop on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white")), [GD, W], lambda: {both(d) for d in degree_cells(cells, (0, 2, 4))})


def orient(d, starts=None, ends=None):
    """Every way of giving a set of disjoint closed and open lines a direction: sets of (cell, in, out)."""
    nb = dirs(d)
    todo, seen = [], set()
    for x in sorted(nb):
        if x in seen:
            continue
        comp, st = {x}, [x]
        while st:
            y = st.pop()
            for k in nb[y]:
                z = (y[0] + OFF[k][0], y[1] + OFF[k][1])
                if z not in comp:
                    comp.add(z)
                    st.append(z)
        seen |= comp
        tips = [y for y in comp if len(nb[y]) == 1]
        first = min(tips) if tips else min(comp)
        walk, prev, y = [], None, first
        while True:
            go = sorted(k for k in nb[y] if k != prev)
            if not go or (prev is not None and y == first):
                break
            k = go[0]
            walk.append((y, k))
            y = (y[0] + OFF[k][0], y[1] + OFF[k][1])
            prev = OPP[k]
        todo.append((walk, y))
    for way in itertools.product((0, 1), repeat=len(todo)):
        a = set()
        for (walk, _), w in zip(todo, way):
            for (x, k) in walk:
                y = (x[0] + OFF[k][0], x[1] + OFF[k][1])
                p, q, kk = (x, y, k) if w == 0 else (y, x, OPP[k])
                a.add(("grid_out", *p, kk))
                a.add(("grid_in", *q, OPP[kk]))
        yield frozenset(a)


GIO = [("grid_in", 3), ("grid_out", 3), W]


def g_directed(tier):
    f, fill, ad, conn, dr = L("directed_loop"), CM("fill_path"), rule("neighbor", "adjacent"), rule("reachable", "grid_color_connected"), CM("direction")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), big(tier)):
        base = facts(cells) + "\n" + FREE_W + FREE_D

        def exp(one, cells=cells):
            return {o | atoms("white", on(d)) for d in degree_cells(cells, (0, 2)) if not one or parts(d) <= 1 for o in orient(d)}
        yield lambda R=R, C=C, cells=cells, base=base, exp=exp: (f"directed_loop on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white")), GIO, lambda: exp(False))
        yield lambda R=R, C=C, cells=cells, exp=exp: (
            f"direction, fill_path, adjacent, directed_loop, connected on {R}x{C} ({len(cells)} cells)",
            _e(facts(cells) + "\n" + FREE_W, build(dr, "lurd"), build(fill, color="white", directed=True), build(ad, _type="loop_directed"), build(f, color="white"),
               build(conn, color="white", adj_type="loop_directed")), GIO, lambda: exp(True))
        if len(cells) > 9 or len(cells) < 2:
            continue
        ends = "{ path_start(R, C) } :- grid(R, C).\n{ path_end(R, C) } :- grid(R, C).\n"

        def exp2(cells=cells):
            out = set()
            for d in drawings(cells, lambda x: (0, 1, 2)):
                for o in orient(d):
                    give, take = {a[1:3] for a in o if a[0] == "grid_out"}, {a[1:3] for a in o if a[0] == "grid_in"}
                    out.add(o | atoms("white", on(d)) | atoms("path_start", give - take) | atoms("path_end", take - give))
            return out
        if len(cells) <= size(tier, 6, 9):
            yield lambda R=R, C=C, cells=cells, base=base + ends, exp2=exp2: (f"directed_loop with ends on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white", path=True)), GIO + [("path_start", 2), ("path_end", 2)], exp2)
        for s, e in itertools.permutations(cells, 2):
            def exp3(cells=cells, s=s, e=e):
                out = set()
                for d in drawings(cells, lambda x: (1,) if x in (s, e) else (0, 2)):
                    for o in orient(d):
                        if any(a[0] == "grid_out" and a[1:3] == s for a in o) and any(a[0] == "grid_in" and a[1:3] == e for a in o):
                            out.add(o | atoms("white", on(d)))
                return out
            yield lambda R=R, C=C, cells=cells, base=base + f"path_start({s[0]},{s[1]}). path_end({e[0]},{e[1]}).\n", exp3=exp3, s=s, e=e: (
                f"directed_loop from {s} to {e} on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white", path=True)), GIO, exp3)


def g_areas(tier):
    """The loop passes through an area so many times."""
    f, ab = L("count_area_pass"), rule("neighbor", "area_border")
    for R, C in ((2, 2), (2, 3), (3, 2), (2, 4)) + (((3, 3),) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        for div in divisions(R, C):
            for i, a in enumerate(div):
                yield from _area_cases(f, R, C, cells, div, i, a, (0, 1, 2))
    for R, C in ((3, 4), (4, 4)):
        cells = tuple(rect(R, C))
        shapes = [[(r, c) for r, c in cells if c < 2], [(r, c) for r, c in cells if (r, c) != (1, 1)], [(1, 1), (1, 2)], [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2)], [(r, c) for r, c in cells if r == 1],
                  [(r, c) for r, c in cells if r in (0, 2) or c == 0]]
        for a in shapes:
            yield from _area_cases(f, R, C, cells, None, 3, a, (0, 1, 2, 3))


def _area_cases(f, R, C, cells, div, i, a, targets):
    border = "".join(f'area_border({i},{r},{c},"{k}").' for r, c in a for k, (dr, dc) in OFF.items() if (r + dr, c + dc) not in a) + "\n#defined area_border/4.\n"
    for t in targets:
        def exp(cells=cells, a=a, t=t):
            out = set()
            for d in degree_cells(cells, (0, 2)):
                if sum((x in a) != (y in a) for x, y in d) == 2 * t:
                    out.add(line_atoms(d))
            return out
        yield lambda R=R, C=C, cells=cells, border=border, t=t, exp=exp, i=i, a=a: (f"count_area_pass({t}) of the area {sorted(a)} on {R}x{C}", _f(facts(cells) + "\n" + WHOLE + TWO + border, build(f, t, _id=i)), [GD], exp)


def inside(d, r, c):
    """The point at the lower right of (r, c) lies inside: lines crossed on the way to the left border."""
    return sum(((r, k), (r + 1, k)) in d for k in range(c + 1)) % 2 == 1


def g_inside(tier):
    f = L("separate_item_from_loop")
    for R, C in ((2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 4)) + (((4, 5), (5, 4)) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        faces = [(r, c) for r in range(R - 1) for c in range(C - 1)]
        loops = lambda cells=cells: degree_cells(cells, (0, 2))
        sets = [(set(), set())] + [({x}, set()) for x in faces] + [(set(), {x}) for x in faces] + ([({x}, {y}) for x in faces for y in faces if x != y][:: 1 if len(faces) <= 6 or tier == "thorough" else 5])
        for ins, outs in sets:
            def exp(loops=loops, ins=ins, outs=outs):
                return {line_atoms(d) for d in loops() if all(inside(d, *x) for x in ins) and not any(inside(d, *x) for x in outs)}
            yield lambda R=R, C=C, cells=cells, ins=ins, outs=outs, exp=exp: (
                f"faces {sorted(ins)} inside and {sorted(outs)} outside on {R}x{C}",
                _f(facts(cells) + facts(ins, "sheep") + facts(outs, "wolf") + "\n#defined sheep/2. #defined wolf/2.\n" + WHOLE + TWO, build(f, inside_item="sheep", outside_item="wolf")), [GD], exp)
        for kind in ("sheep", "wolf"):
            x = faces[-1]

            def exp1(loops=loops, kind=kind, x=x):
                return {line_atoms(d) for d in loops() if inside(d, *x) == (kind == "sheep")}
            yield lambda R=R, C=C, cells=cells, kind=kind, x=x, exp1=exp1: (
                f"only {kind} {x} named on {R}x{C}", _f(facts(cells) + facts([x], kind) + "\n" + WHOLE + TWO, build(f, inside_item=kind if kind == "sheep" else "", outside_item=kind if kind == "wolf" else "")), [GD], exp1)
        # symbols in cells the loop leaves free
        for k in (1, 2):
            for cs in itertools.combinations(cells, k):
                if k == 2 and tier != "thorough" and hash_(cs) % 3:
                    continue
                for kinds in itertools.product("io", repeat=k):
                    ins, outs = [x for x, y in zip(cs, kinds) if y == "i"], [x for x, y in zip(cs, kinds) if y == "o"]

                    def exp2(loops=loops, ins=ins, outs=outs, cs=cs):
                        return {line_atoms(d) for d in loops() if not on(d) & set(cs) and all(cell_in(d, *x) for x in ins) and not any(cell_in(d, *x) for x in outs)}
                    yield lambda R=R, C=C, cells=cells, ins=ins, outs=outs, cs=cs, exp2=exp2: (
                        f"cells {ins} inside and {outs} outside on {R}x{C}",
                        _f(facts(cells) + facts(ins, "wh") + facts(outs, "bl") + "\n#defined wh/2. #defined bl/2.\n" + WHOLE + TWO + "".join(f":- white({r}, {c}).\n" for r, c in cs), build(f, inside_item="wh", outside_item="bl")),
                        [GD], exp2)


def cell_in(d, r, c):
    return sum(((k, c), (k, c + 1)) in d for k in range(r)) % 2 == 1


SIGNS = {"lu": "lu", "ld": "ld", "ru": "ru", "rd": "rd", "lr": "lr", "ud": "ud"}


def sign(ds):
    """Name of a line through a cell, horizontal part first."""
    return "".join(sorted(ds, key="lrud".index))


def g_signs(tier):
    f, st, tu = L("loop_sign"), L("loop_straight"), L("loop_turning")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), [(3, 4, tuple(rect(3, 4)))] if tier == "thorough" else []):
        base = facts(cells) + "\n" + WHOLE + ATMOST
        yield lambda R=R, C=C, cells=cells, base=base: (
            f"loop_sign on {R}x{C} ({len(cells)} cells)", _f(base, build(f, color="white")), [GD, ("loop_sign", 3)],
            lambda: {line_atoms(d) | frozenset(("loop_sign", *x, sign(k)) for x, k in dirs(d).items() if len(k) == 2) for d in drawings(cells, lambda x: (0, 1, 2))})
        yield lambda R=R, C=C, cells=cells, base=base: (
            f"loop_straight on {R}x{C} ({len(cells)} cells)", _f(base, build(st, color="white")), [GD, ("straight", 2)],
            lambda: {line_atoms(d) | atoms("straight", [x for x, k in dirs(d).items() if sign(k) in ("lr", "ud")]) for d in drawings(cells, lambda x: (0, 1, 2))})
        yield lambda R=R, C=C, cells=cells, base=base: (
            f"loop_turning on {R}x{C} ({len(cells)} cells)", _f(base, build(tu, color="white")), [GD, ("turning", 2)],
            lambda: {line_atoms(d) | atoms("turning", [x for x, k in dirs(d).items() if len(k) == 2 and sign(k) not in ("lr", "ud")]) for d in drawings(cells, lambda x: (0, 1, 2))})
    # a colour that only some of the cells have
    cells = tuple(rect(2, 3))
    some = [(0, 0), (1, 1), (1, 2)]
    base = facts(cells) + facts(some, "pearl") + "\n" + WHOLE + ATMOST
    for fn, name in ((st, "straight"), (tu, "turning")):
        yield lambda fn=fn, name=name: (f"loop_{name} for cells of a colour", _f(base, build(fn, color="pearl")), [GD, (name, 2)], lambda: {
            line_atoms(d) | atoms(name, [x for x, k in dirs(d).items() if x in some and len(k) == 2 and (sign(k) in ("lr", "ud")) == (name == "straight")]) for d in drawings(cells, lambda x: (0, 1, 2))})


def g_segment(tier):
    f, sg = L("loop_segment"), L("loop_sign")
    mine = "".join(f'loop_sign(R, C, "{n}") :- white(R, C), grid_direction(R, C, "{n[0]}"), grid_direction(R, C, "{n[1]}").\n' for n in SIGNS)
    for R, C, cells in itertools.chain(((R, C, x) for R, C, x in grids(9, holes=False) if R > 1 and C > 1), big(tier, (2, 5), (5, 2), (3, 5))):
        for x in cells:
            def exp(cells=cells, x=x):
                out = set()
                for d in degree_cells(cells, (0, 2)):
                    nb, a = dirs(d), set(line_atoms(d))
                    if x in nb:
                        def run(k):
                            y = x
                            while True:
                                y = (y[0] + OFF[k][0], y[1] + OFF[k][1])
                                if k not in nb[y]:
                                    return y[0] if k in "ud" else y[1]
                        v, h = [run(k) for k in "ud" if k in nb[x]], [run(k) for k in "lr" if k in nb[x]]
                        a.add(("segment", *x, v[0], h[0], "T") if len(v) == 1 else ("segment", *x, *v, "V") if v else ("segment", *x, *h, "H"))
                    out.add(frozenset(a))
                return out
            yield lambda R=R, C=C, cells=cells, x=x, exp=exp: (f"loop_segment of {x} on {R}x{C}", _f(facts(cells) + "\n" + WHOLE + TWO + mine, build(f, x)), [GD, ("segment", 5)], exp)


def g_edges(tier):
    f = L("convert_direction_to_edge")
    for R, C, cells in grids(size(tier, 9, 12), holes=False):
        def exp(cells=cells):
            return {frozenset(("edge_top" if a[0] == b[0] else "edge_left", *a) for a, b in d) | line_atoms(d) for d in subsets(segments(cells))}
        yield lambda R=R, C=C, cells=cells, exp=exp: (f"lines as sides on {R}x{C}", _f(facts(cells) + "\n" + WHOLE, build(f)), [GD, ("edge_top", 2), ("edge_left", 2)], exp)
    # one atom at a time
    for R, C in ((1, 1), (2, 3), (4, 5)):
        for x in rect(R, C):
            for k in "lurd":
                e = {"r": ("edge_top", *x), "d": ("edge_left", *x)}.get(k)
                for name in ("grid_in", "grid_out"):
                    yield lambda R=R, C=C, x=x, k=k, e=e, name=name: (f"{name} {k} at {x} as a side", _f(facts(rect(R, C)) + f'\n{name}({x[0]},{x[1]},"{k}").\n#defined grid_in/3. #defined grid_out/3.\n', build(f, directed=True)),
                                                                      [("edge_top", 2), ("edge_left", 2)], {frozenset([e] if e else [])})
            for k in ("ul", "ur", "dl", "dr"):
                e = {"dr": ("edge_diag_down", *x), "ur": ("edge_diag_up", x[0] - 1, x[1])}.get(k)
                yield lambda R=R, C=C, x=x, k=k, e=e: (f"diagonal {k} at {x} as a side", _f(facts(rect(R, C)) + f'\ngrid_direction({x[0]},{x[1]},"{k}").\n', build(f, diagonal=True)),
                                                       [("edge_diag_down", 2), ("edge_diag_up", 2), ("edge_top", 2), ("edge_left", 2)], {frozenset([e] if e else [])})


def g_fill(tier):
    f, dr = CM("fill_path"), CM("direction")
    for R, C in ((1, 1), (1, 2), (2, 1), (1, 3)):
        cells = rect(R, C)
        for dd, ds in (("lurd", "lurd"), (["ul", "ur", "dl", "dr"], ["ul", "ur", "dl", "dr"])):
            if len(cells) == 3 and dd != "lurd" and tier != "thorough":
                continue

            def exp(cells=cells, ds=ds):
                per = [[frozenset()] + [frozenset({("white", *x)} | {("grid_direction", *x, k) for k in s}) for s in subsets(ds)] for x in cells]
                return {frozenset().union(*p) for p in itertools.product(*per)}
            yield lambda R=R, C=C, cells=cells, exp=exp, dd=dd: (f"fill_path, directions {dd} on {R}x{C}", _e(facts(cells) + "\n" + FREE_W, build(dr, dd), build(f, color="white")), [GD, W], exp)

        def exp2(cells=cells):
            per = [[frozenset()] + [frozenset({("white", *x)} | ({("grid_in", *x, i)} if i else set()) | ({("grid_out", *x, o)} if o else set())) for i in (None, *"lurd") for o in (None, *"lurd")] for x in cells]
            return {frozenset().union(*p) for p in itertools.product(*per)}
        yield lambda R=R, C=C, cells=cells, exp2=exp2: (f"fill_path with direction on {R}x{C}", _e(facts(cells) + "\n" + FREE_W, build(dr, "lurd"), build(f, color="white", directed=True)), GIO, exp2)


def g_reach(tier):
    """Cells on the same line as a source."""
    f, cnt = rule("reachable", "grid_src_color_connected"), rule("reachable", "count_reachable_src")
    ad = ('adj_loop(R, C, R, C + 1) :- grid_direction(R, C, "r"). adj_loop(R, C + 1, R, C) :- grid_direction(R, C, "r").\n'
          'adj_loop(R, C, R + 1, C) :- grid_direction(R, C, "d"). adj_loop(R + 1, C, R, C) :- grid_direction(R, C, "d").\n')
    for R, C, cells in grids(size(tier, 6, 9), holes=False, lo=2):
        for x in cells:
            for t in range(1, len(cells) + 1):
                def exp(cells=cells, x=x, t=t):
                    out = set()
                    for d in drawings(cells, lambda x: (0, 1, 2)):
                        g = {x}
                        while True:
                            new = {y for s in d if g & set(s) for y in s} - g
                            if not new:
                                break
                            g |= new
                        if len(g) == t:
                            out.add(line_atoms(d))
                    return out
                yield lambda R=R, C=C, cells=cells, x=x, t=t, exp=exp: (
                    f"a line of {t} cells from {x} on {R}x{C}", _e(facts(cells) + "\n" + WHOLE + ATMOST + ad, build(f, x, color="white", adj_type="loop"), build(cnt, t, x, color="white", adj_type="loop")), [GD], exp)


GROUPS = {"single": (g_single, 8), "ends": (g_path, 8), "crossing": (g_cross, 4), "directed": (g_directed, 8), "passes": (g_areas, 6), "inside": (g_inside, 10), "signs": (g_signs, 3), "segments": (g_segment, 8),
          "edges": (g_edges, 4), "fill": (g_fill, 2), "reach": (g_reach, 4)}


def task(name, k, tier):
    res = run_cases("C11", GROUPS[name][0](tier), k, GROUPS[name][1])
    res.names.add(name)
    return res


def tasks(tier, only=None):
    return [("nq.c11", "task", (n, k, tier)) for n, (_, p) in GROUPS.items() for k in range(p) if not only or n in only]
