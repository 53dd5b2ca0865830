"""C13: the shared counting, filling and neighbourhood rules hold exactly of the fillings for which their statement is true."""

import itertools

from .c10 import FREE, OPS, SB, SE, _e, _f, _p, adj, blacks, colours, divisions, free_edges, j
from .rules import OFF, atoms, border_sides, build, edge_atoms, facts, grids, groups, near, open_pair, rect, rule, run_cases, sides, subsets

LEVEL = "model_checking"
MAPPING = {"states": "states", "transitions": "models", "traces_validated_against_impl": "rule_runs"}
ASSUME = ["the generated program is run by clingo with free choices for colours, numbers and sides", "unique_num for rows and for columns is judged together: every solver asks for both"]
CM, N_ = lambda fn: rule("common", fn), lambda fn: rule("neighbor", fn)
NUM = ("number", 3)
TARGETS = list(range(0, 5)) + [(o, n) for o in OPS for n in (0, 1, 2)]


def size(tier, q, t):
    return t if tier == "thorough" else q


def meets(n, target):
    return n == target if isinstance(target, int) else OPS[target[0]](n, target[1])


def g_grid(tier):
    f, ar, ed = CM("grid"), CM("area"), CM("edge")
    for R, C in itertools.product(range(1, 6), repeat=2):
        yield f"grid({R}, {C})", build(f, R, C), [("grid", 2)], {atoms("grid", rect(R, C))}
        yield f"grid({R}, {C}) with holes allowed", _f("#defined hole/2.\n", build(f, R, C, with_holes=True)), [("grid", 2)], {atoms("grid", rect(R, C))}
        if R * C <= 6:
            yield f"grid({R}, {C}) with holes anywhere", _f(f"{{ hole(0..{R - 1}, 0..{C - 1}) }}.\n", build(f, R, C, with_holes=True)), [("grid", 2), ("hole", 2)], {
                atoms("hole", h) | atoms("grid", set(rect(R, C)) - h) for h in subsets(rect(R, C))}
            for k, cells in enumerate(list(subsets(rect(R, C)))[1:20]):
                yield f"area({k}, {sorted(cells)})", build(ar, k, tuple(cells)), [("area", 3)], {frozenset(("area", k, *x) for x in cells)}
        if len(sides(rect(R, C))) <= 12:
            b = frozenset(border_sides(R, C))
            yield lambda R=R, C=C, b=b: (f"edge({R}, {C})", build(ed, R, C), SE, {edge_atoms(w | b) for w in subsets(sides(rect(R, C)))})
    # a bigger board: the sides there are, one at a time
    for R, C in ((4, 4), (3, 6), (6, 2)):
        b = frozenset(border_sides(R, C))
        one = ":- #count { R, C, 1 : edge_left(R, C); R, C, 2 : edge_top(R, C) } > %d.\n" % (len(b) + 2)
        yield lambda R=R, C=C, b=b, one=one: (f"edge({R}, {C}), two sides", _f(one, build(ed, R, C)), SE, {edge_atoms(b | set(w)) for k in (0, 1, 2) for w in itertools.combinations(sides(rect(R, C)), k)})


def g_shade(tier):
    one, many, inv = CM("shade_c"), CM("shade_cc"), CM("invert_c")
    for R, C, cells in grids(size(tier, 9, 11)):
        yield lambda R=R, C=C, cells=cells: (f"shade_c on {R}x{C} ({len(cells)} cells)", _f(facts(cells) + "\n", build(one, color="gray")), [("gray", 2)], {atoms("gray", b) for b in subsets(cells)})
        yield lambda R=R, C=C, cells=cells: (f"invert_c on {R}x{C} ({len(cells)} cells)", _p(build(inv, color="black", invert="white"), cells), SB + [("white", 2)], {atoms("black", b) | atoms("white", set(cells) - b) for b in subsets(cells)})
    for R, C, cells in grids(5, holes=True):
        for names in (["black", "white"], ["gray", "white", "x__1"], ["a", "b", "c", "d"]):
            yield lambda R=R, C=C, cells=cells, names=names: (f"shade_cc({names}) on {R}x{C} ({len(cells)} cells)", _f(facts(cells) + "\n", build(many, names)), [(n, 2) for n in names], {
                frozenset((n, *x) for n, x in zip(p, cells)) for p in itertools.product(names, repeat=len(cells))})


def g_fill(tier):
    """Every cell one of the values (or the colour), given numbers included."""
    f = CM("fill_num")
    ranges = [[1], [0], [1, 2], [1, 2, 3], [0, 1, 2], [1, 3], [3, 1], [1, 2, 4], [0, 2, 3], [2, 2, 3], [1, 4, 5, 6, 9], [7, 5, 6], [-1, 0, 2], range(1, 4), range(0, 2), {3, 5}]
    for R, C, cells in grids(4, holes=True):
        for rg in ranges:
            vals = sorted(set(rg))
            if len(vals) ** len(cells) > 300:
                continue
            for colour in (None, "gray"):
                gives = [None, (cells[0], vals[-1]), (cells[-1], vals[0]), (cells[0], max(vals) + 1), (cells[-1], min(vals) - 1), (cells[0], vals[0] + 1)]
                for g in gives:
                    def exp(cells=cells, vals=vals, colour=colour, g=g):
                        out = set()
                        for p in itertools.product(vals + ([None] if colour else []), repeat=len(cells)):
                            if g is None or p[cells.index(g[0])] == g[1]:
                                out.add(frozenset(("gray", *x) if v is None else ("number", *x, v) for x, v in zip(cells, p)))
                        return out
                    gf = f"number({g[0][0]},{g[0][1]},{g[1]}).\n" if g else ""
                    yield lambda R=R, C=C, cells=cells, rg=rg, colour=colour, g=g, gf=gf, exp=exp: (
                        f"fill_num({list(rg)}, colour {colour}), given {g}, on {R}x{C} ({len(cells)} cells)", _f(facts(cells) + "\n" + gf, build(f, _range=rg, **({"color": colour} if colour else {}))), [NUM, ("gray", 2)], exp)
                if colour:
                    x = cells[0]
                    yield lambda R=R, C=C, cells=cells, rg=rg, x=x, vals=vals: (
                        f"fill_num({list(rg)}, colour gray), {x} gray, on {R}x{C} ({len(cells)} cells)", _f(facts(cells) + "\n" + f"gray({x[0]},{x[1]}).\n", build(f, _range=rg, color="gray")), [NUM, ("gray", 2)],
                        {frozenset(("gray", *y) if v is None else ("number", *y, v) for y, v in zip(cells, p)) for p in itertools.product(vals + [None], repeat=len(cells)) if p[0] is None})
    for R, C in ((1, 3), (2, 2), (2, 3)):
        cells = tuple(rect(R, C))
        for div in divisions(R, C):
            def exp2(div=div, colour=None):
                per = [(x, list(range(1, len(a) + 1)) + ([None] if colour else [])) for a in div for x in a]
                return {frozenset(("gray", *x) if v is None else ("number", *x, v) for (x, _), v in zip(per, p)) for p in itertools.product(*[v for _, v in per])}
            af = "".join(facts([(i, *x) for x in a], "area") for i, a in enumerate(div)) + "\n"
            n = 1
            for a in div:
                n *= (len(a) + 1) ** len(a)
            if n > 30000:
                continue
            for colour in (None, "gray"):
                yield lambda R=R, C=C, cells=cells, div=div, af=af, exp2=exp2, colour=colour: (
                    f"fill_num by areas {[len(a) for a in div]} of {R}x{C}, colour {colour}",
                    _e(facts(cells) + "\n" + af, *[build(f, _range=range(1, len(a) + 1), _type="area", _id=i, **({"color": colour} if colour else {})) for i, a in enumerate(div)]), [NUM, ("gray", 2)], lambda: exp2(colour=colour))


def nums(cells, k):
    return facts(cells) + f"\n{{ number(R, C, 1..{k}) }} = 1 :- grid(R, C).\n"


def fillings(cells, k):
    for p in itertools.product(range(1, k + 1), repeat=len(cells)):
        yield dict(zip(cells, p))


def na(f):
    return frozenset(("number", *x, v) for x, v in f.items())


def g_unique(tier):
    f = CM("unique_num")
    for R, C, k in ((1, 3, 3), (3, 1, 3), (2, 2, 3), (2, 3, 3), (3, 2, 3)) + (((3, 3, 3),) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        for colour in ("grid", "black", "not black"):
            def exp(cells=cells, k=k, colour=colour, of=None):
                of = of or (lambda x: [("r", x[0]), ("c", x[1])])
                out = set()
                for v in fillings(cells, k):
                    for b in ([frozenset()] if colour == "grid" else subsets(cells)):
                        col = cells if colour == "grid" else colours(cells, b, colour)
                        if all(not (v[x] == v[y] and set(of(x)) & set(of(y))) for x, y in itertools.combinations(sorted(col), 2)):
                            out.add(na(v) | atoms("black", b))
                return out
            base = nums(cells, k) + ("" if colour == "grid" else FREE)
            if len(cells) <= 4 or colour == "grid":
                yield lambda R=R, C=C, base=base, colour=colour, exp=exp: (f"numbers of {colour} cells differ in rows and columns of {R}x{C}", _e(base, build(f, color=colour, _type="row"), build(f, color=colour, _type="col")), [NUM] + SB, exp)
            for div in divisions(R, C):
                if len(cells) > 4 and (colour != "grid" or len(cells) > 6):
                    continue
                af = "".join(facts([(i, *x) for x in a], "area") for i, a in enumerate(div)) + "\n"
                of = {x: i for i, a in enumerate(div) for x in a}
                yield lambda R=R, C=C, base=base, colour=colour, exp=exp, af=af, of=of, div=div: (f"numbers of {colour} cells differ in the areas {[len(a) for a in div]} of {R}x{C}",
                                                                                               _e(base + af, build(f, color=colour, _type="area")), [NUM] + SB, lambda: exp(of=lambda x: [of[x]]))
    if tier != "thorough":
        cells = tuple(rect(3, 3))
        yield lambda cells=cells: ("numbers differ in rows and columns of 3x3", _e(nums(cells, 3), build(f, color="grid", _type="row"), build(f, color="grid", _type="col")), [NUM],
                                   {na(v) for v in fillings(cells, 3) if all(v[x] != v[y] for x, y in itertools.combinations(cells, 2) if x[0] == y[0] or x[1] == y[1])})


def g_count(tier):
    f = CM("count")
    for R, C, cells in itertools.chain(grids(6, holes=False), [(3, 3, tuple(rect(3, 3))), (3, 3, tuple(x for x in rect(3, 3) if x != (1, 1)))], [(3, 4, tuple(rect(3, 4)))] if tier == "thorough" else []):
        for colour in ("black", "not black"):
            for target in TARGETS + [5, 7, ("ge", 4), ("le", 5)]:
                lines = [("grid", None, set(cells))] if colour == "black" else []
                lines += [("row", r, {x for x in cells if x[0] == r}) for r in range(R)] + [("col", c, {x for x in cells if x[1] == c}) for c in range(C)] if colour == "black" else []
                for kind, i, where in lines:
                    yield lambda R=R, C=C, cells=cells, colour=colour, target=target, kind=kind, i=i, where=where: (
                        f"{target} {colour} cells in {kind} {i} of {R}x{C} ({len(cells)} cells)", _p(build(f, target, color=colour, _type=kind, **({} if i is None else {"_id": i})), cells), SB,
                        lambda: blacks(cells, lambda b: meets(len(colours(cells, b, colour) & where), target)))
                if colour == "black" and len(cells) == R * C:
                    for kind in ("row", "col"):
                        yield lambda R=R, C=C, cells=cells, target=target, kind=kind: (
                            f"{target} black cells in every {kind} of {R}x{C}", _p(build(f, target, color="black", _type=kind), cells), SB,
                            lambda: blacks(cells, lambda b: all(meets(sum((x[0] if kind == "row" else x[1]) == i for x in b), target) for i in range(R if kind == "row" else C))))
    for R, C in ((1, 3), (2, 2), (2, 3)):
        cells = tuple(rect(R, C))
        for div in divisions(R, C):
            af = "".join(facts([(i, *x) for x in a], "area") for i, a in enumerate(div)) + "\n"
            for i, a in enumerate(div):
                for colour in ("black", "not black"):
                    for target in (0, 1, 2, 3, ("gt", 0), ("le", 1), ("ne", 1)):
                        yield lambda R=R, C=C, cells=cells, af=af, i=i, a=a, target=target, colour=colour, div=div: (
                            f"{target} {colour} cells in area {i} of {[len(x) for x in div]} on {R}x{C}", _p(build(f, target, color=colour, _type="area", _id=i), cells, more=af), SB,
                            lambda: blacks(cells, lambda b: meets(len(colours(cells, b, colour) & set(a)), target)))


def g_around(tier):
    f, e = N_("count_adjacent"), N_("count_adjacent_edges")
    for R, C, cells in itertools.chain(grids(6, holes=False), [(3, 3, tuple(rect(3, 3)))]):
        for src in cells:
            for t in (4, 8, "x"):
                for target in TARGETS + ([6, 8] if t == 8 else []):
                    if len(cells) == 9 and not isinstance(target, int) and target[1] != 2 and tier != "thorough":
                        continue
                    for own in (False, True):
                        if own and len(cells) == 9 and src != (1, 1):
                            continue
                        more = f"adj_{t}(R, C, R, C) :- grid(R, C).\n" if own else ""

                        def ok(b, src=src, t=t, target=target, own=own):
                            return meets(sum(near(x, src, t) and x != src or own and x == src for x in b), target)
                        yield lambda R=R, C=C, cells=cells, src=src, t=t, target=target, more=more, ok=ok, own=own: (
                            f"{target} black cells around {src} ({t}{', itself too' if own else ''}) on {R}x{C}", _p(build(f, target, src, color="black", adj_type=t), cells, t, more=more), SB, lambda: blacks(cells, ok))
                    if len(cells) <= 4:
                        yield lambda R=R, C=C, cells=cells, src=src, t=t, target=target: (
                            f"{target} not black cells around {src} ({t}) on {R}x{C}", _p(build(f, target, src, color="not black", adj_type=t), cells, t), SB,
                            lambda: blacks(cells, lambda b: meets(sum(near(x, src, t) and x != src for x in set(cells) - b), target)))
    for R, C in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3)):
        cells = tuple(rect(R, C))
        free, s, b = free_edges(cells, R, C)
        for src in cells:
            around = {("left", *src), ("left", src[0], src[1] + 1), ("top", *src), ("top", src[0] + 1, src[1])}
            for target in range(0, 5) if len(cells) == 9 else TARGETS + [("ge", 3), ("lt", 4)]:
                if len(cells) == 9 and src not in ((0, 0), (1, 1), (2, 1)) and tier != "thorough":
                    continue
                yield lambda R=R, C=C, free=free, s=s, b=b, src=src, around=around, target=target: (
                    f"{target} sides around {src} on {R}x{C}", _f(free, build(e, target, src)), SE, lambda: {edge_atoms(w | b) for w in subsets(s) if meets(len((w | b) & around), target)})
        # without the borders
        bare = facts(cells) + "\n" + "".join(f"{{ edge_{d}({r}, {c}) }}.\n" for d, r, c in sides(cells) + list(b))
        if len(sides(cells)) + len(b) <= 12:
            for src in cells:
                for target in range(0, 5):
                    around = {("left", *src), ("left", src[0], src[1] + 1), ("top", *src), ("top", src[0] + 1, src[1])}
                    yield lambda R=R, C=C, bare=bare, s=s, b=b, src=src, around=around, target=target: (
                        f"{target} sides around {src} on {R}x{C}, borders free", _f(bare, build(e, target, src)), SE, lambda: {edge_atoms(w) for w in subsets(s + sorted(b)) if meets(len(w & around), target)})


def g_avoid(tier):
    f, n, same = N_("avoid_adjacent_color"), N_("avoid_num_adjacent"), N_("area_same_color")
    for R, C, cells in itertools.chain(grids(size(tier, 9, 12)), [(3, 4, tuple(rect(3, 4)))]):
        for t in (4, 8, "x"):
            for colour in ("black", "not black"):
                if colour == "not black" and len(cells) != R * C:
                    continue
                yield lambda R=R, C=C, cells=cells, t=t, colour=colour: (
                    f"no two {colour} cells adjacent ({t}) on {R}x{C} ({len(cells)} cells)", _p(build(f, color=colour, adj_type=t), cells, t), SB,
                    lambda: blacks(cells, lambda b: not any(near(x, y, t) for x, y in itertools.combinations(sorted(colours(cells, b, colour)), 2))))
    for R, C, cells in grids(6):
        if len(cells) > 6:
            continue
        for t in (4, 8, "x"):
            yield lambda R=R, C=C, cells=cells, t=t: (
                f"no two adjacent numbers equal ({t}) on {R}x{C} ({len(cells)} cells)", _e(nums(cells, 3) + adj(t), build(n, adj_type=t)), [NUM],
                lambda: {na(v) for v in fillings(cells, 3) if not any(near(x, y, t) and v[x] == v[y] for x, y in itertools.combinations(cells, 2))})
    for R, C in ((1, 4), (2, 2), (2, 3), (3, 2)):
        cells = tuple(rect(R, C))
        for div in divisions(R, C):
            af = "".join(facts([(i, *x) for x in a], "area") for i, a in enumerate(div)) + "\n"
            yield lambda R=R, C=C, cells=cells, af=af, div=div: (f"areas {[len(a) for a in div]} of {R}x{C} each of one colour", _p(build(same, color="black"), cells, more=af), SB,
                                                                  lambda: blacks(cells, lambda b: all(not set(a) & b or set(a) <= b for a in div)))


def g_border(tier):
    """The sides of an area."""
    f = N_("area_border")
    if f is None:
        return
    from noqx.puzzle import Direction, Point
    for R, C in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if tier == "thorough" else ()):
        cells = tuple(rect(R, C))
        for w in subsets(sides(cells)):
            walls = w | frozenset(border_sides(R, C))
            ed = {Point(r, c, Direction.LEFT if d == "left" else Direction.TOP): True for d, r, c in sorted(walls)}
            for i, a in enumerate(groups(cells, open_pair(walls))):
                want = frozenset(("area_border", i, r, c, k) for r, c in a for k, s in (("l", ("left", r, c)), ("r", ("left", r, c + 1)), ("u", ("top", r, c)), ("d", ("top", r + 1, c))) if s in walls)
                yield lambda R=R, C=C, a=a, i=i, ed=ed, want=want, w=w: (f"area_border of {sorted(a)} on {R}x{C} with the sides {sorted(w)}", build(f, _id=i, src_cells=tuple(a), edge=ed), [("area_border", 4)], {want})


def g_view(tier):
    f = rule("variety", "yaji_count")
    for R, C, cells in itertools.chain(grids(6, holes=False), [(3, 3, tuple(rect(3, 3))), (2, 4, tuple(rect(2, 4)))] + ([(3, 4, tuple(rect(3, 4)))] if tier == "thorough" else [])):
        for src in cells:
            for d, k in enumerate("ulrd"):
                ray = set()
                x = (src[0] + OFF[k][0], src[1] + OFF[k][1])
                while x in cells:
                    ray.add(x)
                    x = (x[0] + OFF[k][0], x[1] + OFF[k][1])
                for target in range(0, len(ray) + 2):
                    for un in (True, False):
                        def ok(b, src=src, ray=ray, target=target, un=un):
                            return not un and src in b or len(b & ray) == target
                        yield lambda R=R, C=C, cells=cells, src=src, d=d, target=target, un=un, ok=ok: (
                            f"{target} black cells from {src} in direction {d} on {R}x{C}, unshaded {un}", _p(build(f, target, src, d, color="black", unshade_clue=un), cells), SB, lambda: blacks(cells, ok))


GROUPS = {"grid": (g_grid, 2), "colours": (g_shade, 3), "numbers": (g_fill, 4), "unique": (g_unique, 6), "count": (g_count, 6), "around": (g_around, 8), "apart": (g_avoid, 4), "borders": (g_border, 2), "rays": (g_view, 4)}


def task(name, k, tier):
    res = run_cases("C13", GROUPS[name][0](tier), k, GROUPS[name][1])
    res.names.add(name)
    return res


def tasks(tier, only=None):
    return [("nq.c13", "task", (n, k, tier)) for n, (_, p) in GROUPS.items() for k in range(p) if not only or n in only]
