"""Decides one rule generator: every model of the generated logic program, projected to the player's choices, against a plain predicate over all choices.

A case is (label, program, shown predicates, expected): `expected` is the set of models as frozensets of atoms ("name", arg, ...).
The parts of a program that are not under test (grid facts, free choices, given facts) are written here and not taken from the repository.
"""

import itertools

from . import env
from .runner import Result, key_of

SKIP = "skip"


def facts(cells, name="grid"):
    return "".join(f"{name}({','.join(map(str, x))})." for x in cells)


def rect(R, C):
    return [(r, c) for r in range(R) for c in range(C)]


def grids(n, holes=True, lo=1):
    """All rectangles of at most n cells (both ways round), and the larger ones with one or two holes."""
    for R in range(1, n + 1):
        for C in range(1, n + 1):
            if lo <= R * C <= n:
                yield R, C, tuple(rect(R, C))
    if holes:
        for R, C in ((2, 2), (2, 3), (3, 2), (3, 3)):
            if R * C <= n + 1:
                for h in rect(R, C):
                    yield R, C, tuple(x for x in rect(R, C) if x != h)
        if n >= 8:
            for hh in itertools.combinations(rect(3, 3), 2):
                yield 3, 3, tuple(x for x in rect(3, 3) if x not in hh)


def subsets(xs):
    xs = list(xs)
    for k in range(1 << len(xs)):
        yield frozenset(x for i, x in enumerate(xs) if k >> i & 1)


def near(a, b, t):
    dr, dc = abs(a[0] - b[0]), abs(a[1] - b[1])
    if t == 4:
        return dr + dc == 1
    if t == "x":
        return dr == dc == 1
    return max(dr, dc) == 1


def groups(cells, joined):
    """Connected groups of cells under joined(a, b)."""
    left, out = set(cells), []
    while left:
        todo = [left.pop()]
        g = set(todo)
        while todo:
            a = todo.pop()
            for b in [x for x in left if joined(a, x)]:
                left.discard(b)
                g.add(b)
                todo.append(b)
        out.append(frozenset(g))
    return out


def reach(src, cells, joined):
    seen, todo = set(src), list(src)
    while todo:
        a = todo.pop()
        for b in cells:
            if b not in seen and joined(a, b):
                seen.add(b)
                todo.append(b)
    return seen


def atoms(name, cells):
    return frozenset((name, *x) for x in cells)


def sides(cells):
    """Sides between two cells of the grid: ('left' or 'top', r, c)."""
    s = set(cells)
    return [("left", r, c) for r, c in cells if (r, c - 1) in s] + [("top", r, c) for r, c in cells if (r - 1, c) in s]


def parted(a, b, walls):
    """Whether the side between two orthogonal neighbours is drawn."""
    (r, c), (r1, c1) = sorted((a, b))
    return ("left", r1, c1) in walls if r == r1 else ("top", r1, c1) in walls


def open_pair(walls):
    return lambda a, b: near(a, b, 4) and not parted(a, b, walls)


def edge_atoms(walls):
    return frozenset((f"edge_{d}", r, c) for d, r, c in walls)


def border_sides(R, C):
    return [("left", r, c) for r in range(R) for c in (0, C)] + [("top", r, c) for c in range(C) for r in (0, R)]


OFF = {"l": (0, -1), "r": (0, 1), "u": (-1, 0), "d": (1, 0)}
OPP = {"l": "r", "r": "l", "u": "d", "d": "u"}


def segments(cells):
    s = set(cells)
    return [((r, c), (r, c + 1)) for r, c in cells if (r, c + 1) in s] + [((r, c), (r + 1, c)) for r, c in cells if (r + 1, c) in s]


def dirs(drawing):
    """Half lines of a drawing (set of segments): {(r, c): set of directions}."""
    out = {}
    for a, b in drawing:
        d = "r" if a[0] == b[0] else "d"
        out.setdefault(a, set()).add(d)
        out.setdefault(b, set()).add(OPP[d])
    return out


def line_atoms(drawing, name="grid_direction"):
    return frozenset((name, *x, d) for x, ds in dirs(drawing).items() for d in ds)


def models(program, shown):
    from clingo import MessageCode, SymbolType
    from clingo.control import Control

    def value(a):
        if a.type == SymbolType.Number:
            return a.number
        if a.type == SymbolType.String:
            return a.string
        return tuple(value(x) for x in a.arguments) if a.arguments else a.name
    ctl = Control(["--models=0", "--project=show", "--warn=none"], logger=lambda *_: None)
    ctl.add("base", [], program + "".join(f"\n#defined {p}/{n}.\n#show {p}/{n}." for p, n in shown))
    ctl.ground([("base", [])])
    out = set()
    with ctl.solve(yield_=True) as h:
        for m in h:
            out.add(frozenset((s.name, *map(value, s.arguments)) for s in m.symbols(shown=True)))
    return out


def rule(modname, fn):
    """The rule generator, or None when the tree has none by that name."""
    import importlib
    env.load()
    try:
        return getattr(importlib.import_module(f"noqx.rule.{modname}"), fn, None)
    except ImportError:
        return None


def build(f, *a, **k):
    """Calls a rule generator; None when it has another signature."""
    import inspect
    if f is None:
        return None
    try:
        inspect.signature(f).bind(*a, **k)
    except TypeError:
        return None
    return f(*a, **k)


def named(text, name):
    """The text, or None when it no longer defines a predicate of that name (the relation is then not looked at)."""
    return text if text is not None and f"{name}(" in text else None


def show(m):
    return " ".join(f"{a[0]}({','.join(map(str, a[1:]))})" for a in sorted(m, key=str)) or "nothing"


def check(prop, res, label, program, shown, expected):
    """Compares; returns False after a violation."""
    if not isinstance(expected, (set, frozenset)):
        expected = set(expected)
    try:
        got = models(program, shown)
    except RuntimeError as e:
        res.violation(key_of(prop, label), f"{label}: the program is refused by the engine ({e})", {"kind": "rule", "label": label, "program": program})
        return False
    res.add(rule_runs=1, states=len(expected | got), models=len(got))
    if len(res.samples) < 1 and len(expected) > 1:
        res.samples.append(f"{label}: {len(expected)} models, such as {show(min(expected, key=lambda x: (-len(x), str(sorted(x, key=str)))))}"[:300])
    if got == expected:
        return True
    extra, missing = sorted(got - expected, key=len), sorted(expected - got, key=len)
    what = f"{len(extra)} not meant: {show(extra[0])}" if extra else f"{len(missing)} lost: {show(missing[0])}"
    res.violation(key_of(prop, label), f"{label}: {what} ({len(got)} models, {len(expected)} expected)",
                  {"kind": "rule", "label": label, "program": program, "extra": [show(x) for x in extra[:5]], "missing": [show(x) for x in missing[:5]]})
    return False


def run_cases(prop, cases, k, parts):
    """Every case of a generator whose number is k modulo parts; three violations end a task."""
    res = Result()
    for j, case in enumerate(cases):
        if j % parts != k or case is None:
            continue
        label, program, shown, expected = case() if callable(case) else case
        if program is None:
            res.add(absent_rules=1)
            continue
        check(prop, res, label, program, shown, expected() if callable(expected) else expected)
        if len(res.viol) >= 2:
            return res
    return res
