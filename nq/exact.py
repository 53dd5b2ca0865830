"""Specification objects and the exact comparison of a board's answers with the reference model."""

import importlib
import itertools
import json

from . import env
from .board import Ans, Board, inflate, PREFIX, val
from .grid import G
from .runner import Result, key_of

CAP = 24 if env.TIER == "quick" else 600  # boards with more answers: CAP answers are decoded and judged, the others are counted
COUNT_CAP = 30000


class Spec:
    """Reference rules of one puzzle type.

    universe(b): every candidate answer that satisfies the clue-independent rules.  clues(b): the clues on the board as
    (place, value).  clue_ok(b, x, place, value): the clue rule.  joint(b, x): rules that involve several clues at once.
    draw(b, x): what the answer adds to the board.  parse(b): the candidate drawn on a solved board.
    """

    name = ""
    params = ({},)
    uses_rooms = False
    margin = (0, 0, 0, 0)

    def __init__(self):
        self._u = {}
        self._bits = {}

    # -- to be provided
    def universe(self, b):
        raise NotImplementedError

    def clues(self, b):
        return []

    def clue_ok(self, b, x, p, v):
        return True

    def joint(self, b, x):
        return True

    def optional(self, b, x):
        """The rules do not settle whether x (a degenerate drawing) is an answer: it is neither required nor forbidden."""
        return False

    def draw(self, b, x):
        raise NotImplementedError

    # -- evaluation
    def static_key(self, b):
        return (b.R, b.C, tuple(map(tuple, b.rooms)) if self.uses_rooms else None, json.dumps(b.param, sort_keys=True))

    def static(self, b):
        k = self.static_key(b)
        if k not in self._u:
            if len(self._u) > 8:
                self._u.clear()
                self._bits.clear()
            self._u[k] = list(self.universe(b))
        return self._u[k]

    def expected(self, b):
        L = self.static(b)
        k = self.static_key(b)
        bits = (1 << len(L)) - 1
        for p, v in self.clues(b):
            kk = (k, p, str(v))
            if kk not in self._bits:
                m = 0
                for i, x in enumerate(L):
                    if self.clue_ok(b, x, p, v):
                        m |= 1 << i
                if len(self._bits) > 20000:
                    self._bits.clear()
                self._bits[kk] = m
            bits &= self._bits[kk]
            if not bits:
                return []
        out = []
        while bits:
            low = bits & -bits
            x = L[low.bit_length() - 1]
            bits ^= low
            if self.joint(b, x):
                out.append(x)
        return out

    def board(self, R, C, param=None):
        m = self.margin(R, C) if callable(self.margin) else self.margin
        return Board(self.name, R, C, m, self.params[0] if param is None else param)

    # -- spaces: list of (label, generator function taking no argument)
    def spaces(self, tier):
        return []


def drawn(shade=(), num=None, sym=None, edge=(), line=()):
    """num: {(r, c): v}; sym: {(r, c): name}; line: {(r, c, d[, multiplicity])}."""
    return (frozenset(shade), {(r, c, 0): str(v) for (r, c), v in (num or {}).items()},
            {(r, c, 0): v for (r, c), v in (sym or {}).items()}, frozenset(edge),
            frozenset(x if len(x) == 4 else x + (1,) for x in line))


def _layers(b):
    n = [{b.point(int(i)): str(d[0]) for i, d in layer["number"].items()} for layer in (b.a, b.q)]
    s = []
    for layer in (b.a, b.q):
        o = {}
        for i, d in layer["symbol"].items():
            st = int("".join(map(str, d[0])), 2) if isinstance(d[0], list) else d[0]
            o[b.point(int(i))] = f"{d[1]}__{st}"
        s.append(o)
    return n, s


def merge(b, base, dr):
    (na, nq), (sa, sq), shade, edges, lines = base
    if b.name == "nondango":
        sym = {**sa, **sq, **dr[2]}
    else:
        sym = {**sa, **dr[2], **sq}
    return Ans(shade | dr[0], frozenset({**na, **dr[1], **nq}.items()), frozenset(sym.items()), edges | dr[3], lines | dr[4])


def base_of(b):
    n, s = _layers(b)
    return (tuple(n), tuple(s), frozenset(b.dark), frozenset(b.edges), frozenset(b.halves))


def observe(b, url, sent):
    """What a returned board shows; raises if anything but the answer layer changed."""
    parts = inflate(url[len(PREFIX):]).split("\n")
    if parts[:4] + parts[5:] != sent[:4] + sent[5:]:
        raise AssertionError("the returned board changes more than the answer layer")
    o = Board(b.name, b.R, b.C, b.margin, b.param)
    o.q = b.q
    from .board import expand
    o.a = json.loads(expand(parts[4]))
    n, s = _layers(o)
    if b.name == "nondango":  # the answer mark is drawn on top of the given circle
        sym = {**s[1], **s[0]}
    else:
        sym = {**s[0], **s[1]}
    return Ans(frozenset(o.dark), frozenset({**n[0], **n[1]}.items()), frozenset(sym.items()), frozenset(o.edges), frozenset(o.halves))


def show(b, x):
    """Readable difference of an observed answer from the given board."""
    base = base_of(b)
    e = merge(b, base, drawn())
    return {k: sorted(map(str, getattr(x, k) - getattr(e, k))) for k in x._fields if getattr(x, k) - getattr(e, k)}


def ask(b, limit):
    """(list of observed answers, raw number) or an error text."""
    parts = b.parts()
    url = b.url()
    try:
        urls = env.solve(b.name, url, b.param, limit)
    except TimeoutError:
        return None, "timeout"
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"
    out = []
    for u in urls:
        out.append(observe(b, u, parts))
    return out, None


def compare(prop, res, spec, b, label, exp=None, sound_only=False):
    exp = spec.expected(b) if exp is None else exp
    base = base_of(b)
    opt = {merge(b, base, spec.draw(b, x)) for x in exp if spec.optional(b, x)}
    want = {merge(b, base, spec.draw(b, x)) for x in exp} - opt
    limit = len(want) + len(opt) + 1 if len(want) <= CAP else CAP
    try:
        got, err = ask(b, limit)
        if got is not None and len(want) <= CAP and len(got) == limit and set(got) - opt < want:
            got, err = ask(b, 0)
    except AssertionError as e:
        got, err = None, str(e)
    res.add(boards=1, states=len(spec.static(b)) if exp is not None else 0, solver_runs=1)
    if err == "timeout":
        res.add(timeouts=1)
        return
    what = None
    if err is not None:
        what = f"a legal board is refused: {err}" if err[:5] != "the r" else err
    else:
        res.add(answers_compared=len(got))
        gs = set(got) - opt
        missing = set()
        if len(want) <= CAP and not sound_only:
            missing = want - gs
        elif len(want) <= COUNT_CAP and not sound_only and gs <= want:
            n = env.count_models(b.name, b.url(), b.param)
            res.add(boards_counted=1, answers_counted=n)
            if not len(want) <= n <= len(want) + len(opt):
                got, err = ask(b, 0)
                gs = set(got or []) - opt
                missing = want - gs
                if not missing and gs <= want:  # the plain count and the request path disagree
                    res.add(count_disagrees=1)
        extra = gs - want
        if extra:
            what = f"illegal answer returned: {show(b, sorted(extra, key=str)[0])}"
        elif missing:
            what = f"legal answer not returned: {show(b, sorted(missing, key=str)[0])}"
        res.add(**{"boards_above_cap" if len(want) > CAP else "boards_with_answers" if want else "boards_without_answer": 1})
        if len(want) == 1:
            res.add(unique_boards=1)
    if what:
        d = b.describe()
        res.violation(key_of(b.name, b.parts()[:2], b.q, b.a, b.param),
                      f"{b.name} {b.R}x{b.C} [{label}] given={json.dumps(d['given'])} rooms={len(b.rooms)} param={b.param}: {what}",
                      {"kind": "board", "puzzle": b.name, "url": b.url(), "param": b.param, "board": d, "label": label,
                       "expected": [show(b, w) for w in sorted(want, key=str)[:20]],
                       "got": [show(b, w) for w in sorted(set(got or []), key=str)[:20]], "error": err})
    elif len(res.samples) < 1 and 0 < len(want) < 4:
        res.samples.append({"board": b.describe(), "space": label, "answers": [show(b, w) for w in sorted(want, key=str)]})


# ---- tasks ----------------------------------------------------------------------------------------------------------
MODULES = {"C01": ["refs_shade_r"], "C02": ["refs_shade"], "C03": ["refs_loop"], "C04": ["refs_region"], "C05": ["refs_num"], "C06": ["refs_var"]}
_SPECS = {}


def specs(prop):
    if prop not in _SPECS:
        out = {}
        for m in MODULES[prop]:
            mod = importlib.import_module(f"nq.{m}")
            for cls in mod.SPECS:
                s = cls()
                assert s.name not in out, s.name
                out[s.name] = s
        _SPECS[prop] = out
    return _SPECS[prop]


def space_task(prop, name, label, part, parts, tier):
    env.load()
    spec = specs(prop)[name]
    res = Result()
    res.names.add(f"{name} [{label}]")
    gen = dict(spec.spaces(tier))[label]
    for i, b in enumerate(gen()):
        if i % parts != part:
            continue
        compare(prop, res, spec, b, label)
        if len(res.viol) >= 3:
            break
    return res


def example_task(prop, name):
    """The bundled boards: the bundled answer must satisfy the reference rules and the solver must return it."""
    env.load()
    from noqx import manager

    spec = specs(prop)[name]
    res = Result()
    for b in bundled(prop, name):
        param, url = b.param, b.source
        got, err = ask_raw(b, url, param)
        res.add(bundled_boards=1)
        if err:
            res.violation(key_of(name, url), f"{name}: bundled board fails: {err}", {"kind": "board", "puzzle": name, "url": url, "param": param})
            continue
        for s in got:
            ok, why = spec.judge(b, s)
            res.add(bundled_answers_judged=1)
            if not ok:
                res.violation(key_of(name, url), f"{name}: answer of a bundled board breaks the rules ({why})", {"kind": "board", "puzzle": name, "url": url, "param": param})
    return res


def ask_raw(b, url, param):
    try:
        urls = env.solve(b.name, url, param, 10)
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"
    return [Board.from_url(b.name, u, param) for u in urls], None


def build_tasks(prop, tier, only=None):
    out = []
    for name, s in specs(prop).items():
        if only and name not in only:
            continue
        for label, gen in s.spaces(tier):
            parts = getattr(s, "split", {}).get(label, 4)
            for k in range(parts):
                out.append(("nq.exact", "space_task", (prop, name, label, k, parts, tier)))
        if hasattr(s, "parse"):
            out.insert(0, ("nq.exact", "example_task", (prop, name)))
            n = 2 if tier == "quick" else 24
            out += [("nq.exact", "near_task", (prop, name, k, n, tier)) for k in range(n)]
    return out


def subsets(places, values, kmax, kmin=0):
    """All choices of kmin..kmax places with every combination of their values."""
    for k in range(kmin, kmax + 1):
        for ps in itertools.combinations(places, k):
            for vs in itertools.product(*[values(p) for p in ps]):
                yield list(zip(ps, vs))


# ---- bundled boards with one clue less or changed ---------------------------------------------------------------------
def bundled(prop, name):
    from noqx import manager
    spec = specs(prop)[name]
    for ex in manager.modules[name].examples:
        if "data" not in ex or ex.get("test") is False:
            continue
        param = dict(spec.params[0])
        for k, v in ex.get("config", {}).items():
            if k in manager.modules[name].parameters:
                param[k] = v if isinstance(v, bool) else str(v)
        b = Board.from_url(name, ex["data"], param)
        b.source = ex["data"]
        for layer in (b.q, b.a):
            for k in ("number", "symbol", "surface", "edge", "line", "sudoku"):
                layer.setdefault(k, {})
        yield b


def changes(b):
    """The board with each element of its problem layer removed, and each number one higher and one lower: (label, board, removed element)."""
    for kind in ("number", "symbol", "sudoku"):
        for i in list(b.q[kind]):
            c = b.copy()
            old = c.q[kind].pop(i)
            if b.name != "nonogram":   # a line without a clue is left open
                yield f"{kind} at {b.point(int(i)) if kind != 'sudoku' else i} removed", c, (kind, i, old)
            if kind != "symbol" and str(old[0]).isdigit():
                for d in (1, -1):
                    v = int(old[0]) + d
                    if v >= 1:   # 0 is judged on small boards, where it is a sensible clue
                        c = b.copy()
                        c.q[kind][i] = [str(v)] + list(old[1:])
                        yield f"{kind} at {b.point(int(i)) if kind != 'sudoku' else i} {v} instead of {old[0]}", c, None


BY_AREA = set("""aqre aquarium chocona cocktail cojun country detour dotchi doubleback factors haisu hakoiri hanare heyablock heyawake hinge juosan kazunori lits
magnets mannequin martini meander moonsun nanro norinori nothing onsen paintarea putteria railpool ripple shimaguni starbattle stostone sukororoom tilepaint
usoone yajilin_regions nuriuzu patchwork norinuri""".split())


def merged(b):
    """The board with two neighbouring areas made one, where at most one of them holds a clue."""
    rooms = b.rooms
    if len(rooms) < 2:
        return
    rid = b.room_id
    full = {rid.get(tuple(p[:2])) for p in [*b.text, *b.corner, *b.syms]}
    walls = {}
    for r, c in sorted(rid):
        for k, q in (("T", (r - 1, c)), ("L", (r, c - 1))):
            if q in rid and rid[q] != rid[(r, c)]:
                walls.setdefault(tuple(sorted((rid[q], rid[(r, c)]))), []).append(b.edge_key(k, r, c))
    for (x, y), keys in sorted(walls.items()):
        if (x in full and y in full) or any(k not in b.q["edge"] for k in keys):
            continue
        m = b.copy()
        for k in keys:
            del m.q["edge"][k]
        yield f"the areas of {rooms[x][0]} and {rooms[y][0]} made one", m, None


def spread(xs, n):
    return xs if len(xs) <= n else [xs[i * len(xs) // n] for i in range(n)]


def near_task(prop, name, part, parts, tier):
    """Boards one clue away from a bundled one: every answer satisfies the reference rules, and the bundled answer is still there when it may be."""
    env.load()
    from noqx.clingo import Config
    spec = specs(prop)[name]
    res = Result()
    th = tier == "thorough"
    full = 40 if th else 8
    for b in bundled(prop, name):
        first, err = ask_raw(b, b.url(), b.param)
        if err or len(first) != 1:
            continue
        todo = list(changes(b))
        todo = spread([x for x in todo if x[2]], 400 if th else 12) + spread([x for x in todo if not x[2]], 400 if th else 6)
        if name in BY_AREA:
            todo += spread(list(merged(b)), 100 if th else 4)
        for label, c, removed in todo[part::parts]:
            Config.time_limit = 20 if th else 5
            try:
                urls = env.solve(name, c.url(), c.param, full)
            except Exception:
                res.add(near_refused_or_late=1)
                continue
            finally:
                Config.time_limit = 120
            res.add(near_boards=1, solver_runs=1)
            seen = []
            what = None
            for u in urls:
                s = Board.from_url(name, u, c.param)
                res.add(answers_compared=1)
                ok, why = spec.judge(c, s)
                if not ok:
                    what = f"illegal answer returned ({why}): {show(c, observe(c, u, c.parts()))}"
                    break
                seen.append(spec.parse(s))
            if what is None and removed and len(urls) < full:
                for move in (False, True):
                    o = c.copy()
                    o.a = json.loads(json.dumps(first[0].a))
                    if move:
                        o.a[removed[0]][removed[1]] = removed[2]
                    o = Board.from_url(name, o.url(), c.param)
                    try:
                        ok = spec.judge(c, o)[0]
                    except Exception:
                        ok = False
                    if ok:
                        res.add(near_bundled_answers=1)
                        if spec.parse(o) not in seen:
                            what = "the answer of the bundled board is not returned although it is legal"
                        break
            if what:
                res.violation(key_of(name, "near", c.url()), f"{name}: bundled board {c.R}x{c.C} with {label}: {what}",
                              {"kind": "board", "puzzle": name, "url": c.url(), "param": c.param, "label": label})
                if len(res.viol) >= 3:
                    return res
    return res
