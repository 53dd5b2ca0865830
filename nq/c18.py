"""C18: every corrupted request gets an error status with a text, never a wrong answer, and the server goes on serving."""

import itertools
import json
import os

from . import env, exact, server, supply
from .board import ABBR, Board, PREFIX, abbreviate, deflate
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "requests", "transitions": "requests_after", "traces_validated_against_impl": "statuses_compared"}
ASSUME = ["the application is called through its ASGI interface in this process, from a scratch copy of the tree",
          "which boards a type must refuse is listed in nq/refusals.json: elements of a kind or at a place the type has no meaning for"]
REF = os.path.join(os.path.dirname(__file__), "refusals.json")
VALID = {}


def payload(b):
    return {"puzzle_name": b.name, "puzzle": b.url(), "param": dict(b.param)}


# ---- corruptions of the request body: (label, function payload -> bytes or object, must the result be an error)
def bodies():
    out = []
    raw = {"empty body": b"", "blank": b"  ", "not JSON": b"hello", "truncated": None, "null": b"null", "list": b"[]", "number": b"17", "string": b'"x"', "true": b"true",
           "bad UTF-8": b"\xff\xfe{}", "empty object": b"{}", "two objects": b"{}{}", "deep list": b"[" * 3000, "deep object": b'{"a":' * 3000, "NaN": b"NaN", "nul byte": b"\x00", "BOM": b"\xef\xbb\xbf{}"}
    for k, v in raw.items():
        out.append((k, (lambda p: json.dumps(p).encode()[:-7]) if v is None else (lambda p, v=v: v), True))
    for f in ("puzzle_name", "puzzle", "param"):
        out.append((f"{f} missing", lambda p, f=f: {k: v for k, v in p.items() if k != f}, f != "param"))
        for label, v in (("null", None), ("0", 0), ("1.5", 1.5), ("true", True), ("[]", []), ("{}", {}), ("''", ""), ("'x'", "x"), ("['a']", ["a"])):
            if f == "param" and v in (None, {}) and not isinstance(v, bool):
                out.append((f"{f} {label}", lambda p, f=f, v=v: {**p, f: v}, False))
            else:
                out.append((f"{f} {label}", lambda p, f=f, v=v: {**p, f: v}, f != "param"))
    for n in ("nosuch", "Akari", "AKARI", "../main", "__init__", "akari.py", "solver.akari", " akari", "akari ", "noqx", "re", "os", "é"):
        out.append((f"puzzle_name {n!r}", lambda p, n=n: {**p, "puzzle_name": n}, True))
    out.append(("extra field", lambda p: {**p, "extra": 1, "models": 0}, False))
    out.append(("fields renamed", lambda p: {"name": p["puzzle_name"], "data": p["puzzle"], "param": {}}, True))
    return out


# ---- corruptions of the stored board: function Board -> string
def boards(tier):
    out = []

    def parts_edit(f):
        def g(b):
            p = b.parts()
            p = f(p) or p
            return PREFIX + deflate("\n".join(p))
        return g

    def setp(i, v):
        def f(p):
            p[i] = v(p[i]) if callable(v) else v
        return parts_edit(f)

    def q_edit(layer, f):
        def g(b):
            o = b.copy()
            f(getattr(o, layer))
            return o.url()
        return g
    out.append(("no prefix", lambda b: b.url()[len(PREFIX):], True))
    out.append(("other prefix", lambda b: "m=solve&p=" + b.url()[len(PREFIX):], None))
    out.append(("whole address", lambda b: "https://swaroopg92.github.io/penpa-edit/#" + b.url(), True))
    out.append(("puzz.link address", lambda b: "http://puzz.link/p?nurikabe/5/5/1", True))
    out.append(("plain text", lambda b: PREFIX + "hello world", True))
    out.append(("only the prefix", lambda b: PREFIX, True))
    out.append(("not base64", lambda b: PREFIX + "%%%%", True))
    out.append(("base64 of text", lambda b: PREFIX + "aGVsbG8gd29ybGQ=", True))
    out.append(("non-ASCII", lambda b: b.url() + "é", None))
    for k in (1, 2, 3, 4, 8, 20, 60):
        out.append((f"cut by {k}", lambda b, k=k: b.url()[:-k], None))
    n = 64 if tier == "quick" else 400
    for i in range(n):
        out.append((f"character {i}/{n} changed", lambda b, i=i: flip(b.url(), i, n), None))
    for k in range(1, 5):
        out.append((f"{k} lines only", parts_edit(lambda p, k=k: p[:k]), True))
    out.append(("empty text", lambda b: PREFIX + deflate(""), True))
    for shape in ("hex", "tri", "pyramid", "iso", "", "cube", "truncated_square", "nosuch"):
        out.append((f"shape {shape!r}", setp(0, lambda h, s=shape: s + h[6:]), True))
    for i, v in ((1, ""), (2, ""), (1, "x"), (2, "-"), (1, "1.5")):
        out.append((f"header field {i} = {v!r}", setp(0, lambda h, i=i, v=v: ",".join(v if k == i else x for k, x in enumerate(h.split(",")))), True))
    out.append(("short header", setp(0, "square"), True))
    for v in ("", "[]", "[0,0]", "[0,0,0]", '["a",0,0,0]', "null", "{}", "x", "[0,0,0,0,0]"):
        out.append((f"margins {v!r}", setp(1, v), True))
    for i, ln, la in ((3, "problem", "q"), (4, "answer", "a")):
        for v in ("", "x", "null", "[]", "{}", '{"surface":{}}', "17"):
            out.append((f"{ln} layer {v!r}", setp(i, v), True))
        for k in ("surface", "number", "sudoku", "symbol", "edge", "line"):
            out.append((f"{ln} layer without {k}", q_edit(la, lambda q, k=k: q.pop(k)), True))
            for label, v in (("list", [1]), ("number", 3), ("null", None), ("string", "x")):
                out.append((f"{ln} layer {k} is a {label}", q_edit(la, lambda q, k=k, v=v: q.__setitem__(k, v)), True))
            for label, key in (("word", "abc"), ("empty", ""), ("decimal", "1.5")):
                good = {"surface": 4, "number": ["1", 1, "1"], "sudoku": ["1", 1, "1"], "symbol": [1, "circle_L", 1], "edge": 2, "line": 3}[k]
                out.append((f"{ln} layer {k} at a {label} index", q_edit(la, lambda q, k=k, key=key, v=good: q[k].__setitem__(key, v)), True))
        for label, v in (("empty list", []), ("null", None), ("number", 5), ("short", ["1"]), ("nested", [["1"], 1, "1"])):
            out.append((f"{ln} layer number entry {label}", lambda b, la=la, v=v: entry(b, la, "number", v), True))
        for label, v in (("empty list", []), ("null", None), ("number", 5), ("short", [1]), ("long", [1, "circle_L", 1, 1])):
            out.append((f"{ln} layer symbol entry {label}", lambda b, la=la, v=v: entry(b, la, "symbol", v), True))
    return out


def entry(b, layer, kind, v):
    o = b.copy()
    for x in (o.q, o.a):
        x[kind].pop(str(b.idx(0, 0)), None)
    getattr(o, layer)[kind][str(b.idx(0, 0))] = v
    return o.url()


def flip(u, i, n):
    k = len(PREFIX) + (len(u) - len(PREFIX) - 1) * i // n
    return u[:k] + ("A" if u[k] != "A" else "B") + u[k + 1:]


def direct(obj):
    """What the solver itself does with the request (None: it cannot be reached)."""
    from noqx import clingo
    try:
        return ("ok", clingo.run_solver(obj["puzzle_name"], obj["puzzle"], obj["param"]))
    except ValueError as e:
        return ("400", str(e))
    except TimeoutError as e:
        return ("504", str(e))
    except Exception as e:
        return ("500", type(e).__name__)


def shows(name, urls):
    return {Board.from_url(name, u).ans() for u in urls}


def judge(a, res, label, sent, must_fail, follow, name, **kw):
    import random
    random.seed(env.SEED)
    st, body, notes = server.post(a, sent, **kw)
    res.add(requests=1)
    what = "; ".join(notes) or None
    data = None
    if not what:
        try:
            data = json.loads(body)
        except ValueError:
            what = f"status {st} with a body that is not JSON"
    if not what and st == 200:
        if must_fail:
            what = f"answers are returned: {str(data)[:120]}"
        elif not isinstance(data, dict) or set(data) != {"url"} or not isinstance(data["url"], list):
            what = f"status 200 without the list of answers: {str(data)[:120]}"
        else:
            try:
                given = Board.from_url(name, json.loads(sent)["puzzle"] if isinstance(sent, bytes) else sent["puzzle"]).q
                for u in data["url"]:
                    if Board.from_url(name, u).q != given:
                        what = "an answer to another board is returned"
            except Exception:
                what = None if not data["url"] else "answers are returned for a board that cannot be read"
    elif not what:
        if not 400 <= st < 600:
            what = f"status {st}"
        elif not isinstance(data, dict) or not isinstance(data.get("detail"), str) or not data["detail"].strip():
            what = f"status {st} without a text: {str(data)[:120]}"
        elif "url" in data:
            what = f"status {st} with answers"
    if not what and isinstance(sent, dict) and {"puzzle_name", "puzzle", "param"} <= set(sent) and not kw:
        random.seed(env.SEED)
        d = direct(sent)
        res.add(statuses_compared=1)
        want = 200 if d[0] == "ok" else int(d[0])
        if st != want and not (want == 500 and 400 <= st < 600):
            what = f"status {st} ({str(data)[:80]}), the solver itself gives {d[0]} {str(d[1])[:80]}"
        elif d[0] in ("400", "504") and "".join(x for x in data["detail"] if not x.isdigit()) != "".join(x for x in d[1] if not x.isdigit()):
            what = f"the text is {data['detail']!r}, the solver says {d[1]!r}"
    if not what and follow:
        st2, body2, notes2 = server.post(a, follow[0])
        res.add(requests_after=1)
        if notes2 or st2 != 200 or shows(follow[0]["puzzle_name"], json.loads(body2)["url"]) != follow[1]:
            what = f"a valid request after it gives status {st2} {notes2}"
    if what:
        res.violation(key_of("C18", name, label), f"{name}, {label}: {what}", {"kind": "request", "label": label, "request": sent if not isinstance(sent, bytes) else repr(sent[:400])})
    return not what


def base(name):
    b = supply.boards(name, "few", 1)[0]
    a = server.app()
    st, body, notes = server.post(a, payload(b))
    return a, b, (payload(b), shows(name, json.loads(body)["url"])) if st == 200 else None


def type_task(name, k, parts, tier):
    a, b, follow = base(name)
    res = Result()
    if follow is None:
        res.violation(key_of("C18", name, "valid"), f"{name}: a valid request is refused", {"kind": "request", "request": payload(b)})
        return res
    p = payload(b)
    jobs = [(l, lambda f=f: f(p), m) for l, f, m in bodies()] + [("board: " + l, lambda f=f: {**p, "puzzle": f(b)}, m) for l, f, m in boards(tier)]
    for j, (label, f, must) in enumerate(jobs):
        if j % parts == k:
            judge(a, res, label, f(), must, follow, name)
            if len(res.viol) >= 3:
                return res
    if k == 0:
        data = json.dumps(p).encode()
        for n in (1, 2, 3, 7, len(data)):
            size = -(-len(data) // n)
            judge(a, res, f"body in {n} parts", data, False, follow, name, chunks=[data[i:i + size] for i in range(0, len(data), size)])
        for n in (0, 1, len(data) // 2, len(data) - 1):
            st, body, notes = _cut(a, data[:n])
            res.add(requests=1)
            if st == 200:
                res.violation(key_of("C18", name, "cut", n), f"{name}: a request cut off after {n} of {len(data)} bytes is answered", {"kind": "request"})
            judge(a, res, "after a cut-off request", p, False, follow, name)
    res.names.add(f"{name}: every single corruption")
    return res


def _cut(a, data):
    import asyncio
    return asyncio.run(server.call(a, "POST", "/api/solve/", data, cut=True))


def pair_task(name, k, parts, tier):
    """Two corruptions at once, and sequences of two corrupted requests."""
    a, b, follow = base(name)
    res = Result()
    p = payload(b)
    first = [(l, f) for l, f, m in bodies() if m]
    second = [(l, f) for l, f, m in boards("quick") if m]
    if tier == "quick":
        first, second = first[::2], second[::6]
    for j, ((l1, f1), (l2, f2)) in enumerate(itertools.product(first, second)):
        if j % parts != k:
            continue
        judge(a, res, f"{l1} and board: {l2}", f1({**p, "puzzle": f2(b)}), True, follow if j % 3 == 0 else None, name)
        if len(res.viol) >= 3:
            return res
    return res


def refusals(b):
    """Boards with an element of a kind or at a place that may have no meaning for the type."""
    r, c = b.R - 1, b.C - 1
    for label, f in (
            ("number on a lower side", lambda o: o.num(0, 0, 1, cat=2)), ("number on a right side", lambda o: o.num(0, 0, 1, cat=3)), ("number on a corner", lambda o: o.num(0, 0, 1, cat=1)),
            ("small numbers", lambda o: o.num(r, c, "12", sub="4")), ("corner number", lambda o: o.corner_num(r, c, 0, 3)), ("side number", lambda o: o.corner_num(r, c, 5, 3)),
            ("foreign symbol", lambda o: o.sym(r, c, "ox_B__9")), ("symbol on a side", lambda o: o.sym(0, 0, "circle_L__1", cat=2)), ("symbol on a corner", lambda o: o.sym(0, 0, "circle_L__1", cat=1)),
            ("word", lambda o: o.num(r, c, "zz")), ("negative", lambda o: o.num(r, c, "-1")), ("number outside", lambda o: o.num(-1, 0, 1)), ("number outside left", lambda o: o.num(0, -1, 1)),
            ("number far outside", lambda o: o.num(o.R, o.C, 1)), ("clue in the corner outside", lambda o: o.num(-1, -1, 1)), ("arrow symbol", lambda o: o.sym(r, c, "arrow_fouredge_B__1")),
            ("huge number", lambda o: o.num(r, c, 999)), ("zero", lambda o: o.num(r, c, 0))):
        o = supply.with_margin(b, tuple(max(1, x) for x in b.margin))
        for x in (o.q, o.a):
            for kind in ("number", "symbol"):
                x[kind].pop(str(o.idx(r, c)), None)
        f(o)
        yield label, o
    for k, v in b.param.items():
        if not isinstance(v, bool):
            for x in ("", "x", "-1"):
                o = b.copy()
                o.param[k] = x
                yield f"option {k}={x!r}", o


def refuse_task(name):
    a, b, follow = base(name)
    res = Result()
    with open(REF) as f:
        known = json.load(f).get(name, {})
    for label, o in refusals(b):
        if label not in known:
            continue
        st, body, notes = server.post(a, payload(o))
        res.add(requests=1, statuses_compared=1)
        data = json.loads(body)
        if st != 400 or not str(data.get("detail", "")).strip():
            res.violation(key_of("C18", name, "refuse", label), f"{name}: a board with {label} gives status {st} {str(data)[:100]} instead of 400 and a text",
                          {"kind": "request", "request": payload(o), "board": o.describe()})
        judge(a, res, f"valid board after one with {label}", follow[0], False, None, name)
    res.names.add(f"{name}: {len(known)} kinds of invalid board")
    return res


def http_task():
    """Everything that is not the solve API."""
    import asyncio
    a, b, follow = base("akari")
    res = Result()
    data = json.dumps(payload(b)).encode()
    for method, path, want in (("GET", "/api/solve/", (405,)), ("PUT", "/api/solve/", (405,)), ("DELETE", "/api/solve/", (405,)), ("POST", "/", (405,)), ("GET", "/", (301, 302, 303, 307, 308)),
                               ("GET", "/penpa-edit/nosuch.js", (404,)), ("GET", "/nosuch", (404,)), ("GET", "/penpa-edit/../main.py", (400, 403, 404)), ("GET", "/penpa-edit/%2e%2e/main.py", (400, 403, 404)),
                               ("GET", "/penpa-edit//etc/passwd", (400, 403, 404)), ("GET", "/penpa-edit/", (200,)), ("GET", "/penpa-edit/app.js", (200,)), ("GET", "/penpa-edit/solver_metadata.js", (200,)),
                               ("POST", "/api/nosuch/", (404, 405)), ("GET", "/api/", (404, 405))):
        st, body, notes = asyncio.run(server.call(a, method, path, data if method == "POST" else b""))
        res.add(requests=1)
        if notes or st not in want:
            res.violation(key_of("C18", method, path), f"{method} {path} gives status {st} {notes}", {"kind": "http", "method": method, "path": path})
        judge(a, res, f"after {method} {path}", follow[0], False, follow, "akari")
    return res


def fault_task(name):
    """A failure at every call of every step of a request (engine, decoding, encoding, refining): no partial answers, and the next request is whole."""
    from clingo.control import Control
    from noqx import manager
    from noqx.puzzle.penpa import PenpaPuzzle
    a, b, follow = base(name)
    res = Result()
    p = payload(b)
    cls = type(manager.modules[name])
    points = [(Control, "add"), (Control, "ground"), (Control, "solve"), (PenpaPuzzle, "decode"), (PenpaPuzzle, "encode"), (cls, "solve"), (cls, "refine")]
    for (owner, meth), exc in itertools.product(points, (RuntimeError, ValueError, KeyError, MemoryError, TimeoutError, AssertionError)):
        real = getattr(owner, meth, None)
        own = meth in vars(owner)
        if real is None:
            continue
        for when in ("before", "after"):
            for k in range(40):
                seen = [0]

                def bad(*args, **kw):
                    seen[0] += 1
                    if seen[0] == k + 1:
                        if when == "after":
                            real(*args, **kw)
                        raise exc("injected")
                    return real(*args, **kw)
                setattr(owner, meth, bad)
                try:
                    st, body, notes = server.post(a, p)
                finally:
                    if own:
                        setattr(owner, meth, real)
                    else:
                        delattr(owner, meth)
                res.add(requests=1, faults=1)
                if seen[0] <= k:
                    break
                what = "; ".join(notes)
                try:
                    data = json.loads(body)
                except ValueError:
                    data = None
                if not what and st == 200 and shows(name, data.get("url") or []) != follow[1]:
                    what = f"status 200 with {len(data.get('url') or [])} of {len(follow[1])} answers"
                if not what and st != 200 and not (400 <= st < 600 and isinstance(data, dict) and str(data.get("detail") or "").strip() and "url" not in data):
                    what = f"status {st} {str(data)[:100]}"
                if not what:
                    st2, body2, notes2 = server.post(a, follow[0])
                    res.add(requests_after=1)
                    if notes2 or st2 != 200 or shows(name, json.loads(body2)["url"]) != follow[1]:
                        what = f"the next request gives status {st2} {notes2}"
                if what:
                    label = f"{exc.__name__} {when} call {k + 1} of {owner.__name__}.{meth}"
                    res.violation(key_of("C18", name, label), f"{name}, {label}: {what}", {"kind": "fault", "label": label, "request": p})
                    return res
    return res


TYPES = ("akari", "slitherlink", "sudoku", "heyawake", "starbattle", "tapa", "kakuro", "nagare", "statuepark", "easyasabc", "hashi", "mines")


def tasks(tier, only=None):
    server.app()
    th = tier == "thorough"
    out = []
    for n in supply.types():
        if only and n not in only:
            continue
        if th or n in TYPES:
            out += [("nq.c18", "type_task", (n, k, 2, tier)) for k in range(2)]
        out.append(("nq.c18", "refuse_task", (n,)))
    for n in (TYPES if th else ("akari", "sudoku")):
        if not only or n in only:
            out += [("nq.c18", "pair_task", (n, k, 4, tier)) for k in range(4)]
    for n in supply.types() if th else TYPES:
        if not only or n in only:
            out.append(("nq.c18", "fault_task", (n,)))
    return out + ([] if only else [("nq.c18", "http_task", ())])


def record():
    """Writes refusals.json from the current tree (tools/mkrefusals.py)."""
    a = server.app()
    out = {}
    for n in supply.types():
        b = supply.boards(n, "few", 1)[0]
        for label, o in refusals(b):
            st, body, notes = server.post(a, payload(o))
            if st == 400:
                out.setdefault(n, {})[label] = json.loads(body)["detail"]
    with open(REF, "w") as f:
        json.dump(out, f, indent=1)
