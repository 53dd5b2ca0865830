"""Shows a recorded violation again: the same input, history or schedule against the working tree."""

import json
import os
import sys

from . import env


def board(d):
    from . import exact
    from .board import Board
    print(Board.from_url(d["puzzle"], d["url"], d.get("param") or {}).describe())
    if d.get("expected"):
        print("recorded expectation:", str(d["expected"])[:600])
    for k in ("unmarked_url", "original_url", "url"):
        if d.get(k):
            b = Board.from_url(d["puzzle"], d[k], d.get("param") or {})
            try:
                urls = env.solve(d["puzzle"], d[k], d.get("param") or {}, d.get("limit") or 0)
            except Exception as e:
                print(f"{k}: {type(e).__name__}: {e}")
                continue
            print(f"{k}: {len(urls)} answers")
            for u in urls[:20]:
                print("   ", str(Board.from_url("x", u).ans())[:400])


def rule(d):
    """The recorded program was generated by the tree at the time; the label names the call to make again."""
    print(d["label"])
    print("lost:", str(d.get("missing"))[:600])
    print("not meant:", str(d.get("extra"))[:600])
    print(d["program"][:3000])


def history(d):
    from . import c17
    env.load()
    reqs = [tuple(r) + (None,) * (4 - len(r)) for r in d["requests"]]
    for i, r in enumerate(reqs):
        print(f"request {i} ({r[0]}):", c17.show(c17.request(r)))
    print("recorded:", d.get("got"), "- in a fresh process:", d.get("want"))


def request(d):
    from . import c20, server
    import asyncio
    a = server.app()
    r = d["request"]
    data = r.encode("utf-8", "surrogateescape") if isinstance(r, str) else json.dumps(r).encode()
    out = asyncio.run(c20.client(a, data, 1))
    print(out[0], out[1][:800], out[2])


def concurrent(d):
    from . import c20, server
    a = server.app()
    reqs = [tuple(r) for r in d["requests"]]
    for r in reqs:
        print(r[0], "alone:", c20.say(c20.result(c20.together(a, [(c20.data(r), 1)], None)[0][0])))
    if "schedule" in d:
        left = list(d["schedule"])

        def choose(names):
            want = left.pop(0) if left else None
            return names.index(want) if want in names else 0
        ch = type("Replay", (), {"pick": staticmethod(choose)})
        outs, _ = c20.together(a, [(c20.data(r), d.get("chunks", 1)) for r in reqs], ch.pick)
    else:
        outs, _ = c20.threaded(a, [c20.data(r) for r in reqs], {int(k): v for k, v in d["plan"].items()})
    for r, o in zip(reqs, outs):
        print(r[0], "together:", c20.say(c20.result(o)))


def page(d):
    from . import c23
    print(c23.replay(d) or "no disagreement any more")


def again(d):
    print("this kind is replayed by running the check again (its exploration is deterministic):")
    os.execv(os.path.join(env.VERIF, "run"), ["run", d["property"]] + ([d["puzzle"]] if d.get("puzzle") else []))


def main():
    d = json.load(open(sys.argv[1]))
    print(d["property"], "-", d["what"])
    {"board": board, "rule": rule, "walls": again, "history": history, "request": request, "concurrent": concurrent, "page": page}.get(d["kind"], again)(d)


if __name__ == "__main__":
    main()
