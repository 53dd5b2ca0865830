"""C16: for every value of the answer limit, the answers of a request are distinct, at most the limit, and all of them below it."""

from . import env, exact, supply
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "requests", "transitions": "answers_returned", "traces_validated_against_impl": "answers_compared"}
ASSUME = ["the number of answers of a board is the number the reference rules of C01-C06 accept",
          "with more than one engine thread the order of the search is clingo's own; only the returned set is judged",
          "the limit is set as the request path reads it: noqx.clingo.Config.max_solutions_to_find (0: no limit)"]


def sets(b):
    s = supply.spec(b.name)
    exp = s.expected(b)
    base = exact.base_of(b)
    opt = {exact.merge(b, base, s.draw(b, x)) for x in exp if s.optional(b, x)}
    return {exact.merge(b, base, s.draw(b, x)) for x in exp}, opt


def limits_of(k, tier):
    ls = {0, 1, 2, 3, k - 1, k, k + 1, 10}
    if tier == "thorough":
        ls |= set(range(0, min(k, 40) + 2)) | {2 * k}
    return sorted(x for x in ls if x >= 0)


def solve(name, b, limit, threads):
    """The -pt option of main.py is read as noqx.clingo.Config.parallel_threads."""
    from noqx.clingo import Config
    old = getattr(Config, "parallel_threads", None)
    if old is not None:
        Config.parallel_threads = threads
    try:
        return env.solve(name, b.url(), b.param, limit)
    finally:
        if old is not None:
            Config.parallel_threads = old


def board_task(name, kind, i, tier):
    env.load()
    res = Result()
    bs = supply.boards(name, kind, i + 1)
    if len(bs) <= i:
        return res
    b = bs[i]
    full, opt = sets(b)
    parts = b.parts()
    runs = [(limit, 1) for limit in limits_of(len(full), tier)]
    if i == 0 and kind in ("few", "many"):
        runs += [(limit, t) for t in ((2, 4) if tier == "thorough" else (2,)) for limit in (0, max(1, len(full) - 1))]
    for limit, threads in runs:
        try:
            urls = solve(name, b, limit, threads)
        except TimeoutError:
            res.add(timeouts=1)
            continue
        except Exception as e:
            res.violation(key_of("C16", name, kind, i, limit, threads), f"{name} {b.R}x{b.C} limit {limit}{f", {threads} engine threads" if threads > 1 else ""}: {type(e).__name__}: {e}",
                          {"kind": "board", "puzzle": name, "url": b.url(), "param": b.param, "limit": limit, "board": b.describe()})
            break
        got = [exact.observe(b, u, parts) for u in urls]
        gs = set(got)
        res.add(requests=1, threaded_requests=int(threads > 1), answers_returned=len(urls), answers_compared=len(got))
        cap = limit or 10 ** 9
        what = None
        if len(got) > cap:
            what = f"{len(got)} answers returned"
        elif len(gs) < len(got):
            dup = next(x for x in got if got.count(x) > 1)
            what = f"the same answer is returned {got.count(dup)} times: {exact.show(b, dup)}"
        elif len(urls) != len(set(urls)):
            what = "the same board is returned twice"
        elif gs - full:
            what = f"an illegal answer is returned: {exact.show(b, sorted(gs - full, key=str)[0])}"
        elif len(got) < cap and (full - opt) - gs:
            what = f"{len(got)} answers returned, one is missing: {exact.show(b, sorted((full - opt) - gs, key=str)[0])}"
        if what:
            res.violation(key_of("C16", name, kind, i, limit, threads), f"{name} {b.R}x{b.C}, {len(full)} legal answers, limit {limit}{f", {threads} engine threads" if threads > 1 else ""}: {what}",
                          {"kind": "board", "puzzle": name, "url": b.url(), "param": b.param, "limit": limit, "board": b.describe()})
            break
    res.names.add(f"{name} {b.R}x{b.C} {len(full)} answers")
    return res


def tasks(tier, only=None):
    th = tier == "thorough"
    out = []
    for n in supply.types():
        if only and n not in only:
            continue
        for kind, k in (("few", 6), ("many", 2), ("none", 1), ("dup", 3)):
            out += [("nq.c16", "board_task", (n, kind, i, tier)) for i in range(k)]
    return out
