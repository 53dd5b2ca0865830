"""C19: every order of engine events around the time limit ends with the complete answers or a timeout, and the engine stopped."""

import itertools

from . import env, fake, supply
from .fake import INF
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "schedules", "transitions": "engine_events", "traces_validated_against_impl": "real_engine_runs"}
ASSUME = ["the engine is a stand-in for clingo's Control with a virtual clock (nq/fake.py); the stand-in is compared with the real engine on runs that end at once and runs that never end",
          "the engine stops when told to, possibly after some more events"]
L = 30.0
GRID = (0.0, 12.0, 29.999, 30.0, 30.001, 45.0, INF)
FAULTS = ("add", "ground", "solve", "wait", "model", "cancel")


def models_of(b):
    from clingo.control import Control
    from noqx import manager
    ctl = Control(["--models=0", "--warn=none", "--project=show"], logger=lambda *_: None)
    ctl.add(program=manager.generate_program(manager.prepare_puzzle(b.name, b.url(), dict(b.param))))
    ctl.ground()
    out = []
    ctl.solve(on_model=lambda m: out.append((str(m), m.symbols(shown=True))))
    return out


class Setup:
    """Patches of the code under test for one run."""

    def __init__(self, engine, clock, decode, encode, limit):
        self.engine, self.clock, self.decode, self.encode, self.limit = engine, clock, decode, encode, limit

    def __enter__(self):
        import clingo
        import clingo.control
        import noqx.clingo as nc
        from noqx.puzzle.penpa import PenpaPuzzle
        self.nc, self.P = nc, PenpaPuzzle
        self.saved = [(nc.Config, "time_limit", nc.Config.time_limit), (nc.Config, "max_solutions_to_find", nc.Config.max_solutions_to_find),
                      (clingo.control, "Control", clingo.control.Control), (clingo, "Control", clingo.Control), (PenpaPuzzle, "decode", PenpaPuzzle.decode), (PenpaPuzzle, "encode", PenpaPuzzle.encode)]
        if hasattr(nc, "Control"):
            self.saved.append((nc, "Control", nc.Control))
        for k in ("perf_counter", "monotonic", "time"):
            if callable(getattr(nc, k, None)):
                self.saved.append((nc, k, getattr(nc, k)))
                setattr(nc, k, lambda: self.clock.now)
        nc.Config.time_limit, nc.Config.max_solutions_to_find = L, self.limit
        for m in (nc, clingo.control, clingo):
            if hasattr(m, "Control"):
                m.Control = self.engine.Control
        real_d, real_e, n = PenpaPuzzle.decode, PenpaPuzzle.encode, [0]

        def dec(p):
            n[0] += 1
            self.clock.advance(self.decode if n[0] == 1 else 0)
            return real_d(p)

        def enc(p):
            self.clock.advance(self.encode)
            return real_e(p)
        PenpaPuzzle.decode, PenpaPuzzle.encode = dec, enc
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v)
        return False


def request(b, engine, clock, decode, encode, limit):
    import noqx.clingo as nc
    with Setup(engine, clock, decode, encode, limit):
        t0 = clock.now
        try:
            out = nc.run_solver(b.name, b.url(), dict(b.param))
            r = ("ok", list(out["url"]))
        except TimeoutError as e:
            r = ("timeout", str(e))
        except fake.Hang:
            r = ("hang", "")
        except Exception as e:
            r = ("error", f"{type(e).__name__}: {e}")
        return r, clock.now - t0


def judge(b, full, engine, r, elapsed, limit):
    hs = [c.handle for c in engine.controls if c.handle]
    started = bool(hs)
    for h in hs:
        if not (h.done or h.cancelled):
            return "the engine is left running"
        if h.stopped_at - h.start > L * 1.02 + engine.race:
            return f"the engine runs for {h.stopped_at - h.start} s with a time limit of {L} s"
    if r[0] == "hang":
        return "the request waits for an engine that never finishes"
    if r[0] == "ok":
        if not started or engine.fired and engine.fault != "cancel":
            return "answers are returned although the engine failed"
        h = hs[-1]
        want = full[: limit or None]
        if not h.done and len(r[1]) < (limit or 10 ** 9):
            return f"{len(r[1])} of {len(want)} answers are returned although the search was interrupted"
        if sorted(r[1]) != sorted(want):
            return f"{len(r[1])} answers are returned, complete are {len(want)}"
    elif r[0] == "timeout":
        if elapsed < L and not engine.fired:
            return f"a timeout is reported after {elapsed:.3f} s with a limit of {L} s"
        if not r[1]:
            return "the timeout has no text"
    elif not engine.fired:
        return f"the request fails: {r[1]}"
    return None


def scripts(n):
    for ts in itertools.combinations_with_replacement(GRID, n + 1):
        yield list(ts[:-1]), ts[-1]


def base(name, n):
    """A board of the type with exactly n answers, its models and the answer boards."""
    for b in supply.boards(name, "few") + supply.boards(name, "many") + supply.boards(name, "none"):
        ms = models_of(b)
        if len(ms) == n:
            urls = []
            for text, _ in ms:
                from noqx import manager
                urls.append(manager.store_solution(manager.prepare_puzzle(b.name, b.url(), dict(b.param)), text).encode())
            return b, ms, urls
    return None


def schedule_task(name, n, limit, k, parts, tier):
    env.load()
    res = Result()
    got = base(name, n)
    if not got:
        return res
    b, ms, full = got
    delays = [(0, 0), (29.0, 0), (31.0, 0), (0, 16.0)] + ([(12.0, 9.0), (0, 40.0), (18.0, 0)] if tier == "thorough" else [])
    for j, ((ts, end), (dec, enc), race, ground) in enumerate(itertools.product(scripts(n), delays, (0.0, 0.5), (0.0, 20.0))):
        if j % parts != k:
            continue
        for fault in (None,) + (FAULTS if j % 29 == 0 else ()):
            clock = fake.Clock()
            with clock:
                e = fake.Engine(clock, ms, ts, end, race, fault, ground)
                r, el = request(b, e, clock, dec, enc, limit)
                what = judge(b, full, e, r, el, limit)
                res.add(schedules=1, engine_events=n + 1, **{"outcome_" + r[0]: 1})
                if not what and j % 7 == 0:          # a request after it: its own time, its own answers
                    e2 = fake.Engine(clock, ms, [0.0] * n, 0.0)
                    r2, el2 = request(b, e2, clock, 0, 0, limit)
                    w2 = judge(b, full, e2, r2, el2, limit)
                    res.add(schedules=1, engine_events=n + 1)
                    if w2 or r2[0] != "ok":
                        what = "the request after it: " + (w2 or f"{r2[0]}: {r2[1]}")
            if what:
                res.violation(key_of("C19", name, n, limit, ts, end, dec, enc, race, ground, fault),
                              f"{name}, {n} answers found at {ts} s, search ends at {end} s, answer limit {limit}, reading the board takes {dec} s, writing an answer {enc} s, "
                              f"grounding {ground} s, stopping {race} s, fault {fault}: {what}",
                              {"kind": "schedule", "puzzle": name, "url": b.url(), "times": ts, "end": end, "limit": limit, "decode": dec, "encode": enc, "race": race, "ground": ground, "fault": fault})
                if len(res.viol) >= 3:
                    return res
    res.names.add(f"{name}, {n} answers, limit {limit}")
    return res


def real_task(i):
    """The real engine: runs that end at once agree with the stand-in; a search that does not end is stopped and reported."""
    import time
    env.load()
    import noqx.clingo as nc
    res = Result()
    if i < 12:
        name = ["akari", "lits", "sudoku", "masyu", "shikaku", "tents", "nurikabe", "slitherlink", "easyasabc", "starbattle", "aqre", "numlin"][i]
        for b in supply.boards(name, "few", 4) + supply.boards(name, "none"):
            ms = models_of(b)
            for limit in (0, 1, 2, len(ms), len(ms) + 1):
                clock = fake.Clock()
                with clock:
                    r, _ = request(b, fake.Engine(clock, ms, [0.0] * len(ms), 0.0), clock, 0, 0, limit)
                old = nc.Config.time_limit
                nc.Config.time_limit = 60
                try:
                    real = env.solve(name, b.url(), b.param, limit)
                finally:
                    nc.Config.time_limit = old
                res.add(real_engine_runs=1)
                if r[0] != "ok" or len(r[1]) != len(real) or (not limit or limit > len(real)) and sorted(r[1]) != sorted(real):
                    res.violation(key_of("C19", "real", name, limit), f"{name} limit {limit}: the real engine gives {len(real)} answers, the stand-in {r[0]} {len(r[1])}", {"kind": "board", "puzzle": name, "url": b.url()})
        return res
    # a search that takes very long
    from noqx import manager
    name = "akari"
    b = supply.boards(name, "few", 1)[0]
    hard = "p(1..13). h(1..12). 1 { in(P, H) : h(H) } 1 :- p(P). :- in(P, H), in(Q, H), P < Q. #show in/2."
    real = nc.generate_program
    nc.generate_program = lambda _p: hard
    old = nc.Config.time_limit, nc.Config.max_solutions_to_find
    nc.Config.time_limit, nc.Config.max_solutions_to_find = (0.05, 0.4, 1.0)[i - 12], 10
    import threading
    before = threading.active_count()
    t0 = time.perf_counter()
    try:
        r = ("ok", nc.run_solver(name, b.url(), dict(b.param)))
    except TimeoutError:
        r = ("timeout", "")
    except Exception as e:
        r = ("error", str(e))
    finally:
        el = time.perf_counter() - t0
        nc.generate_program = real
        nc.Config.time_limit, nc.Config.max_solutions_to_find = old
    res.add(real_engine_runs=1)
    if r[0] == "ok" and el < 0.9:
        res.add(long_run_too_easy=1)
    elif r[0] != "timeout" or el > 20:
        res.violation(key_of("C19", "long", i), f"a search that does not end within the time limit gives {r[0]} after {el:.1f} s", {"kind": "long", "program": hard})
    return res


def tasks(tier, only=None):
    out = []
    for name, n in (("akari", 0), ("easyasabc", 1), ("akari", 2), ("lits", 2), ("hashi", 0), ("numlin", 3), ("shikaku", 3), ("hitori", 4)) + ((("lits", 5), ("tents", 4)) if tier == "thorough" else ()):
        for limit in sorted({10, 0, 1, max(1, n - 1), max(1, n), n + 1}):
            parts = 8 if n > 2 else 1
            out += [("nq.c19", "schedule_task", (name, n, limit, k, parts, tier)) for k in range(parts)]
    return out + [("nq.c19", "real_task", (i,)) for i in range(15)]
