"""C20: every interleaving of concurrent requests (chunked bodies, event-loop turns, and worker threads if the server uses any) gives each request its own result."""

import asyncio
import json
import os
import random
import threading
import time

from . import c17, env, server, supply
from .board import Board
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "schedules", "transitions": "loop_turns", "traces_validated_against_impl": "responses_compared"}
ASSUME = ["network readiness is arbitrary: any runnable callback of the event loop may be next",
          "if requests are handled in threads, a thread can lose the processor before any source line of main.py, noqx/ or solver/"]


class Choices:
    """Stateless depth-first exploration with a bound on preemptions."""

    def __init__(self, bound):
        self.bound, self.stack, self.prefix = bound, [], []

    def start(self):
        self.pos, self.used, self.last, self.trace = 0, 0, None, []

    def pick(self, names):
        """Index into names (sorted tuples of (request, index)); going on with the request that ran last is free."""
        opts = list(range(len(names)))
        stay = [i for i in opts if names[i] == self.last]
        if stay:
            opts = stay[:1] + ([i for i in opts if names[i] != self.last] if self.used < self.bound else [])
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = 0
            self.prefix.append(0)
            self.stack.append(len(opts))
        self.stack[self.pos] = len(opts)
        k = min(k, len(opts) - 1)
        i = opts[k]
        self.pos += 1
        if stay and names[i] != self.last:
            self.used += 1
        self.last = names[i]
        self.trace.append(names[i])
        return i

    def next(self):
        del self.prefix[self.pos:], self.stack[self.pos:]
        while self.prefix and self.prefix[-1] + 1 >= self.stack[-1]:
            self.prefix.pop()
            self.stack.pop()
        if not self.prefix:
            return False
        self.prefix[-1] += 1
        return True


class Loop(asyncio.SelectorEventLoop):
    """An event loop that runs one ready callback at a time, chosen by `choose`."""
    choose, turns, owned = None, 0, 0

    def _who(self, h):
        t = getattr(getattr(h, "_callback", None), "__self__", None)
        return t.get_name() if isinstance(t, asyncio.Task) else "~"

    def _run_once(self):
        ready = self._ready
        self.turns += 1
        if self.choose is not None and len(ready) > 1:
            hs = list(ready)
            names = [self._who(h) for h in hs]
            own = [i for i, n in enumerate(names) if n == "~"]       # the loop's own callbacks come first (some reschedule themselves until a task has run)
            if own and (self.owned < 20 or len(own) == len(hs)):
                i = own[0]
                self.owned += 1
            else:
                self.owned = 0
                uniq = sorted(set(names) - {"~"})
                i = names.index(uniq[self.choose(uniq)]) if len(uniq) > 1 else 0
            for h in hs:
                ready.remove(h)
            ready.append(hs[i])
            super()._run_once()
            rest = [h for j, h in enumerate(hs) if j != i]
            ready.extendleft(reversed(rest))
        else:
            super()._run_once()


async def client(a, data, chunks):
    n = max(1, chunks)
    cut = [data[len(data) * i // n:len(data) * (i + 1) // n] for i in range(n)]
    msgs = [{"type": "http.request", "body": c, "more_body": i + 1 < n} for i, c in enumerate(cut)]
    out = []

    async def receive():
        await asyncio.sleep(0)
        if msgs:
            return msgs.pop(0)
        await asyncio.sleep(3600)

    async def send(m):
        out.append(m)
        await asyncio.sleep(0)
    err = None
    try:
        await a(server.scope("POST", "/api/solve/", len(data)), receive, send)
    except Exception as e:
        err = f"the application raises {type(e).__name__}: {e}"
    st = [m for m in out if m["type"] == "http.response.start"]
    return (st[0]["status"] if len(st) == 1 else f"{len(st)} responses", b"".join(m.get("body", b"") for m in out if m["type"] == "http.response.body"), err)


def shown(url):
    b = Board.from_url("x", url)
    return (b.ans(), b.R, b.C, tuple(b.margin), json.dumps(b.q, sort_keys=True))


def result(r):
    status, body, err = r
    if err:
        return ("error", err)
    try:
        o = json.loads(body)
    except ValueError:
        return (status, body[:80].decode(errors="replace"))
    if status == 200 and isinstance(o.get("url"), list):
        return (200, frozenset(map(shown, o["url"])), len(o["url"]))
    return (status, c17.strip(o.get("detail", "")))


def together(a, reqs, choose):
    """Runs the requests [(bytes, chunks)] at once under a schedule."""
    loop = Loop()
    try:
        async def main():
            ts = [asyncio.create_task(client(a, d, c), name=f"r{i}") for i, (d, c) in enumerate(reqs)]
            loop.choose = choose
            out = await asyncio.gather(*ts)
            loop.choose = None
            return out
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(main()), loop.turns
    finally:
        loop.choose = None
        try:
            loop.run_until_complete(loop.shutdown_default_executor())
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def data(req):
    return json.dumps({"puzzle_name": req[0], "puzzle": req[1], "param": req[2]}).encode()


def say(r):
    return f"{r[0]} with {r[2]} answers" if r[0] == 200 else f"{r[0]} {r[1][:80]}"


def steady(a, reqs, name):
    """Requests whose own result does not depend on the random picks (boards with contradictory clues can)."""
    out = {}
    for k, r in reqs.items():
        seen = set()
        for s in range(4):
            random.seed(s)
            seen.add(result(together(a, [(data(r), 1)], None)[0][0]))
        if len(seen) == 1:
            out[k] = r
    return out


def explore(res, a, named, chunks, bound, cap):
    """named: [(label, request)]"""
    alone = []
    for label, req in named:
        out, _ = together(a, [(data(req), 1)], None)
        alone.append(result(out[0]))
    ch = Choices(bound)
    n = 0
    while True:
        ch.start()
        outs, turns = together(a, [(data(r), c) for (_, r), c in zip(named, chunks)], ch.pick)
        n += 1
        res.add(schedules=1, loop_turns=turns, responses_compared=len(outs))
        for (label, req), want, got in zip(named, alone, map(result, outs)):
            if want != got:
                res.violation(key_of("C20", [(l, r[:3]) for l, r in named], ch.trace),
                              f"{' and '.join(f'{r[0]} ({l})' for l, r in named)} at once, schedule {'.'.join(ch.trace)}: {req[0]} ({label}) gives {say(got)}, alone {say(want)}",
                              {"kind": "concurrent", "requests": [r[:3] for _, r in named], "schedule": ch.trace})
                return n
        if n >= cap or not ch.next():
            break
    if n >= cap:
        res.add(schedule_caps=1)
    return n


class Threads:
    """Runs the traced threads one at a time; the first one is preempted before its k-th line (and the second before its j-th)."""

    def __init__(self, root, plan, expect):
        self.root, self.plan, self.expect = root, dict(plan), expect
        self.cv = threading.Condition()
        self.order, self.alive, self.steps, self.depth = [], set(), {}, {}
        self.current, self.beat = None, time.monotonic()

    def mine(self, f):
        fn = f.f_code.co_filename
        return fn.startswith(self.root) and (os.sep + "noqx" + os.sep in fn or os.sep + "solver" + os.sep in fn or fn.endswith("main.py"))

    def trace(self, frame, event, arg):
        if threading.current_thread() is threading.main_thread() or not self.mine(frame):
            return None
        me = threading.get_ident()
        with self.cv:
            if me not in self.alive:
                if me not in self.order:
                    self.order.append(me)
                self.alive.add(me)
                self.steps.setdefault(me, 0)
                self.depth[me] = 0
                self.cv.notify_all()
                end = time.monotonic() + 0.5
                while len(self.order) < self.expect and time.monotonic() < end:
                    self.cv.wait(0.05)
                if self.current is None:
                    self.current = self.order[0]
            self.depth[me] += 1
        return self.local

    def other(self, me):
        return next((t for t in self.order if t != me and t in self.alive), me)

    def local(self, frame, event, arg):
        me = threading.get_ident()
        with self.cv:
            if event == "line":
                self.wait(me)
                self.steps[me] += 1
                self.beat = time.monotonic()
                if self.plan.get(self.order.index(me)) == self.steps[me]:
                    self.current = self.other(me)
                    self.cv.notify_all()
                    self.wait(me)
            elif event == "return":
                self.depth[me] -= 1
                if self.depth[me] <= 0:
                    self.alive.discard(me)
                    if self.current == me:
                        self.current = self.other(me)
                    self.cv.notify_all()
        return self.local

    def wait(self, me):
        while self.current != me and self.current in self.alive:
            if not self.cv.wait(0.05) and time.monotonic() - self.beat > 0.05:     # the other one is blocked
                self.current, self.beat = me, time.monotonic()


def threaded(a, reqs, plan):
    t = Threads(env.REPO, plan, len(reqs))
    threading.settrace(t.trace)
    try:
        outs, _ = together(a, [(d, 1) for d in reqs], None)
    finally:
        threading.settrace(None)
    return outs, [t.steps[x] for x in t.order]


def thread_explore(res, a, named, cap, two):
    alone = [result(together(a, [(data(r), 1)], None)[0][0]) for _, r in named]
    reqs = [data(r) for _, r in named]
    outs, steps = threaded(a, reqs, {})
    plans = [{}]
    if len(steps) >= 2:
        plans += [{i: k} for i in range(len(steps)) for k in range(1, steps[i] + 1)]
        if two:
            plans += [{0: k, 1: j} for k in range(1, steps[0] + 1, 3) for j in range(1, steps[1] + 1, 3)]
    stride = max(1, -(-len(plans) // cap))
    t0 = time.monotonic()
    for n, plan in enumerate(plans[::stride]):
        if n:
            outs, _ = threaded(a, reqs, plan)
        res.add(schedules=1, responses_compared=len(outs))
        if len(steps) >= 2:
            res.add(thread_schedules=1)
        for (label, req), want, got in zip(named, alone, map(result, outs)):
            if want != got:
                res.violation(key_of("C20", "threads", [(l, r[:3]) for l, r in named], plan),
                              f"{' and '.join(f'{r[0]} ({l})' for l, r in named)} at once in threads, preempted at lines {plan}: {req[0]} ({label}) gives {say(got)}, alone {say(want)}",
                              {"kind": "concurrent", "requests": [r[:3] for _, r in named], "plan": plan})
                return
        if time.monotonic() - t0 > 60:
            res.add(schedule_caps=1)
            return


def type_task(name, other, tier):
    a = server.app()
    res = Result()
    th = tier == "thorough"
    reqs = steady(a, c17.requests_of(name), name)
    if "first" not in reqs or "second" not in reqs:
        res.add(types_left_out=1)
        return res
    t = time.time()
    together(a, [(data(reqs["first"]), 1), (data(reqs["second"]), 1)], None)
    cost = time.time() - t
    cap = 20000 if th else max(12, int(6 / max(cost, 1e-3)))
    two = [(k, reqs[k]) for k in ("first", "second")]
    n = explore(res, a, two, (2, 2), 99 if th or cost < 0.03 else 2, cap)
    thread_explore(res, a, two, 4000 if th else 400, th)
    for x, y in (("second", "refused"), ("first", "options"), ("no answer", "first")):
        if x in reqs and y in reqs:
            explore(res, a, [(x, reqs[x]), (y, reqs[y])], (1, 2), 99 if th else 1, cap // 3 + 1)
    explore(res, a, [("first", reqs["first"]), ("first", c17.requests_of(other)["first"])], (2, 1), 99 if th else 1, cap // 3 + 1)
    if cost < 0.03 or th:
        explore(res, a, [(k, reqs[k]) for k in ("first", "second", "refused") if k in reqs], (1, 1, 1)[:2 + ("refused" in reqs)], 2 if th else 1, cap)
    res.names.add(f"{name}: {n} schedules of two requests")
    return res


def tasks(tier, only=None):
    names = supply.types()
    return [("nq.c20", "type_task", (n, names[(i + 1) % len(names)], tier)) for i, n in enumerate(names) if not only or n in only]
