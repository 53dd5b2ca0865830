"""A stand-in for clingo's Control with a virtual clock: the engine finds its models and finishes at scripted times."""

import time

INF = float("inf")
_real = {k: getattr(time, k) for k in ("perf_counter", "time", "monotonic", "process_time", "sleep", "perf_counter_ns", "monotonic_ns", "time_ns")}


class Hang(BaseException):
    """The code under test waits for something that never happens."""


class Fault(RuntimeError):
    pass


class Clock:
    def __init__(self):
        self.now = 1000.0

    def __enter__(self):
        for k in ("perf_counter", "time", "monotonic", "process_time"):
            setattr(time, k, lambda: self.now)
        for k in ("perf_counter_ns", "monotonic_ns", "time_ns"):
            setattr(time, k, lambda: int(self.now * 1e9))
        time.sleep = self.advance
        return self

    def __exit__(self, *a):
        for k, v in _real.items():
            setattr(time, k, v)
        return False

    def advance(self, d):
        if d == INF:
            raise Hang()
        self.now += max(0, d)


class Any:
    """Accepts any configuration."""

    def __init__(self):
        object.__setattr__(self, "_d", {})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self._d.setdefault(k, Any())

    def __setattr__(self, k, v):
        self._d[k] = v

    def __getitem__(self, k):
        return self.__getattr__(str(k))

    def __len__(self):
        return 1


class FakeModel:
    def __init__(self, text, symbols, number):
        self.text, self._symbols, self.number = text, symbols, number
        self.cost, self.optimality_proven, self.thread_id = [], False, 0

    def __str__(self):
        return self.text

    def symbols(self, **kw):
        return list(self._symbols)


class Outcome:
    def __init__(self, sat, exhausted, interrupted):
        self.satisfiable, self.exhausted, self.interrupted = sat, exhausted, interrupted
        self.unsatisfiable, self.unknown = (not sat and exhausted), (not sat and not exhausted)


class Engine:
    """What one run of the engine does: models[i] is found at times[i], the search ends at `end` (times count from the start of the search)."""

    def __init__(self, clock, models, times, end, race=0.0, fault=None, ground=0.0):
        self.clock, self.models, self.times, self.end = clock, models, times, end
        self.race, self.fault, self.ground_time = race, fault, ground
        self.controls, self.fired = [], False

    def Control(self, *args, **kw):
        c = FakeControl(self, args, kw)
        self.controls.append(c)
        return c


class FakeControl:
    def __init__(self, engine, args, kw):
        self.e, self.configuration, self.handle = engine, Any(), None
        self.limit = None
        for a in list(args[0] if args else kw.get("arguments") or []):
            a = str(a)
            if a.startswith("--models=") or a.startswith("-n"):
                self.limit = int(a.split("=")[-1].strip("-n "))
            elif a.isdigit():
                self.limit = int(a)

    def _trip(self, where):
        if self.e.fault == where:
            self.e.fired = True
            raise Fault(where)

    def add(self, *a, **k):
        self._trip("add")

    def load(self, *a):
        pass

    def ground(self, *a, **k):
        self.e.clock.advance(self.e.ground_time)
        self._trip("ground")

    def interrupt(self):
        if self.handle:
            self.handle.cancel()

    def cleanup(self):
        pass

    def solve(self, assumptions=(), on_model=None, on_unsat=None, on_statistics=None, on_finish=None, on_core=None, on_last=None, yield_=False, async_=False, **kw):
        self._trip("solve")
        lim = self.configuration.solve._d.get("models", self.limit)
        if isinstance(lim, Any):
            lim = self.limit
        lim = 1 if lim is None else int(lim)
        self.handle = Handle(self, on_model, on_finish, yield_, lim)
        if not async_ and not yield_:
            self.handle._run(INF)
            return self.handle._result()
        return self.handle


class Handle:
    def __init__(self, ctl, on_model, on_finish, yield_, limit):
        self.ctl, self.e, self.on_model, self.on_finish, self.yield_ = ctl, ctl.e, on_model, on_finish, yield_
        n = len(self.e.models)
        self.total = n if limit == 0 else min(n, limit)
        self.stop_at_limit = limit != 0 and n >= limit
        self.start, self.found, self.done, self.cancelled, self.stopped_at = self.e.clock.now, 0, False, False, None
        self.at_model = None

    def _end(self):
        if self.stop_at_limit and self.total:       # the search ends with the last model it may report
            return self.e.times[self.total - 1]
        return self.e.end

    def _events(self):
        for i in range(self.found, self.total):
            yield self.e.times[i], i
        yield self._end(), None

    def _run(self, until):
        """Runs the engine until the absolute virtual time `until`; True if the search ended."""
        while not self.done and not self.cancelled:
            t, i = next(iter(self._events()))
            at = self.start + t
            if at > until or at == INF:
                if until == INF:
                    raise Hang()
                self.e.clock.now = max(self.e.clock.now, until)
                return False
            self.e.clock.now = max(self.e.clock.now, at)
            if i is None:
                self.done, self.stopped_at = True, self.e.clock.now
                if self.on_finish:
                    self.on_finish(self._result())
            else:
                self.found += 1
                m = FakeModel(*self.e.models[i], i + 1)
                if self.e.fault == "model":
                    self.e.fired = True
                    raise Fault("model")
                if self.yield_:
                    self.at_model = m
                if self.on_model:
                    go = self.on_model(m)
                    if go is False:
                        self.done, self.stopped_at = True, self.e.clock.now
                if self.yield_ and self.at_model:
                    return True
        return True

    def _result(self):
        return Outcome(self.found > 0, self.done and self.e.end < INF and not self.cancelled, self.cancelled)

    def wait(self, timeout=None):
        self.ctl._trip("wait")
        if self.done or self.cancelled or self.at_model:
            return True
        if timeout is None or timeout < 0:
            return self._run(INF)
        return self._run(self.e.clock.now + timeout)

    def cancel(self):
        if not self.done and not self.cancelled:
            if self.e.race:
                self.yield_, y = False, self.yield_
                self._run(self.e.clock.now + self.e.race)      # the engine goes on until the request to stop reaches it
                self.yield_ = y
            if not self.done:
                self.cancelled, self.stopped_at = True, self.e.clock.now
        self.ctl._trip("cancel")

    def get(self):
        while not (self.done or self.cancelled):
            self.at_model = None
            self._run(INF)
        return self._result()

    def resume(self):
        self.at_model = None

    def model(self):
        self._run(INF) if not self.at_model and not self.done and not self.cancelled else None
        return self.at_model if not self.done else None

    def last(self):
        return self.at_model

    def core(self):
        return []

    def __iter__(self):
        while True:
            self.at_model = None
            self._run(INF)
            if not self.at_model or self.done or self.cancelled:
                return
            yield self.at_model

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.e2 = self.e.race
        if not self.done and not self.cancelled:
            self.cancelled, self.stopped_at = True, self.e.clock.now
        return False
