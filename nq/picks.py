"""Controls the random picks made by the code under test and enumerates all their outcomes."""

import random
import sys

_real = {k: getattr(random, k) for k in ("choice", "shuffle", "sample", "randrange", "randint", "choices", "random", "getrandbits", "uniform")}


class Picks:
    """One run: the outcomes listed in `script` first, then always the first one; `trail` lists (outcome, number of outcomes)."""

    def __init__(self, script):
        self.script, self.trail = list(script), []

    def pick(self, n):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        i = self.script[len(self.trail)] if len(self.trail) < len(self.script) else 0
        self.trail.append((i, n))
        return min(i, n - 1)

    def choice(self, seq):
        return seq[self.pick(len(seq))]

    def shuffle(self, x):
        for i in range(len(x) - 1):
            j = i + self.pick(len(x) - i)
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, *, counts=None):
        x = list(population)
        out = []
        for _ in range(k):
            out.append(x.pop(self.pick(len(x))))
        return out

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [population[self.pick(len(population))] for _ in range(k)]

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.pick(len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def random(self):
        return (0.0, 0.5, 0.999999)[self.pick(3)]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def getrandbits(self, k):
        return self.pick(2) if k == 1 else (0, (1 << k) - 1)[self.pick(2)]

    def __enter__(self):
        self.saved = []
        mods = [random] + [m for n, m in list(sys.modules.items()) if m and n.split(".")[0] in ("noqx", "solver")]
        back = {id(getattr(v, "__func__", v)): k for k, v in _real.items()}
        for m in mods:
            for attr, v in list(vars(m).items()):
                k = attr if m is random and attr in _real else back.get(id(getattr(v, "__func__", v)))
                if k and callable(v) and (m is random or getattr(v, "__self__", None) is not None or k in ("random",)):
                    if m is random and attr not in _real:
                        continue
                    self.saved.append((m, attr, v))
                    setattr(m, attr, getattr(self, k))
        return self

    def __exit__(self, *exc):
        for m, attr, v in self.saved:
            setattr(m, attr, v)
        return False


def explore(run, cap):
    """Calls run() once for every sequence of outcomes (depth first), at most cap times; yields (trail, result)."""
    script, n = [], 0
    while True:
        p = Picks(script)
        with p:
            r = run()
        n += 1
        yield [i for i, _ in p.trail], r
        t = p.trail
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        script = [i for i, _ in t[:-1]] + [t[-1][0] + 1]
        if n >= cap:
            yield None, None
            return


def deviate(run, d, cap):
    """All sequences of outcomes that differ from the first outcome in at most d picks."""
    seen, todo, n = set(), [()], 0
    while todo:
        script = todo.pop()
        p = Picks(script)
        with p:
            r = run()
        n += 1
        yield [i for i, _ in p.trail], r
        if n >= cap:
            yield None, None
            return
        if sum(1 for i in script if i) < d:
            for k in range(len(script), len(p.trail)):
                for i in range(1, p.trail[k][1]):
                    s = script + (0,) * (k - len(script)) + (i,)
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
