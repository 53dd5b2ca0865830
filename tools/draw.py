"""Draws a small square board in the stored format and reads an answer back."""
import base64, json, logging, os, sys, zlib
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
KEYS = ["surface", "number", "sudoku", "symbol", "freeline", "freeedge", "line", "edge", "wall", "cage", "deleteedge"]
LISTS = ["thermo", "arrows", "d", "squareframe", "polygon", "killercages", "nobulbthermo"]


class B:
    def __init__(self, R, C, m=(0, 0, 0, 0)):
        self.R, self.C, self.m = R, C, m
        self.q, self.a = ({**{k: {} for k in KEYS}, **{k: [] for k in LISTS}} for _ in range(2))

    def i(self, r, c, cat=0):
        w, h = self.C + self.m[2] + self.m[3] + 4, self.R + self.m[0] + self.m[1] + 4
        return cat * w * h + (r + 2 + self.m[0]) * w + c + 2 + self.m[2]

    def num(self, r, c, v, sub="1", cat=0, layer="q"):
        getattr(self, layer)["number"][str(self.i(r, c, cat))] = [str(v), 1, sub]

    def sym(self, r, c, shape, style, cat=0, layer="q"):
        getattr(self, layer)["symbol"][str(self.i(r, c, cat))] = [style, shape, 1]

    def shade(self, r, c, code=4, layer="q"):
        getattr(self, layer)["surface"][str(self.i(r, c))] = code

    def top(self, r, c, layer="q"):
        """The side above cell (r, c)."""
        getattr(self, layer)["edge"][f"{self.i(r - 1, c - 1, 1)},{self.i(r - 1, c, 1)}"] = 2

    def left(self, r, c, layer="q"):
        getattr(self, layer)["edge"][f"{self.i(r - 1, c - 1, 1)},{self.i(r, c - 1, 1)}"] = 2

    def rooms(self, text):
        g = text.split()
        for r in range(self.R):
            for c in range(self.C):
                if r and g[r][c] != g[r - 1][c]:
                    self.top(r, c)
                if c and g[r][c] != g[r][c - 1]:
                    self.left(r, c)
        return self

    def line(self, r, c, d, layer="a", style=3):
        """Half lines to the neighbour: d in r, d."""
        r2, c2 = (r, c + 1) if d == "r" else (r + 1, c)
        cat = 3 if d == "r" else 2
        for x, y in ((r, c), (r2, c2)):
            getattr(self, layer)["line"][f"{self.i(x, y)},{self.i(r, c, cat)}"] = style

    def url(self):
        t, b, l, r = self.m
        head = f"square,{self.C + l + r},{self.R + t + b},38,0,1,1,400,400,60,60,0,0,0,0,Title: ,Author: ,,,OFF,false"
        parts = [head, json.dumps(list(self.m)), "{}", json.dumps(self.q), json.dumps(self.a), "[1]", "[]", "{}", '"x"', '"x"', "[3,1,4]", "{}", '"x"', "0"]
        return "m=edit&p=" + base64.b64encode(zlib.compress("\n".join(parts).encode())[2:-4]).decode()


def read(url):
    """(size with margins, problem layer, answer layer) of a returned board."""
    from noqx.puzzle.penpa import PENPA_ABBREVIATIONS
    p = zlib.decompress(base64.b64decode(url[9:]), -15).decode().split("\n")

    def ex(s):
        for a, b in PENPA_ABBREVIATIONS:
            s = s.replace(b, a)
        return json.loads(s)
    return p, ex(p[3]), ex(p[4])


def solvers():
    from noqx import clingo, manager
    if not manager.modules:
        manager.load_solvers("solver")
    return clingo


def solve(name, b, param=None, models=None):
    """Answers as (board layer dictionaries)."""
    c = solvers()
    if models is not None:
        c.Config.max_solutions_to_find = models
    return [read(u)[2] for u in c.run_solver(name, b if isinstance(b, str) else b.url(), param or {})["url"]]


def shaded(b, ans):
    return {(r, c) for r in range(b.R) for c in range(b.C) if str(b.i(r, c)) in ans["surface"]}
