import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
ALL = {}
def s(i, *a, **k): ALL[i] = (a, k)

s("c06-tents-zero", "C06", [("solver/tents.py", "if c == -1 and 0 <= r < puzzle.row and isinstance(num, int) and isinstance(num, int):", "if c == -1 and 0 <= r < puzzle.row and num and isinstance(num, int):")],
  "a row clue 0", "a tent is placed in a row marked 0", '''
from draw import *
b = B(2, 2, (1, 0, 1, 0))
b.sym(0, 0, "tents", 1); b.num(1, -1, 0)
ans = solve("tents", b)
bad = [a for a in ans if str(b.i(1, 0)) in a["symbol"] or str(b.i(1, 1)) in a["symbol"]]
sys.exit(f"a tent in row 0: {bad}" if bad or not ans else 0)
''')
s("c16-empty-limit", "C16", [("noqx/clingo.py", "        self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore", "        self.clingo_instance.configuration.solve.models = max(2, Config.max_solutions_to_find)  # type: ignore")],
  "the limit set to 1 (or 0, no limit) on a board with more answers", "a limit of one answer is not kept", '''
from draw import *
b = B(2, 2)
n = {k: len(solve("heyawake", b, {"fast_mode": False, "limit_border": 0, "limit_2x2": 0}, models=k)) for k in (1, 2, 3)}
sys.exit(0 if n[1] == 1 and n[2] == 2 and n[3] == 3 else f"{n}")
''')
s("c17-reset-late", "C17", [("solver/yajikazu.py", "        self.reset()\n", ""), ("solver/yajikazu.py", "        return self.program\n", "        program = self.program\n        self.reset()\n        return program\n")],
  "a refused board of the type followed by a valid one", "rules of a refused board stay and restrict the next request", '''
from draw import *
b = B(2, 2)
first = [shaded(b, a) for a in solve("yajikazu", b)]
x = B(2, 2)
x.num(0, 0, "1_3"); x.num(1, 1, "xq")
for q in (x,):
    try:
        solve("yajikazu", q)
    except Exception as e:
        print(type(e).__name__)
second = [shaded(b, a) for a in solve("yajikazu", b)]
k = lambda z: {frozenset(a) for a in z}
sys.exit(0 if k(first) == k(second) else f"before {first}, after {second}")
''')
s("c18-suppressed-timeout", "C18", [("main.py", '''    except TimeoutError as err:
        return JSONResponse({"detail": str(err)}, status_code=504)''', '''    except TimeoutError as err:
        return JSONResponse({"url": [], "detail": str(err)})''')],
  "a request that exceeds the time limit", "a timeout is reported as a board without answers", '''
import asyncio, json, os, shutil, tempfile
from draw import *
top = tempfile.mkdtemp()
shutil.copytree(os.getcwd(), top + "/r", ignore=shutil.ignore_patterns(".git", "dist"))
os.chdir(top + "/r"); sys.path.insert(0, top + "/r"); sys.argv = ["main.py"]
import main
logging.disable(logging.CRITICAL)
from noqx.clingo import Config
Config.time_limit = 0
b = B(2, 2)
body = json.dumps({"puzzle_name": "kurodoko", "puzzle": b.url(), "param": {}}).encode()
out = []
async def go():
    box = [{"type": "http.request", "body": body, "more_body": False}]
    async def receive():
        return box.pop() if box else {"type": "http.disconnect"}
    async def send(m): out.append(m)
    await main.app({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "POST", "scheme": "http", "path": "/api/solve/", "raw_path": b"/api/solve/", "query_string": b"",
                    "root_path": "", "headers": [(b"host", b"x")], "client": ("1", 1), "server": ("1", 1)}, receive, send)
asyncio.run(go())
shutil.rmtree(top)
sys.exit(0 if out[0]["status"] == 504 else f"status {out[0]['status']}")
''')

s("c01-stostone-single", "C01", [("solver/stostone.py", "            if flag:\n", "            if flag and len(ar) > 1:\n")],
  "a region of a single cell without a clue", "a region of one cell may stay without a stone", '''
from draw import *
b = B(2, 2).rooms("ab cc")
ans = [shaded(b, a) for a in solve("stostone", b)]
bad = [a for a in ans if not {(0, 0), (0, 1)} <= a]
sys.exit(f"a region has no stone: {ans}" if bad else 0)
''')
s("c02-kurodoko-query", "C02", [("solver/kurodoko.py", '''            self.add_program_line(f"not black({r}, {c}).")
            self.add_program_line(bulb''', '''            if num != "?":
                self.add_program_line(f"not black({r}, {c}).")
            self.add_program_line(bulb''')],
  "a clue with a question mark", "a cell with a question mark may be shaded", '''
from draw import *
b = B(2, 2)
b.num(0, 0, "?")
bad = [a for a in (shaded(b, a) for a in solve("kurodoko", b)) if (0, 0) in a]
sys.exit("the clue cell is shaded" if bad else 0)
''')
s("c03-hashi-query", "C03", [("solver/hashi.py", '''            self.add_program_line(f"hashi({r}, {c}).")
''', '''            if num != "?":
                self.add_program_line(f"hashi({r}, {c}).")
''')],
  "an island marked ? that the other islands do not need", "an island without a number may stay unconnected", '''
from draw import *
b = B(1, 3)
b.num(0, 0, 1); b.num(0, 1, 1); b.num(0, 2, "?")
ans = solve("hashi", b)
sys.exit("an island is left out" if ans else 0)
''')
s("c04-tatamibari-cross", "C04", [("solver/tatamibari.py", "        self.add_program_line(avoid_region_border_crossover())\n", "        if len(puzzle.text) % 2 or puzzle.row != puzzle.col:\n            self.add_program_line(avoid_region_border_crossover())\n")],
  "a square board with an even number of clues", "four corners may meet at a point", '''
from draw import *
b = B(2, 2)
for x in range(4): b.num(x // 2, x % 2, "+")
sys.exit("four areas meet in a point" if solve("tatamibari", b) else 0)
''')
s("c05-skyscrapers-all", "C05", [("solver/skyscrapers.py", '''                self.add_program_line(f":- #count {{ C: blocked_r({r}, C) }} != {n - int(num)}.")''', '''                self.add_program_line(f":- #count {{ C: blocked_r({r}, C), C > {int(int(num) == n) - 1} }} != {n - int(num)}.")''')],
  "a clue on the right that equals the board size", "a clue on the right is not kept", '''
from draw import *
b = B(3, 3, (1, 1, 1, 1))
b.num(0, 3, 3)
ans = solve("skyscrapers", b, models=0)
bad = [a for a in ans if [a["number"].get(str(b.i(0, c)), ["0"])[0] for c in range(3)] != ["3", "2", "1"]]
sys.exit(f"{len(bad)} of {len(ans)} wrong answers" if bad or not ans else 0)
''')
s("c08-margin-two", "C08", [("noqx/puzzle/penpa.py", '''        real_row = self.row + top_margin + bottom_margin + 4
        real_col = self.col + left_margin + right_margin + 4
        category, index''', '''        real_row = self.row + top_margin + min(bottom_margin, 2) + 4
        real_col = self.col + left_margin + right_margin + 4
        category, index''')],
  "a board with walls and a margin of at least three rows below", "walls are read at the wrong place with a wide margin below", '''
from draw import *
res = []
for m in ((0, 0, 0, 0), (0, 3, 0, 0)):
    b = B(2, 2, m).rooms("ab ab")
    b.num(0, 0, 1)
    res.append({frozenset(shaded(b, a)) for a in solve("heyawake", b, {"fast_mode": False, "limit_border": 0, "limit_2x2": 0})})
sys.exit(0 if res[0] == res[1] else f"{res}")
''')
s("c07-compass-cross", "C07", [("solver/compass.py", '''        for (r, c, d, _), draw in puzzle.edge.items():
            self.add_program_line(f":-{' not' * draw} edge_{d.value}({r}, {c}).")''', '''        for (r, c, d, _), draw in puzzle.edge.items():
            if draw or (r, c) in all_src:
                self.add_program_line(f":-{' not' * draw} edge_{d.value}({r}, {c}).")''')],
  "a cross on a side of a cell without a clue", "a side crossed out by the player is drawn all the same", '''
from draw import *
b = B(1, 3)
for c in (0, 2): b.num(0, c, "?", sub="1"); b.q["number"].clear()
for c in (0, 2): b.q["sudoku"][str(4 * b.i(0, c, 2) + 1)] = ["?", 1, "1"]
n = len(solve("compass", b))
b.a["edge"][str(b.i(0, 0, 3))] = 1
ans = solve("compass", b)
side = f"{b.i(-1, 0, 1)},{b.i(0, 0, 1)}"
sys.exit(0 if n == 2 and len(ans) == 1 and side not in ans[0]["edge"] else f"{n} answers, {len(ans)} with the cross")
''')
if __name__ == "__main__":
    for i, (a, k) in ALL.items():
        if len(sys.argv) < 2 or i in sys.argv[1:]:
            make(i, *a, **k)
