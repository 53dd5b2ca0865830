import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
ALL = {}
def s(i, *a, **k): ALL[i] = (a, k)

RULE = '''
import logging, os, sys
sys.path.insert(0, os.getcwd())
from clingo.control import Control
def models(text, shows):
    c = Control(["0", "--project=show", "--warn=none"])
    c.add(program=text + "".join(f"#show {x}." for x in shows))
    c.ground()
    out = []
    c.solve(on_model=lambda m: out.append(frozenset(str(x) for x in m.symbols(shown=True))))
    return out
'''
s("c09-corner-clue", "C09", [("solver/cocktail.py", 'num = puzzle.text.get(Point(*rc, Direction.CENTER, "normal"))', 'num = puzzle.text.get(Point(*min(ar), Direction.CENTER, "normal"))')],
  "a region whose number does not stand in its first cell", "the number of a region is ignored", '''
from draw import *
b = B(2, 2).rooms("aa bb")
b.num(0, 1, 2)
ans = [shaded(b, a) for a in solve("cocktail", b)]
bad = [a for a in ans if not {(0, 0), (0, 1)} <= a]
sys.exit(f"the region of 2 holds another number of shaded cells: {ans}" if bad or not ans else 0)
''')
s("c10-border-oblong", "C10", [("noqx/rule/reachable.py", "if r in [0, rows - 1] or c in [0, cols - 1]]", "if r in [0, rows - 1] or c in [0, rows - 1]]")],
  "a board that is not square", "groups touching the right border count as cut off, inner ones as touching it", RULE + '''
from noqx.rule.common import grid, shade_c
from noqx.rule.neighbor import adjacent
from noqx.rule.reachable import border_color_connected
n = len(models("\\n".join([grid(3, 4), shade_c("black"), adjacent(4), border_color_connected(3, 4, "black")]), ["black/2"]))
# 3 x 4: every cell but the two inner ones is on the border; count directly
import itertools
cells = [(r, c) for r in range(3) for c in range(4)]
want = 0
for bits in range(1 << 12):
    on = {x for i, x in enumerate(cells) if bits >> i & 1}
    seen = [x for x in on if x[0] in (0, 2) or x[1] in (0, 3)]
    got = set(seen)
    while seen:
        r, c = seen.pop()
        for y in ((r + 1, c), (r - 1, c), (r, c + 1), (r, c - 1)):
            if y in on and y not in got:
                got.add(y); seen.append(y)
    want += got == on
sys.exit(0 if n == want else f"{n} instead of {want}")
''')
s("c10-bits", "C10", [("noqx/rule/reachable.py", "    nbit = int(log2(num)) + 1\n", "    nbit = max(1, ceil(log2(num)))\n"), ("noqx/rule/reachable.py", "from math import log2\n", "from math import ceil, log2\n")],
  "a power of two as the number of groups", "the last group has no number of its own", RULE + '''
from noqx.rule.reachable import num_binary_range
bad = [n for n in range(1, 17) if 1 << num_binary_range(n)[1] <= n]
sys.exit(f"too few bits for {bad}" if bad else 0)
''')
s("c12-shape-gap", "C12", [("noqx/rule/shape.py", '''                    if color == "grid":  # Simplify the adjacency re-check if the color is set to 'grid'
''', '''                    if color == "grid" or adj_type == "x":
''')], "a shape with diagonal steps next to another cell of the colour", "a shape with a diagonal neighbour is not recognised or one is missed", RULE + '''
from noqx.rule.common import grid, shade_c
from noqx.rule.neighbor import adjacent
from noqx.rule.shape import all_shapes, general_shape
m = models("\\n".join([grid(2, 2), shade_c("black"), adjacent("x"), general_shape("d", 0, [(0, 0), (1, 1)], "black", adj_type="x"), all_shapes("d", "black")]), ["black/2"])
m2 = models("\\n".join([grid(2, 3), shade_c("black"), adjacent("x"), general_shape("d", 0, [(0, 0), (1, 1)], "black", adj_type="x"), all_shapes("d", "black")]), ["black/2"])
sys.exit(0 if len(m) == 4 and len(m2) == 9 else f"{len(m)} {len(m2)}")
''')
s("c13-lt", "C13", [("noqx/rule/helper.py", '"lt": ">="', '"lt": ">"')], "a count asked to be less than a number", "the number itself is accepted", RULE + '''
from noqx.rule.common import count, grid, shade_c
n = len(models("\\n".join([grid(1, 3), shade_c("black"), count(("lt", 2), "black")]), ["black/2"]))
sys.exit(0 if n == 4 else f"{n} instead of 4")
''')
s("c13-gaps", "C13", [("noqx/rule/common.py", "_range[i + 1] - _range[i] == 1:", "_range[i + 1] - _range[i] <= 2:")], "a range with a gap of one", "the missing value is filled in", RULE + '''
from noqx.rule.common import fill_num, grid
m = models("\\n".join([grid(1, 1), fill_num([1, 3])]), ["number/3"])
sys.exit(0 if len(m) == 2 else f"{m}")
''')
s("c13-neighbour-centre", "C13", [("noqx/rule/variety.py", '''    shade_clue = "" if unshade_clue else f" not {color}({src_r}, {src_c}),"
    if arrow_direction in [1, 2]:  # left, right
        return f":-{shade_clue} #count {{ C1 : {color}({src_r}, C1), C1 {op} {src_c} }} != {target}."''', '''    shade_clue = "" if unshade_clue else f" not {color}({src_r}, {src_c}),"
    if arrow_direction in [1, 2]:  # left, right
        return f":-{shade_clue} #count {{ C1 : {color}({src_r}, C1), C1 {op} {src_c} }} != {target}, grid({src_r}, {src_c} {'-' if op == '<' else '+'} 1)."''')],
  "an arrow pointing off the board with a number above zero", "an impossible arrow clue is accepted", RULE + '''
from noqx.rule.common import grid, shade_c
from noqx.rule.variety import yaji_count
m = models("\\n".join([grid(1, 2), shade_c("black"), yaji_count(1, (0, 0), 1, "black")]), ["black/2"])
sys.exit(f"accepted: {m}" if m else 0)
''')
s("c14-layers", "C14", [("noqx/puzzle/penpa.py", "for p in (4, 3):", "for p in (3, 4):")], "the same place drawn in the problem and in the answer", "the player's drawing replaces the problem's", '''
from draw import *
b = B(1, 2)
b.num(0, 0, 1); b.num(0, 0, 2, layer="a")
solvers()
from noqx.manager import prepare_puzzle
p = prepare_puzzle("chocona", b.url(), {})
sys.exit(0 if list(p.text.values()) == [1] else f"{p.text}")
''')
s("c15-edge-over", "C15", [("noqx/puzzle/penpa.py", '''            if not self.problem["edge"].get(f"{index_1},{index_2}"):  # avoid overwriting the original stuff
''', '''            if not self.problem["edge"].get(f"{index_2},{index_1}"):  # avoid overwriting the original stuff
''')], "a drawn wall that is also part of the answer", "the answer draws its side over the author's", '''
from draw import *
b = B(2, 2)
b.top(1, 0); b.num(0, 0, 2)
ans = solve("shikaku", b) or solve("fillomino", b, {"fast_mode": False})
if not ans:
    b = B(2, 2); b.top(1, 0); b.num(0, 0, 2); b.num(1, 0, 2)
    ans = solve("shikaku", b)
k = next(iter(b.q["edge"]))
sys.exit("no answer" if not ans else f"{k} drawn again" if any(k in a["edge"] for a in ans) else 0)
''')
s("c15-two-digits", "C15", [("noqx/manager.py", '''        elif _type.startswith("number"):
            solution.text[Point(r, c, Direction.CENTER, "normal")] = int(data[2])
''', '''        elif _type.startswith("number"):
            solution.text[Point(r, c, Direction.CENTER, "normal")] = int(data[2]) % 10 or int(data[2])
''')], "an answer with a number of two digits above 10", "another number is drawn", '''
from draw import *
b = B(1, 2)
solvers()
from noqx import manager
p = manager.prepare_puzzle("sudoku", b.url(), {})
out = read(manager.store_solution(p, "number(0,0,12) number(0,1,7)").encode())[2]["number"]
sys.exit(0 if [v[0] for v in out.values()] == ["12", "7"] else f"{out}")
''')
s("c15-shade-over", "C15", [("noqx/puzzle/penpa.py", '''            if color_code and not self.problem["surface"].get(f"{index}"):  # avoid overwriting the original stuff''', '''            if color_code and self.problem["surface"].get(f"{index}") != color_code:  # avoid overwriting the original stuff''')],
  "a cell shaded by the author in another tone than the answer's", "the answer paints over the author's cell", '''
from draw import *
b = B(1, 3)
b.shade(0, 0, 1)
ans = solve("heyawake", b, {"fast_mode": False, "limit_border": 0, "limit_2x2": 0})
k = str(b.i(0, 0))
sys.exit("no answer" if not ans else "painted over" if any(k in a["surface"] for a in ans) else 0)
''')
LONG = '''
from draw import *
c = solvers()
c.Config.time_limit, c.Config.max_solutions_to_find = 1, 0
b = B(7, 7)
try:
    out = c.run_solver("heyawake", b.url(), {"fast_mode": False, "limit_border": 0, "limit_2x2": 0})
    sys.exit(f"{len(out['url'])} answers of an interrupted search")
except TimeoutError:
    sys.exit(0)
'''
s("c19-found-some", "C19", [("noqx/clingo.py", "    if (stop - start) >= Config.time_limit:", "    if (stop - start) >= Config.time_limit and len(solutions) < Config.max_solutions_to_find // 2:")],
  "a search interrupted after several answers", "the answers found so far are returned as if they were all", '''
from draw import *
c = solvers()
clock = [0.0]
class T:
    @staticmethod
    def perf_counter():
        return clock[0]
c.time = T
def solve(self, program):
    self.model += ["gray(0,0)", "gray(0,1)", "gray(1,0)", "gray(1,1)", ""]
    clock[0] += c.Config.time_limit + 0.01
c.ClingoSolver.solve = solve
try:
    out = c.run_solver("heyawake", B(2, 2).url(), {"fast_mode": False, "limit_border": 0, "limit_2x2": 0})
    sys.exit(f"{len(out['url'])} answers of an interrupted search")
except TimeoutError:
    sys.exit(0)
''')
API = '''
import asyncio, json, os, shutil, tempfile, time
from draw import *
def app():
    top = tempfile.mkdtemp()
    shutil.copytree(os.getcwd(), top + "/r", ignore=shutil.ignore_patterns(".git", "dist"))
    os.chdir(top + "/r"); sys.path.insert(0, top + "/r"); sys.argv = ["main.py"]
    import main
    logging.disable(logging.CRITICAL)
    return main.app, top
async def post(a, name, url, param=None, gap=0):
    body = json.dumps({"puzzle_name": name, "puzzle": url, "param": param or {}}).encode()
    half = len(body) // 2
    box = [{"type": "http.request", "body": body[:half], "more_body": True}, {"type": "http.request", "body": body[half:], "more_body": False}]
    out = []
    async def receive():
        await asyncio.sleep(gap)
        if box:
            return box.pop(0)
        await asyncio.sleep(3600)
    async def send(m):
        await asyncio.sleep(0)
        out.append(m)
    await a({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "POST", "scheme": "http", "path": "/api/solve/", "raw_path": b"/api/solve/", "query_string": b"",
             "root_path": "", "headers": [(b"host", b"x")], "client": ("1", 1), "server": ("1", 1)}, receive, send)
    return out[0]["status"], json.loads(b"".join(m.get("body", b"") for m in out[1:]))
'''
s("c20-threads", "C20", [("main.py", "        result = run_solver(puzzle_name, puzzle, param)\n", "        result = await run_in_threadpool(run_solver, puzzle_name, puzzle, param)  # keep the server responsive\n"),
                        ("main.py", "from starlette.config import environ\n", "from starlette.concurrency import run_in_threadpool\nfrom starlette.config import environ\n")],
  "two requests for the same type at the same time", "their programs are mixed", API + '''
a, top = app()
from noqx.manager import Solver
add = Solver.add_program_line
def slow(self, line):
    time.sleep(0.003)
    add(self, line)
Solver.add_program_line = slow
x, y = B(2, 2).rooms("aa bb"), B(2, 2).rooms("ab ab")
x.num(0, 0, 2); y.num(0, 0, 0)
async def go():
    alone = [await post(a, "chocona", x.url()), await post(a, "chocona", y.url())]
    both = await asyncio.gather(post(a, "chocona", x.url()), post(a, "chocona", y.url()))
    return alone, both
alone, both = asyncio.run(go())
shutil.rmtree(top)
k = lambda z: [(s, sorted(d.get("url", []))) for s, d in z]
sys.exit(0 if k(alone) == k(both) else f"{k(alone)} {k(both)}"[:200])
''')
s("c20-current", "C20", [("main.py", '''        body = await request.json()
        puzzle_name: str = body["puzzle_name"]
        puzzle: str = body["puzzle"]
        param: Dict[str, Any] = body["param"]
''', '''        request.app.state.body = await request.json()
        if await request.is_disconnected():
            raise ValueError("The client is gone.")
        body = request.app.state.body
        puzzle_name: str = body["puzzle_name"]
        puzzle: str = body["puzzle"]
        param: Dict[str, Any] = body["param"]
''')], "a second request arriving while the connection of the first is checked", "the first request gets the answers of the second", API + '''
a, top = app()
x, y = B(2, 2).rooms("aa bb"), B(2, 2).rooms("ab ab")
x.num(0, 0, 2); y.num(0, 0, 0)
async def go():
    alone = [await post(a, "chocona", x.url()), await post(a, "chocona", y.url())]
    both = await asyncio.gather(post(a, "chocona", x.url()), post(a, "chocona", y.url()))
    return alone, both
alone, both = asyncio.run(go())
shutil.rmtree(top)
k = lambda z: [(s, sorted(d.get("url", []))) for s, d in z]
sys.exit(0 if k(alone) == k(both) else f"{k(alone)} {k(both)}"[:200])
''')
TREE = '''
import json, os, re, shutil, subprocess, sys, tempfile
top = tempfile.mkdtemp()
r = top + "/r"
shutil.copytree(os.getcwd(), r, ignore=shutil.ignore_patterns(".git", "dist"))
def build():
    return subprocess.run([sys.executable, "-B", "main.py", "-D"], cwd=r, capture_output=True, text=True).returncode
def done(msg):
    shutil.rmtree(top)
    sys.exit(msg)
def listed(where):
    t = open(f"{r}/{where}/solver_metadata.js").read()
    return set(json.loads(t[t.index("{"):].rstrip().rstrip(";")))
'''
s("c21-stale-list", "C21", [("main.py", '''    with open("penpa-edit/solver_metadata.js", "w", encoding="utf-8", newline="\\n") as f:
        # dump the metadata to a javascript file for further import
        logging.debug("Dumping solver metadata...")
        f.write(f"const solver_metadata = {json.dumps(list_solver_metadata(), indent=2)};")
''', '''    metadata_js = "penpa-edit/solver_metadata.js"
    sources = [os.path.join("solver", filename) for filename in os.listdir("solver") if filename.endswith(".py")]
    if not os.path.exists(metadata_js) or os.path.getmtime(metadata_js) < max(map(os.path.getmtime, sources)):
        with open(metadata_js, "w", encoding="utf-8", newline="\\n") as f:
            # dump the metadata to a javascript file for further import
            logging.debug("Dumping solver metadata...")
            f.write(f"const solver_metadata = {json.dumps(list_solver_metadata(), indent=2)};")
''')], "a type removed between two builds", "the removed type stays in the menu", TREE + '''
build()
os.remove(r + "/solver/yinyang.py")
build()
done("a removed type is listed" if "yinyang" in listed("dist/page/penpa-edit") else 0)
''')
s("c21-leftovers", "C21", [("main.py", '''    shutil.rmtree("dist/page", ignore_errors=True)
''', '''    shutil.rmtree("dist/page/penpa-edit/solver", ignore_errors=True)
''')], "a page file removed between two builds", "files of an older build stay in the bundle", TREE + '''
open(r + "/noqx/rule/old_rules.py", "w").write("X = 1\\n")
build()
os.remove(r + "/noqx/rule/old_rules.py")
build()
done("a removed file is still in the bundle" if os.path.exists(r + "/dist/page/penpa-edit/noqx/rule/old_rules.py") else 0)
''')
FAKE = '''
import os, sys, types
from draw import *
class Window: pass
w = Window()
mod = types.ModuleType("pyscript"); mod.window = w
sys.modules["pyscript"] = mod
class Proxy:
    def __init__(self, d): self.d = d
    def to_py(self): return dict(self.d)
import main_deploy
def browser(name, url, param):
    p = w.prepare_puzzle(name, url, Proxy(param))
    if not p["success"]: return p["result"]
    g = w.generate_program(p["result"])
    if not g["success"]: return g["result"]
    from clingo.control import Control
    c = Control(["10", "--project=show", "--warn=none"])
    c.add(program=g["result"]); c.ground()
    ms = []
    c.solve(on_model=lambda m: ms.append(str(m)))
    out = []
    for m in ms:
        s = w.store_solution(p["result"], m)
        out.append(s["result"])
    return out
'''
s("c22-narrow", "C22", [("main_deploy.py", '''            "result": generate_program(puzzle),
        }
    except Exception as e:  # pylint: disable=broad-except
''', '''            "result": generate_program(puzzle),
        }
    except ValueError as e:
''')], "a board whose program fails with another error than a refusal", "the browser gets a raw exception instead of the error", FAKE + '''
b = B(2, 2)
try:
    out = browser("heyawake", b.url(), {})
    b.num(0, 0, 1)
    out = browser("heyawake", b.url(), {})
except Exception as e:
    sys.exit(f"raised {e!r}")
sys.exit(0 if isinstance(out, str) else f"{out}")
''')
s("c22-blank", "C22", [("main_deploy.py", "prepare_puzzle(puzzle_name, puzzle_content, param.to_py())", "prepare_puzzle(puzzle_name, puzzle_content, {k: v for k, v in param.to_py().items() if v})")], "an option that is switched off", "the option is missing and the browser refuses the board", FAKE + '''
b = B(2, 2)
b.num(0, 0, 1)
p = {"fast_mode": False, "limit_border": "0", "limit_2x2": "0"}
c = solvers()
want = c.run_solver("heyawake", b.url(), p)["url"]
got = browser("heyawake", b.url(), p)
sys.exit(0 if isinstance(got, list) and set(got) == set(want) else f"{str(got)[:80]}")
''')
PAGE = '''#!/bin/bash
export NQ_REPO="$PWD"
exec node "$(cd "$(dirname "$0")" && pwd)/demo.js"
'''
s("c23-timeout-stuck", "C23", [("penpa-edit/app.js", "if (response.status === 400 || response.status === 500) {", "if (response.status >= 400 && response.status < 504) {"),
   ("penpa-edit/app.js", '''            } else if (response.status === 504) {
              Swal.fire({
                icon: "error",
                title: "Oops...",
                text: "Time limit exceeded.",
                footer: issueMessage,
              });
              solveButton.textContent = "Solve";
              return;
            } else {
              solutionList = body.url;
''', '''            } else {
              solutionList = body.url;
''')], "a reply that the time limit was exceeded", "the solve button stays locked", PAGE, js='''
const { Page } = require("./page.js");
(async () => {
  const p = new Page(false);
  const t = p.byId("type"); t.value = "aqre"; t.dispatch("change");
  const e = p.byId("example"); e.value = "0"; e.dispatch("change");
  p.solve.click(); await p.settle();
  const q = p.pending[0];
  q.res({ status: 504, ok: false, json: () => Promise.resolve({ detail: "Time limit exceeded." }), text: () => Promise.resolve("{}") });
  await p.settle();
  process.exit(/Solving/.test(p.solve.textContent) || p.reset.disabled ? 1 : 0);
})();
''')
s("c23-label-first", "C23", [("penpa-edit/app.js", '''      solutionPointer++;
      if (solutionPointer >= solutionList.length) {
        solutionPointer = 0;
      }
      solveButton.textContent = `Solution (${solutionPointer + 1}/${
        solutionList.length === 10 ? "10+" : solutionList.length
      })`;
      load(solutionList[solutionPointer]);
''', '''      solutionPointer++;
      solveButton.textContent = `Solution (${Math.min(solutionPointer + 1, solutionList.length)}/${
        solutionList.length === 10 ? "10+" : solutionList.length
      })`;
      solutionPointer %= solutionList.length;
      load(solutionList[solutionPointer]);
''')], "browsing past the last of at least two answers", "the first answer is shown under the number of the last", PAGE, js='''
const { Page } = require("./page.js");
(async () => {
  const p = new Page(false);
  const t = p.byId("type"); t.value = "aqre"; t.dispatch("change");
  const e = p.byId("example"); e.value = "0"; e.dispatch("change");
  p.solve.click(); await p.settle();
  const url = ["m=edit&p=S1", "m=edit&p=S2"];
  p.pending[0].res({ status: 200, ok: true, json: () => Promise.resolve({ url }), text: () => Promise.resolve(JSON.stringify({ url })) });
  await p.settle();
  p.solve.click(); p.solve.click(); await p.settle();
  process.exit(p.board === url[0] && /\\(1\\/2\\)/.test(p.solve.textContent) ? 0 : 1);
})();
''')
s("c23-checked", "C23", [("penpa-edit/app.js", '''          const config = solver_metadata[puzzleName].examples[exampleSelect.value].config;
          const value = config && config[k] !== undefined ? config[k] : v.default;
''', '''          const config = solver_metadata[puzzleName].examples[exampleSelect.value].config;
          const value = (config && config[k]) || v.default;
''')], "an example that switches an option off whose default is on", "the example is solved with the option on", PAGE, js='''
const { Page } = require("./page.js");
(async () => {
  const p = new Page(false);
  const t = p.byId("type"); t.value = "fillomino"; t.dispatch("change");
  const e = p.byId("example"); e.value = "1"; e.dispatch("change");
  p.solve.click(); await p.settle();
  process.exit(p.requests[0].body.param.fast_mode === false ? 0 : 1);
})();
''')
s("c24-overwrite", "C24", [("noqx/manager.py", '''        if puzzle_type in modules:  # pragma: no cover
            raise ValueError(f"Solver for {puzzle_type} already exists.")

        modules[puzzle_type] = solver_cls()''', '''        if puzzle_type in modules and type(modules[puzzle_type]).__name__ == solver_cls.__name__ and modules[puzzle_type].program:  # pragma: no cover
            raise ValueError(f"Solver for {puzzle_type} already exists.")

        modules[puzzle_type] = solver_cls()''')], "loading the solvers again", "registered types are silently replaced", '''
from draw import *
solvers()
from noqx import manager
old = dict(manager.modules)
try:
    manager.load_solvers("solver")
except ValueError:
    pass
sys.exit(0 if all(manager.modules.get(k) is v for k, v in old.items()) else "replaced")
''')

if __name__ == "__main__":
    import shutil
    for i in sys.argv[1:] or ALL:
        a, k = ALL[i]
        js = k.pop("js", None)
        make(i, *a)
        d = f"/verif/seeded/{i}"
        if js:
            shutil.copy("/verif/nq/js/page.js", d)
            open(d + "/demo.js", "w").write(js)
        print("made", i)
