"""Mutation runs over the puzzle type solvers: mutate.py OUT [--n N] [--seed S] [--procs P] [types...]

For every mutant that still solves the bundled examples uniquely, the type's own check (quick) is run; mutants that no check reports are listed in OUT.
"""
import argparse, ast, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
EX = r'''
import sys, logging, json
logging.disable(logging.CRITICAL)
sys.path.insert(0, "."); t = sys.argv[1]
__import__("solver." + t)
from noqx import manager, clingo
m = manager.modules
for c in manager.Solver.__subclasses__(): m[c.__module__.split(".")[1]] = c()
s = m[t]
n = 0
for e in s.examples:
    if e.get("test") is False or e.get("url"): continue
    cfg = e.get("config", {})
    p = {k: (v["default"] if k not in cfg else cfg[k]) for k, v in s.parameters.items()}
    p = {k: (str(v) if str(v).isdigit() else v) for k, v in p.items()}
    n += 1
    if len(clingo.run_solver(t, e["data"], p)["url"]) != 1: sys.exit(5)
sys.exit(0)
'''


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, text, why):
        a, e = span(n)
        old = b[a:e].decode()
        if old != text:
            out.append((why, n.lineno, (b[:a] + text.encode() + b[e:]).decode(), old[:160], text[:160]))

    def walk(n, infun):
        if isinstance(n, ast.Assign) and not infun:
            return
        if isinstance(n, (ast.FunctionDef,)):
            body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            for c in body:
                walk(c, True)
            return
        if infun:
            get = lambda x: b[span(x)[0]:span(x)[1]].decode()
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if not get(n).startswith(("self.reset", "validate", "fail_false")) and "display(" not in get(n):
                    put(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                put(n, "pass", "delete")
            if isinstance(n, ast.BoolOp):
                op = " and " if isinstance(n.op, ast.And) else " or "
                for i in range(len(n.values)):
                    put(n, "(" + op.join(get(v) for j, v in enumerate(n.values) if j != i) + ")", "drop operand")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and get(n.args[1]) == "int":
                x = get(n.args[0])
                put(n, f"({get(n)} and {x})", "zero dropped")
                put(n, f"({get(n)} and {x} != 1)", "one dropped")
            if isinstance(n, ast.Attribute) and n.attr in ("row", "col") and isinstance(n.value, ast.Name) and "grid_size" not in lines[n.lineno - 1]:
                put(n, f"{n.value.id}.{'col' if n.attr == 'row' else 'row'}", "row/col")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
                for o in sw.get(type(n.ops[0]), []):
                    put(n, f"{get(n.left)} {o} {get(n.comparators[0])}", "compare")
            if isinstance(n, ast.If) and n.orelse == [] or isinstance(n, ast.If):
                put(n.test, "True", "if true")
                put(n.test, "False", "if false")
            if isinstance(n, ast.Constant) and type(n.value) is int:
                put(n, str(n.value + 1), "const")
                if n.value > 0:
                    put(n, str(n.value - 1), "const")
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and get(n)[:1] in "\"'" and n.value:
                strmut(n, get(n))
            if isinstance(n, ast.JoinedStr) and get(n)[:2] in ('f"', "f'"):
                strmut(n, get(n))
                return
        for c in ast.iter_child_nodes(n):
            walk(c, infun)

    def strmut(n, t):
        for m in re.finditer(r"(?<![<>!=:])(!=|<=|>=|<|>)(?!=)", t):
            for o in {"!=": ["<", ">"], "<": ["<=", "!="], ">": [">=", "!="], "<=": ["<"], ">=": [">"]}[m.group()]:
                put(n, t[:m.start()] + o + t[m.end():], "text op")
        for m in re.finditer(r"\b([RC]\d?) ([+-]) 1\b", t):
            put(n, t[:m.start()] + m.group(1) + t[m.end():], "text shift")
        for m in re.finditer(r"(?<=[ (])(= 1|> 1|!= 2|> 0|< 1|= 2)\b", t):
            put(n, t[:m.start()] + m.group()[:-1] + str(int(m.group()[-1]) + 1) + t[m.end():], "text const")
        for m in re.finditer(r", (not )?\w+\([^(){}]*(\([^()]*\)[^(){}]*)*\)", t):
            if ":-" in t[:m.start()]:
                put(n, t[:m.start()] + t[m.end():], "drop atom")
        for m in re.finditer(r"\bnot ", t):
            put(n, t[:m.start()] + t[m.end():], "drop not")
        if t[1:-1] in ("row", "col"):
            put(n, '"col"' if t[1:-1] == "row" else '"row"', "row/col text")
        if t[1:-1] in ("r", "l", "u", "d"):
            put(n, '"' + {"r": "l", "l": "r", "u": "d", "d": "u"}[t[1:-1]] + '"', "dir")

    for n in tree.body:
        walk(n, False)
    seen, res = set(), []
    for w in out:
        if w[2] not in seen:
            try:
                compile(w[2], "x", "exec")
            except SyntaxError:
                continue
            seen.add(w[2])
            res.append(w)
    return res


def run(job):
    t, prop, why, line, text, old, new = job
    me = mp.current_process()._identity[0]
    base = f"{TOP}/w{me}"
    if not os.path.exists(base):
        shutil.copytree("/repo", base + "/repo", ignore=shutil.ignore_patterns(".git", "dist"))
        shutil.copytree(V, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded"))
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "NQ_REPO": base + "/repo", "NQ_STOP": "1", "NQ_WORKERS": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
    p = f"{base}/repo/solver/{t}.py"
    orig = open(p, newline="").read()
    open(p, "w", newline="").write(text)
    verdict = "?"
    try:
        try:
            rc = subprocess.run([PY, "-c", EX, t], cwd=base + "/repo", env=env, timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            rc = 9
        if rc:
            return job, "tests"
        for q in (prop, "C07"):
            try:
                r = subprocess.run(["./run", q, t], cwd=base + "/verif", env=env, timeout=400, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    return job, q
                if r.returncode != 0:
                    verdict = f"rc{r.returncode} {r.stdout[-300:]}"
                    return job, verdict
            except subprocess.TimeoutExpired:
                return job, "check-timeout"
        return job, "SURVIVED"
    finally:
        open(p, "w", newline="").write(orig)


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("--n", type=int, default=20); a.add_argument("--seed", type=int, default=1); a.add_argument("--procs", type=int, default=4); a.add_argument("types", nargs="*")
    a = a.parse_args()
    os.environ["NQ_REPO"] = "/repo"
    sys.path.insert(0, V)
    from nq import supply
    types = supply.types()
    rnd = random.Random(a.seed)
    jobs = []
    for t in types:
        if a.types and t not in a.types: continue
        ms = mutants(open(f"/repo/solver/{t}.py").read())
        rnd.shuffle(ms)
        jobs += [(t, supply._WHERE[t], *m) for m in ms[:a.n]]
    rnd.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    TOP = tempfile.mkdtemp(prefix="mut-")
    from collections import Counter
    cnt = Counter()
    with mp.Pool(a.procs) as pool, open(a.out, "w") as f:
        for i, (job, v) in enumerate(pool.imap_unordered(run, jobs)):
            cnt[v.split()[0]] += 1
            if v not in ("tests", "C01", "C02", "C03", "C04", "C05", "C06", "C07"):
                f.write(f"{v} {job[0]} {job[1]} [{job[2]}] line {job[3]}\n    - {job[5]}\n    + {job[6]}\n"); f.flush()
            if i % 100 == 99: print(i + 1, dict(cnt), flush=True)
    print(dict(cnt))
    shutil.rmtree(TOP)
