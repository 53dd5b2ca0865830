"""C21: all states that server starts, builds, edits and deletions can reach, with metadata, switch and bundle checked after every start and build."""

import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import env, server
from .c24 import TINY
from .runner import Result, key_of

LEVEL = "model_checking"
MAPPING = {"states": "tree_states", "transitions": "operations", "traces_validated_against_impl": "bundles_loaded"}
ASSUME = ["the browser is a stand-in: the files pyscript.json names in an empty directory, a pyscript module and no clingo",
          "a process can end between two file operations; a single file is written as a whole or not at all",
          "local files of the page that are not part of the repository (the penpa core is loaded from the network) are not required"]
OUT = {"penpa-edit/solver_metadata.js", "penpa-edit/prepare_deployment.js", "pyscript.json"}
NEW = "solver/zz_new.py"
SW = re.compile(r"ENABLE_DEPLOYMENT\s*=\s*(true|false)")
here = os.path.dirname(os.path.abspath(__file__))
_B = {}


def digest(b):
    return hashlib.sha1(b).hexdigest()[:16]


def files(top):
    """path -> digest of every file of a tree."""
    out = {}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if x not in ("__pycache__", ".git")]
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".pyc"):
                with open(p, "rb") as h:
                    out[os.path.relpath(p, top)] = digest(h.read())
    return out


def canon(top):
    """State of a tree: pyscript.json is read as data, since the order of its entries is the file system's."""
    fs = files(top)
    for p in ("pyscript.json", "dist/page/penpa-edit/pyscript.json"):
        if p in fs:
            try:
                with open(os.path.join(top, p), encoding="utf-8") as h:
                    fs[p] = digest(json.dumps(json.load(h), sort_keys=True).encode())
            except ValueError:
                pass
    return digest(json.dumps(sorted(fs.items())).encode())


def py(top, script, *args):
    return subprocess.run([env.PY, "-B", os.path.join(here, script), *args], cwd=top, capture_output=True, text=True, timeout=300)


def node(d):
    p = subprocess.run(["node", os.path.join(here, "js", "site.js"), d], capture_output=True, text=True, timeout=60)
    return json.loads(p.stdout) if p.stdout else {"errors": [p.stderr[-300:]], "refs": [], "meta": None, "deploy": None}


def write(p, s):
    with open(p, "w", encoding="utf-8", newline="\n") as f:
        f.write(s)


def new_solver(v):
    return TINY.format(cls="NewSolver", name=f"zz{v}", cat="num")


def new_meta(v):
    return {"name": f"zz{v}", "category": "num", "aliases": [f"zz{v}x"], "examples": [{"data": f"m=edit&p=zz{v}"}], "parameters": {f"p_zz{v}": {"name": "P", "type": "checkbox", "default": True}}}


# operations on a tree
def op_add(top):
    p = os.path.join(top, NEW)
    if os.path.exists(p):
        return False
    write(p, new_solver(1))


def op_change(top):
    p = os.path.join(top, NEW)
    if not os.path.exists(p) or "zz2" in open(p).read():
        return False
    write(p, new_solver(2))


def op_remove(top):
    p = os.path.join(top, NEW)
    if not os.path.exists(p):
        return False
    os.remove(p)


def op_edit(top):
    for p in ("penpa-edit/app.js", "noqx/manager.py", "main_deploy.py"):
        q = os.path.join(top, p)
        s = open(q, encoding="utf-8").read()
        if "edited" in s[-12:]:
            return False
        write(q, s + ("// edited\n" if p.endswith("js") else "# edited\n"))


def op_junk(top):
    d = os.path.join(top, "dist/page/penpa-edit/solver")
    if not os.path.isdir(d) or os.path.exists(os.path.join(d, "old.py")):
        return False
    write(os.path.join(d, "old.py"), "x = 1\n")
    write(os.path.join(top, "dist/page/penpa-edit/old.js"), "1\n")
    write(os.path.join(top, "dist/page/old.html"), "1\n")


def op_wipe(top):
    if not os.path.isdir(os.path.join(top, "dist")):
        return False
    shutil.rmtree(os.path.join(top, "dist"))


def op_forget(top):
    ps = [os.path.join(top, p) for p in ("penpa-edit/solver_metadata.js", "pyscript.json") if os.path.exists(os.path.join(top, p))]
    if not ps:
        return False
    for p in ps:
        os.remove(p)


def op_switch(top):
    """The switch turned on by hand, as a build that was interrupted leaves it."""
    p = os.path.join(top, "penpa-edit/prepare_deployment.js")
    s = open(p, encoding="utf-8").read()
    t = SW.sub("ENABLE_DEPLOYMENT = true", s)
    if s == t:
        return False
    write(p, t)


CHEAP = {"add": op_add, "change": op_change, "remove": op_remove, "edit": op_edit, "junk": op_junk, "wipe": op_wipe, "forget": op_forget, "switch": op_switch}


def expected(top):
    p = os.path.join(top, NEW)
    e = dict(_B["meta"])
    if os.path.exists(p):
        e["zz_new"] = new_meta(2 if "zz2" in open(p).read() else 1)
    return e


def meta_diff(want, got):
    if got is None:
        return "cannot be read"
    if set(want) != set(got):
        return f"lacks {sorted(set(want) - set(got))[:3]}, has {sorted(set(got) - set(want))[:3]} in addition"
    t = [k for k in want if want[k] != got[k]]
    return f"describes {t[0]} differently" if t else None


def sources(top):
    return {p: h for p, h in files(top).items() if p not in OUT and not p.startswith("dist/")}


def check_tree(top, before):
    n = node(os.path.join(top, "penpa-edit"))
    if n["errors"]:
        return f"the page does not load: {n['errors'][0]}"
    if n["deploy"] is not False:
        return f"the deployment switch of the working tree is {n['deploy']}"
    d = meta_diff(expected(top), n["meta"])
    if d:
        return f"the metadata file {d}"
    after = sources(top)
    ch = [p for p in set(after) | set(before) if after.get(p) != before.get(p)]
    if ch:
        return f"source files are changed: {sorted(ch)[:3]}"
    with open(os.path.join(top, "penpa-edit/prepare_deployment.js"), encoding="utf-8") as f:
        if SW.sub("X", f.read()) != _B["prepare"]:
            return "prepare_deployment.js is changed beyond the switch"
    return None


def check_bundle(top, res):
    page = os.path.join(top, "dist/page")
    pe = os.path.join(page, "penpa-edit")
    if not os.path.isdir(pe):
        return "there is no dist/page/penpa-edit"
    n = node(pe)
    if n["errors"]:
        return f"the bundle's page does not load: {n['errors'][0]}"
    if n["deploy"] is not True:
        return f"the deployment switch of the bundle is {n['deploy']}"
    want = expected(top)
    d = meta_diff(want, n["meta"])
    if d:
        return f"the bundle's metadata file {d}"
    src = os.path.join(top, "penpa-edit")
    for u in n["refs"]:
        p = os.path.normpath(os.path.join(pe, u))
        there = os.path.exists(os.path.normpath(os.path.join(src, u))) or os.path.exists(os.path.normpath(os.path.join(top, u)))
        if there and not os.path.exists(p):
            return f"the page loads {u}, which the bundle lacks"
    for f in os.listdir(src):
        if f in ("prepare_deployment.js", "solver_metadata.js") or not os.path.isfile(os.path.join(src, f)):
            continue
        q = os.path.join(pe, f)
        if os.path.exists(q) and open(q, "rb").read() != open(os.path.join(src, f), "rb").read():
            return f"the bundle has another {f}"
        if not os.path.exists(q) and f.rsplit(".", 1)[-1] in ("js", "css", "html"):
            return f"the bundle lacks {f}"
    q = os.path.join(page, "index.html")
    if not os.path.exists(q) or open(q, "rb").read() != open(os.path.join(top, "index.html"), "rb").read():
        return "the bundle's start page is missing or another"
    p = py(top, "deployprobe.py", pe)
    res.add(bundles_loaded=1)
    if p.returncode:
        return f"the bundle's Python part does not load: {p.stderr.strip().splitlines()[-1][:200]}"
    o = json.loads(p.stdout.strip().splitlines()[-1])
    d = meta_diff(want, o["types"])
    if d:
        return f"the browser's list of types {d}"
    if len(o["entry"]) != 3:
        return f"the browser gets only the entry points {o['entry']}"
    for url in json.load(open(os.path.join(pe, "pyscript.json"), encoding="utf-8"))["files"]:
        s = os.path.join(top, url)
        if os.path.exists(s) and open(s, "rb").read() != open(os.path.join(pe, url), "rb").read():
            return f"the bundle has another {url}"
    return None


def act(top, op, res, bundles=None):
    """Applies an operation; returns what is wrong, or False when it does not apply."""
    if op in CHEAP:
        return False if CHEAP[op](top) is False else None
    before = sources(top)
    p = py(top, "bootprobe.py", op)
    if p.returncode:
        return f"{op} ends with status {p.returncode}: {(p.stderr.strip().splitlines() or [''])[-1][:200]}"
    bad = check_tree(top, before)
    if not bad and op == "build":
        bad = check_bundle(top, res)
        if not bad:     # the same sources give the same bundle, whatever was there before
            key = digest(json.dumps(sorted(before.items())).encode())
            h = canon_dir(os.path.join(top, "dist/page"))
            ref = os.path.join(bundles, key)
            try:
                with open(ref, "x") as f:
                    f.write(json.dumps(h))
            except FileExistsError:
                for _ in range(50):
                    try:
                        old = json.load(open(ref))
                        break
                    except ValueError:
                        time.sleep(0.1)
                ch = [p for p in set(old) | set(h) if old.get(p) != h.get(p)]
                if ch:
                    bad = f"two builds of the same sources differ in {sorted(ch)[:3]}"
    return bad


def canon_dir(page):
    h = files(page)
    p = os.path.join(page, "penpa-edit/pyscript.json")
    if "penpa-edit/pyscript.json" in h:
        h["penpa-edit/pyscript.json"] = digest(json.dumps(json.load(open(p)), sort_keys=True).encode())
    return h


def worker_task(w, root, cap):
    """One of several workers that share a queue of states under root until no state is left."""
    res = Result()
    queue, seen, busy, bundles = (os.path.join(root, x) for x in ("queue", "seen", "busy", "bundles"))
    idle = 0
    while idle < 40:
        if os.path.exists(os.path.join(root, "stop")):
            break
        got = None
        for n in sorted(os.listdir(queue)):
            try:
                os.rename(os.path.join(queue, n), os.path.join(busy, n))
                got = n
                break
            except OSError:
                continue
        if got is None:
            if not os.listdir(busy):
                idle += 10
            time.sleep(0.1)
            continue
        idle = 0
        src = os.path.join(busy, got)
        trace = json.load(open(os.path.join(src, "trace.json")))
        for op in ["start", "build"] + list(CHEAP):
            if len(trace) >= cap:
                res.add(states_not_expanded=1)
                break
            tmp = tempfile.mkdtemp(prefix="op-", dir=root)
            top = os.path.join(tmp, "repo")
            shutil.copytree(os.path.join(src, "repo"), top)
            try:
                bad = act(top, op, res, bundles)
                if bad is False:
                    continue
                res.add(operations=1)
                tr = trace + [op]
                if bad:
                    res.violation(key_of("C21", tr), f"after {', '.join(tr)}: {bad}", {"kind": "site", "operations": tr})
                    open(os.path.join(root, "stop"), "w").close()
                    break
                k = canon(top)
                try:
                    os.mkdir(os.path.join(seen, k))
                except FileExistsError:
                    continue
                res.add(tree_states=1)
                write(os.path.join(tmp, "trace.json"), json.dumps(tr))
                os.rename(tmp, os.path.join(queue, f"{len(tr):03d}-{k}"))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(src, ignore_errors=True)
    res.names.add(f"all operation sequences up to {cap} operations, equal trees merged")
    return res


def stop_points(top, mode, every):
    p = py(top, "bootprobe.py", mode, "list")
    ops = json.loads(p.stdout.split("OPS", 1)[1].splitlines()[0])
    out, last = [], None
    for i, (kind, a, b) in enumerate(ops):
        key = (kind, os.path.dirname(b if kind.startswith("copy") else a))
        if every or key != last:
            out.append(i)
        last = key
    return sorted(set(out + [len(ops) - 1]))


def stop_task(prep, mode, i, n, every, root):
    """The process ends before a file operation; the next start and the next build must be right."""
    res = Result()
    base = tempfile.mkdtemp(prefix="stop-", dir=root)
    b0 = os.path.join(base, "repo")
    shutil.copytree(_B["dir"], b0)
    for op in prep:
        if act(b0, op, res, os.path.join(root, "bundles")):
            return res
    try:
        probe = os.path.join(base, "probe")
        shutil.copytree(b0, probe)
        pts = stop_points(probe, mode, every)
        shutil.rmtree(probe)
        for k in pts[i::n]:
            one = os.path.join(base, "one")
            shutil.copytree(b0, one)
            p = py(one, "bootprobe.py", mode, str(k))
            res.add(operations=1, stops=1)
            if p.returncode != 77:
                raise RuntimeError(f"{mode} did not stop at {k}: {p.returncode} {p.stderr[-300:]}")
            for nxt in ("start", "build"):
                two = os.path.join(base, "two")
                shutil.copytree(one, two)
                bad = act(two, nxt, res, os.path.join(root, "bundles"))
                res.add(operations=1)
                shutil.rmtree(two)
                if bad:
                    tr = [*prep, f"{mode} stopped before file operation {k}", nxt]
                    res.violation(key_of("C21", tr), f"after {', '.join(tr)}: {bad}", {"kind": "site", "operations": tr})
            shutil.rmtree(one)
            if res.viol:
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.names.add(f"{mode} stopped at {'every' if every else 'every kind of'} file operation after {'/'.join(prep) or 'nothing'}")
    return res


def serve_task():
    """A real server process on the loopback interface."""
    import socket
    import urllib.request
    res = Result()
    top = server.copy()
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    p = subprocess.Popen([env.PY, "-B", "main.py", "-p", str(port)], cwd=top, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    try:
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", port), 1).close()
                break
            except OSError:
                if p.poll() is not None:
                    raise RuntimeError("the server does not start: " + p.stderr.read()[-500:])
                time.sleep(0.1)
        get = lambda u: urllib.request.build_opener(urllib.request.ProxyHandler({})).open(f"http://127.0.0.1:{port}{u}", timeout=30)
        r = get("/")
        what = None
        if not r.url.rstrip("/").endswith("/penpa-edit") or b"<html" not in r.read().lower():
            what = f"the start page leads to {r.url}"
        n = node(os.path.join(top, "penpa-edit"))
        for f in ["index.html", "solver_metadata.js", "prepare_deployment.js"] + [u for u in n["refs"] if os.path.exists(os.path.join(top, "penpa-edit", u))]:
            if get("/penpa-edit/" + f).read() != open(os.path.join(top, "penpa-edit", f), "rb").read():
                what = f"/penpa-edit/{f} is not the file"
        if meta_diff(_B["meta"], n["meta"]):
            what = "the metadata file " + meta_diff(_B["meta"], n["meta"])
        if n["deploy"] is not False:
            what = "the served page has the deployment switch on"
        res.add(operations=1)
        if what:
            res.violation(key_of("C21", "serve", what), f"a running server: {what}", {"kind": "site", "operations": ["serve"]})
    finally:
        p.kill()
        p.wait()
    return res


def base():
    """A copy of the working tree and what it should offer, read from the classes."""
    dst = server.copy()
    for p in ("penpa-edit/solver_metadata.js", "pyscript.json"):
        if os.path.exists(os.path.join(dst, p)):
            os.remove(os.path.join(dst, p))
    code = ("import sys,os,json,importlib;sys.path.insert(0,os.getcwd());sys.dont_write_bytecode=True\n"
            "from noqx.manager import Solver\nout={}\n"
            "for f in sorted(os.listdir('solver')):\n"
            "    if f.endswith('.py') and not f.startswith('__'):\n"
            "        m=importlib.import_module('solver.'+f[:-3])\n"
            "        for c in vars(m).values():\n"
            "            if isinstance(c,type) and issubclass(c,Solver) and c is not Solver and c.__module__==m.__name__:\n"
            "                out[f[:-3]]={k:getattr(c,k) for k in ('name','category','aliases','examples','parameters')}\n"
            "print(json.dumps(out))")
    p = subprocess.run([env.PY, "-B", "-c", code], cwd=dst, capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise RuntimeError(p.stderr[-800:])
    _B["meta"], _B["dir"] = json.loads(p.stdout), dst
    with open(os.path.join(dst, "penpa-edit/prepare_deployment.js"), encoding="utf-8") as f:
        _B["prepare"] = SW.sub("X", f.read())


def setup():
    base()
    root = os.path.dirname(_B["dir"])
    for x in ("queue", "seen", "busy", "bundles"):
        os.mkdir(os.path.join(root, x))
    first = os.path.join(root, "queue", "000-start")
    os.mkdir(first)
    shutil.copytree(_B["dir"], os.path.join(first, "repo"))
    write(os.path.join(first, "trace.json"), "[]")
    os.mkdir(os.path.join(root, "seen", canon(_B["dir"])))
    return root


def tasks(tier, only=None):
    th = tier == "thorough"
    root = setup()
    cap = 40 if th else 5
    out = [("nq.c21", "serve_task", ())]
    for prep in ([], ["start"], ["build"], ["add", "build", "remove"]) if not th else ([], ["start"], ["build"], ["add", "build", "remove"], ["build", "edit", "junk"], ["add", "start", "change"]):
        out.append(("nq.c21", "stop_task", (prep, "start", 0, 1, True, root)))
        out += [("nq.c21", "stop_task", (prep, "build", i, 4, th, root)) for i in range(4)]
    return [("nq.c21", "worker_task", (w, root, cap)) for w in range(env.WORKERS - 2)] + out
