"""python nq/loadprobe.py REPO DIR PACKAGE < cases: loads the solvers of DIR/PACKAGE once per case, each in a forked process.

A case is {"order": names in discovery order or null, "first": modules imported before, "times": how often to load}; prints one JSON list."""

import json
import os
import sys


def one(case, package):
    import importlib
    import pkgutil
    from noqx import manager
    order = case.get("order")
    if order is not None:
        rank = {n: i for i, n in enumerate(order)}
        real_iter, real_list, real_scan = pkgutil.iter_modules, os.listdir, os.scandir
        base = lambda x: str(x).rsplit(".py", 1)[0]
        here = lambda p: os.path.basename(os.path.abspath(p or ".")) == package

        def it(path=None, prefix=""):
            return iter(sorted(real_iter(path, prefix), key=lambda m: rank.get(m.name, len(rank))))

        def ls(path="."):
            out = real_list(path)
            return sorted(out, key=lambda n: rank.get(base(n), len(rank))) if here(path) else out
        pkgutil.iter_modules, os.listdir = it, ls
    log = []
    for m in case.get("first", []):
        importlib.import_module(f"{package}.{m}")
    for _ in range(case.get("times", 1)):
        try:
            manager.load_solvers(package)
            err = None
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        try:
            meta = {k: [v["name"], v["category"], v["aliases"], len(v["examples"]), sorted(v["parameters"])] for k, v in manager.list_solver_metadata().items()}
        except Exception as e:
            meta = f"{type(e).__name__}: {e}"
        log.append({"error": err, "types": {k: [type(v).__module__, type(v).__name__] for k, v in manager.modules.items()}, "meta": meta})
    return log


def main():
    repo, top, package = sys.argv[1:4]
    sys.dont_write_bytecode = True
    sys.path[:0] = [top, repo]
    os.chdir(top)
    import noqx.manager  # noqa: F401
    out = []
    for case in json.load(sys.stdin):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                data = json.dumps(one(case, package))
            except BaseException as e:
                data = json.dumps([{"error": f"crash: {type(e).__name__}: {e}", "types": {}, "meta": {}}])
            with os.fdopen(w, "w") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(json.loads(data) if data else [{"error": "died", "types": {}, "meta": {}}])
    print(json.dumps(out))


main()
