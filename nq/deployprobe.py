"""python nq/deployprobe.py DIR: loads a static site the way the browser does and prints the puzzle types it offers.

DIR is dist/page/penpa-edit; only the files pyscript.json names are there, and there is no clingo."""

import json
import os
import shutil
import sys
import tempfile
import types


def main():
    src = os.path.abspath(sys.argv[1])
    sys.dont_write_bytecode = True
    with open(os.path.join(src, "pyscript.json"), encoding="utf-8") as f:
        files = json.load(f)["files"]
    top = tempfile.mkdtemp(prefix="nq-vfs-")
    try:
        for url, dst in files.items():
            d = os.path.join(top, dst or "./")
            if dst == "" or dst.endswith("/"):
                d = os.path.join(d, os.path.basename(url))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(os.path.join(src, url), d)
        os.chdir(top)
        sys.path[0] = top
        window = types.SimpleNamespace()
        mod = types.ModuleType("pyscript")
        mod.window, mod.document = window, types.SimpleNamespace()
        sys.modules["pyscript"] = mod
        for n in ("clingo", "starlette", "uvicorn"):
            sys.modules[n] = None
        with open(os.path.join(src, "main_deploy.py"), encoding="utf-8") as f:
            code = f.read()
        exec(compile(code, "main_deploy.py", "exec"), {"__name__": "__main__"})
        import noqx.manager
        entry = [n for n in ("prepare_puzzle", "generate_program", "store_solution") if callable(getattr(window, n, None))]
        out = {"types": noqx.manager.list_solver_metadata(), "entry": entry}
    finally:
        shutil.rmtree(top, ignore_errors=True)
    print(json.dumps(out))


main()
