"""python nq/bootprobe.py start|build [STOP]: starts the server module or builds the static site in the working directory.

With a number STOP the process ends right before the file operation of that number; with "list" the operations are printed."""

import builtins
import os
import shutil
import sys

mode, stop = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else None)
sys.dont_write_bytecode = True
sys.path[0] = os.getcwd()
log, inside = [], [0]


def hook(mod, name, kind, when=lambda *a, **k: True):
    real = getattr(mod, name)

    def f(*a, **k):
        if inside[0] or not when(*a, **k):
            return real(*a, **k)
        log.append((kind, str(a[0]) if a else "", str(a[1]) if len(a) > 1 else ""))
        if stop not in (None, "list") and len(log) > int(stop):
            os._exit(77)
        inside[0] += 1
        try:
            return real(*a, **k)
        finally:
            inside[0] -= 1
    setattr(mod, name, f)


if stop is not None:
    hook(builtins, "open", "open", lambda p, m="r", *a, **k: any(c in str(k.get("mode", m)) for c in "wax+"))
    for n in ("copy", "copy2", "copyfile", "copytree", "rmtree", "move"):
        hook(shutil, n, n)
    for n in ("makedirs", "mkdir", "replace", "rename", "remove", "unlink"):
        hook(os, n, n)
try:
    if mode == "start":
        sys.argv = ["main.py"]
        import main  # noqa: F401
    else:
        import runpy
        sys.argv = ["main.py", "-D"]
        runpy.run_path("main.py", run_name="__main__")
finally:
    if stop == "list":
        import json
        sys.stdout.write("OPS" + json.dumps(log) + "\n")
        sys.stdout.flush()
