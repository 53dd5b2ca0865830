"""Develops planted bugs.  seed.py make ID PROP FILE (reads old/new text from the python spec file seeds/ID.py) ; seed.py test ID [checks...]

test: applies seeded/ID/patch.diff to a scratch copy, builds, runs the stable tests there, runs demo.sh on both trees and the given checks (default: its property).
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
E = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}


def sh(cmd, cwd, t=1200, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env or E)
    return p.returncode, p.stdout


def make(i, prop, edits, needs, breaks, demo, files=()):
    """edits: [(file, old, new)]"""
    d = os.path.join(V, "seeded", i)
    top = tempfile.mkdtemp(prefix="seed-")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {top} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", top)
        for f, old, new in edits:
            p = os.path.join(top, f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = sh("git diff", top)[1]
    finally:
        shutil.rmtree(top)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo.startswith("#!"):
        open(os.path.join(d, "demo.sh"), "w").write(demo)
    else:
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        open(os.path.join(d, "demo.py"), "w").write(demo)
        shutil.copy(os.path.join(V, "tools", "draw.py"), os.path.join(d, "draw.py"))


def test(i, checks, tests=True):
    d = os.path.join(V, "seeded", i)
    top = tempfile.mkdtemp(prefix="seed-")
    ok = True
    try:
        shutil.copytree("/repo", top + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        r = top + "/repo"
        shutil.copytree(d, top + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc, o = sh(f"bash {top}/demo/demo.sh", r, 300)
        print(f"{i}: demo unchanged rc={rc}", o[-300:] if rc else "")
        ok &= rc == 0
        rc, o = sh(f"git apply --unsafe-paths --directory={r} {d}/patch.diff || patch -p1 < {d}/patch.diff", r)
        if rc:
            print("  patch fails", o)
            return False
        rc, o = sh("for f in penpa-edit/*.js; do node --check $f || exit 1; done", r)
        ok &= rc == 0
        rc, o = sh(f"bash {top}/demo/demo.sh", r, 300)
        print(f"{i}: demo patched rc={rc}", o.strip()[-300:])
        ok &= rc != 0
        if tests:
            rc, o = sh(f"timeout 600 {PY} -m pytest -q -x -p no:cacheprovider tests", r)
            print(f"{i}: tests rc={rc}", o[-400:] if rc else "")
            ok &= rc == 0
        for c in checks or [json.load(open(d + "/meta.json"))["property"]]:
            rc, o = sh(f"./run {c}", V, env={**E, "NQ_REPO": r, "NQ_STOP": "1"})
            lines = [x for x in o.split("\n") if x.startswith(("VIOLATION", "  ", "ERROR"))][:3]
            print(f"{i}: {c} rc={rc}", " | ".join(x[:230] for x in lines), o.strip().split("\n")[-1][-60:])
    finally:
        shutil.rmtree(top)
    print(f"{i}: {'VALID' if ok else 'NOT VALID'}")
    return ok


if __name__ == "__main__":
    if sys.argv[1] == "test":
        test(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "all":
        for i in sorted(os.listdir(os.path.join(V, "seeded"))):
            if len(sys.argv) < 3 or i in sys.argv[2:]:
                test(i, [])
