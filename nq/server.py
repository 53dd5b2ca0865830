"""The web application run in this process from a scratch copy of the working tree (starting it writes files next to main.py)."""

import asyncio
import atexit
import importlib
import json
import os
import shutil
import sys
import tempfile

from . import env

SOURCE = env.REPO
_S = {}
SKIP = shutil.ignore_patterns(".git", "__pycache__", "*.pyc", "node_modules", ".venv", "venv", "dist")


def copy(parent=None):
    """A scratch copy of the working tree; removed at exit."""
    top = tempfile.mkdtemp(prefix="nq-", dir=parent)
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(top, ignore_errors=True)
    atexit.register(clean)
    dst = os.path.join(top, "repo")
    shutil.copytree(SOURCE, dst, symlinks=True, ignore=SKIP)
    return dst


def app():
    """main.app, imported in a scratch copy (once per process)."""
    if "app" not in _S:
        sys.dont_write_bytecode = True
        dst = copy()
        env.REPO = dst
        os.chdir(dst)
        sys.path.insert(0, dst)
        if "noqx.manager" in sys.modules:
            sys.modules["noqx.manager"].modules.clear()
        old = sys.argv
        sys.argv = ["main.py"]
        try:
            m = importlib.import_module("main")
        finally:
            sys.argv = old
        import logging
        logging.disable(logging.CRITICAL)
        _S["app"], _S["dir"] = m.app, dst
        from noqx.clingo import Config
        Config.time_limit = 60
        asyncio.run(startup(m.app))
    env.load()
    from noqx.clingo import Config
    Config.time_limit = 60
    return _S["app"]


async def startup(a):
    """The lifespan protocol's start, as a server does it."""
    sent = asyncio.Event()
    box = [{"type": "lifespan.startup"}]

    async def receive():
        if box:
            return box.pop()
        await asyncio.sleep(3600)

    async def send(m):
        sent.set()
    t = asyncio.ensure_future(a({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}}, receive, send))
    try:
        await asyncio.wait({t, asyncio.ensure_future(sent.wait())}, return_when=asyncio.FIRST_COMPLETED, timeout=20)
    finally:
        t.cancel()
        try:
            await t
        except BaseException:
            pass


def scope(method, path, n):
    return {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(),
            "query_string": b"", "root_path": "", "headers": [(b"host", b"localhost"), (b"content-type", b"application/json"), (b"content-length", str(n).encode())],
            "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 8000), "state": {}}


async def call(a, method, path, body=b"", chunks=None, cut=False):
    """One request; returns (status, body bytes, problems)."""
    msgs = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks or [body]) or cut} for i, c in enumerate(chunks or [body])]
    if cut:
        msgs.append({"type": "http.disconnect"})
    out, notes = [], []

    async def receive():
        if msgs:
            return msgs.pop(0)
        await asyncio.sleep(3600)

    async def send(m):
        out.append(m)
    try:
        await a(scope(method, path, len(body)), receive, send)
    except Exception as e:
        notes.append(f"the application raises {type(e).__name__}: {e}")
    starts = [m for m in out if m["type"] == "http.response.start"]
    if len(starts) != 1:
        notes.append(f"{len(starts)} responses")
    return (starts[0]["status"] if starts else None), b"".join(m.get("body", b"") for m in out if m["type"] == "http.response.body"), notes


def post(a, obj, **kw):
    data = obj if isinstance(obj, bytes) else json.dumps(obj).encode()
    return asyncio.run(call(a, "POST", "/api/solve/", data, **kw))
