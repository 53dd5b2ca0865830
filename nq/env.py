"""Access to the code under test: the working tree named by NQ_REPO (default /repo)."""

import logging
import os
import sys
import warnings

REPO = os.environ.get("NQ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("NQ_WORKERS", "8"))

_loaded = False


def load():
    """Import noqx from the working tree and register its solvers (once per process)."""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.chdir(REPO)
    import random

    random.seed(SEED)
    from noqx import manager

    if not manager.modules:
        manager.load_solvers("solver")
    from noqx.clingo import Config

    Config.time_limit = 120
    _loaded = True


def solve(name, url, param, limit=0):
    """The real request path: list of answer URLs, at most `limit` (0: all)."""
    load()
    from noqx import clingo

    clingo.Config.max_solutions_to_find = limit
    return clingo.run_solver(name, url, dict(param))["url"]


def count_models(name, url, param):
    """Number of different sets of shown atoms of the program generated for a board (no answer is decoded)."""
    load()
    from clingo.control import Control
    from noqx import manager

    ctl = Control(["--models=0", "--warn=none"], logger=lambda *_: None)
    ctl.add(program=manager.generate_program(manager.prepare_puzzle(name, url, dict(param))))
    ctl.ground()
    seen = set()
    ctl.solve(on_model=lambda m: seen.add(hash(frozenset(m.symbols(shown=True)))))
    return len(seen)
