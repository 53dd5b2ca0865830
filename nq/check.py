"""python -m nq.check PROPERTY [type ...] : runs one check (VERIF_TIER = quick | thorough)."""

import importlib
import sys

from . import env, runner


def main():
    prop, only = sys.argv[1], sys.argv[2:]
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06"):
        from . import exact

        env.load()
        tasks = exact.build_tasks(prop, env.TIER, only)
        sys.exit(runner.run(
            prop, tasks, "model_checking",
            {"states": "states", "transitions": "solver_runs", "traces_validated_against_impl": "answers_compared"},
            ["the reference rules in nq/ state the published rules of each puzzle type",
             "boards are bounded as listed under covered; answers of larger boards are not enumerated"]))
    m = importlib.import_module(f"nq.{prop.lower()}")
    sys.exit(runner.run(prop, m.tasks(env.TIER, only), m.LEVEL, m.MAPPING, m.ASSUME, extra=getattr(m, "EXTRA", None)))


if __name__ == "__main__":
    main()
