"""Writes nq/supply.json: small base boards of every puzzle type, taken from the spaces of the exact checks (inputs only;
nothing is recorded about the code under test)."""
import json
import os
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from nq import env, supply


def work(name):
    big = name in ("statuepark", "battleship", "starbattle")
    cells = (2, 150) if big else (2, 30)
    few = supply.find(name, 6, 1, 24, cells, 90)
    none = supply.find(name, 1, 0, 0, cells, 30)
    many = supply.find(name, 2, 12, 150, cells, 60)
    j = lambda bs: [[b.url(), b.param] for b in bs]
    return name, {"few": j(few), "none": j(none), "many": j(many)}


if __name__ == "__main__":
    env.load()
    with Pool(8) as p:
        out = dict(sorted(p.imap_unordered(work, supply.types())))
    with open(os.path.join(env.VERIF, "nq", "supply.json"), "w") as f:
        json.dump(out, f, indent=0)
    for n, v in out.items():
        if len(v["few"]) < 3 or not v["none"] or not v["many"]:
            print(n, {k: len(x) for k, x in v.items()})
