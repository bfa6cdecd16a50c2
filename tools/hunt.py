"""Run every check briefly against VERIF_REPO; print the first that fails.

    VERIF_REPO=dir python -m tools.hunt SECONDS SEED [C01,C02,...]

Development aid (mutation campaigns), not a registered check."""
import os
import random
import sys
import tempfile
import time

from checks import core, props  # noqa: F401
from pm import real


def main():
    sec, seed = float(sys.argv[1]), int(sys.argv[2])
    pids = sys.argv[3].split(",") if len(sys.argv) > 3 else list(core.KINDS)
    real.mods()
    r = random.Random(seed)
    if len(sys.argv) <= 3:
        r.shuffle(pids)
        pids.sort(key=lambda p: p == "C29")
    slow = 0
    with tempfile.TemporaryDirectory(prefix="piphunt") as d:
        core.SCRATCH = d
        for p in pids:
            ks = core.KINDS[p]
            core.KINDS[p] = ks = [k for k in ks if k.cost < 100]
            cum = core.cumshares(ks)
            mean = sum(k.share for k in ks) / cum[-1] * 1.5e-3
            n = max(20, int(sec / mean))
            k = 0
            size = max(8, min(150, int(150 * 1.5e-3 / mean) or 1))
            while n > 0:
                res = core.once(lambda: core.run_chunk(p, seed, k, size), 40)
                k += 1
                n -= size
                if res is None:
                    slow += 1
                elif res["bad"]:
                    i, name, case, msg = res["bad"]
                    print(f"KILLED {p} | {name} | {str(case)[:200]} | "
                          + msg[:300].replace("\n", "\\n"))
                    return
                elif len(res["slow"]) >= 2:
                    slow += 1
                if slow >= 4:
                    print(f"SLOW {p}")
                    return
    print("SURVIVED")


main()
