#!/usr/bin/env python3
"""run.py <property id> [--repo DIR]: decide one property on the current source tree."""
import importlib
import os
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main():
    t0 = time.time()
    pid = sys.argv[1]
    root = "/repo"
    if "--repo" in sys.argv:
        root = sys.argv[sys.argv.index("--repo") + 1]
    out = VERIF
    if "--out" in sys.argv:
        out = sys.argv[sys.argv.index("--out") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from svdabs.lib import Check, finish
    from svdabs.program import AnalysisBroken

    mod = importlib.import_module("svdabs.checks." + pid.lower())
    try:
        chk = Check(pid, root, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2

    # a tree the analysis cannot finish on in time leaves its open obligations undecided
    if not os.environ.get("SVDABS_DEBUG"):
        chk.jobs = []
    mod.check(chk)
    chk.run_jobs(t0 + float(os.environ.get("SVDABS_SECONDS", "720")))
    return finish(chk, t0, getattr(mod, "LEVEL", "other"), " ".join(mod.__doc__.split()), getattr(mod, "ASSUMPTIONS", []), seed, tier, out)


if __name__ == "__main__":
    # the analysis orders terms by hash: the same tree is analysed the same way each time
    if os.environ.get("PYTHONHASHSEED") is None or os.environ["PYTHONHASHSEED"] == "random":
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]], {**os.environ, "PYTHONHASHSEED": "0"})
    # deep structural recursion
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        rc[0] = main()

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
