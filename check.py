#!/usr/bin/env python3
"""python3 /verif/check.py <property id>: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from core import run_check, undecided

def main():
    from registry import PROPS
    pid = sys.argv[1]
    fn, level, technique = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    res = []
    t = threading.Thread(target=lambda: res.append(run_check(pid, fn, level, technique, seed, tier)))
    t.daemon = True
    t.start(); t.join(float(os.environ.get("VERIF_LIMIT", "600")))
    if t.is_alive():
        # no verdict in time: not a proof, so not a pass
        undecided(pid, level, technique, seed, tier)
        sys.stdout.flush(); os._exit(1)
    sys.exit(res[0] if res else 1)
main()
