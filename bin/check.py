#!/usr/bin/env python3
# check.py Cxx [--only ENTRY] : decides one property on /repo's current tree.
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checklib
from jobs import JOBS, META

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    jobs = JOBS[prop](tier)
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    if only:
        jobs = [j for j in jobs if any(o in j["entry"] + str(j.get("params")) for o in only)]
    budget = float(os.environ.get("VERIF_BUDGET", 150 if tier == "quick" else 780))
    sys.exit(checklib.run_check(prop, META.get(prop, {}), jobs, tier, seed, budget))

main()
