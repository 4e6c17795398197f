#!/usr/bin/env python3
"""check.py --property P01 [--tier quick|thorough] [--cases N]: decides one property on /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION lines; anything else: an error of the check."""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib
from props import PROPS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = PROPS[a.property]
    c = vlib.Check(a.property, a.tier, seed, p.get("level", "exploration"))
    try:
        rc = p["run"](c, p, a.cases)
    except vlib.HarnessError as e:
        print("ERROR property=%s %s" % (a.property, e))
        import shutil
        shutil.rmtree(c.work, ignore_errors=True)
        rc = 4
    sys.exit(rc)


if __name__ == "__main__":
    main()
