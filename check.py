#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   -- decide one property against /repo's current tree
   check.py --setup                     -- build the executor
   check.py --case PROPERTY NAME        -- run one case only"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver, cases

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        driver.build_engine()
        return 0
    only = None
    if a[0] == "--case":
        only = a[2]
        a = [a[1]] + a[3:]
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = cases.PROPS[prop]
    cs = p["cases"](tier)
    if only:
        cs = [c for c in cs if c["name"].startswith(only)]
    kf = os.path.join(driver.VERIF, "known-findings.json")
    known = json.load(open(kf))["known"] if os.path.exists(kf) else []
    try:
        return driver.check(prop, "other", cs, tier, seed, known, p["bounds"], p["assumptions"], 420 if tier == "quick" else 3000)
    except driver.CheckError as e:
        print(f"CHECK-ERROR property={prop}: {e}")
        return 2

if __name__ == "__main__":
    sys.exit(main())
