#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree."""
import argparse, importlib, os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULE = {"R": "recolor", "P": "palette", "H": "geo", "D": "geo", "E": "conc", "T": "conc",
          "C": "cabi", "L": "cli", "W": "web"}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        m = importlib.import_module("chk_" + MODULE[a.prop[0]])
        m.check(a.prop, a.tier, seed, random.Random(f"{a.prop}/{seed}"))
    except SystemExit:
        raise
    except BaseException:
        if vlib.HUNG:  # the library never came back: no result is as wrong as a wrong one
            traceback.print_exc()
            vlib.finish(a.prop, a.tier, seed, vlib.HUNG[:3], [vlib.HUNG[0]["script"]])
        traceback.print_exc()
        print(f"ERROR property={a.prop}: the check could not decide")
        sys.exit(2)

main()
