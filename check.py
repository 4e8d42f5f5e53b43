#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import runner

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
a = ap.parse_args()
mod = importlib.import_module("checks." + a.prop.lower())
try:
    if a.replay:
        sys.exit(runner.replay(mod.CHECK, a.replay))
    sys.exit(runner.run_check(mod.CHECK, a.tier, a.seed))
except runner.Inconclusive as e:
    print("INCONCLUSIVE: %s" % e)
    sys.exit(2)
