#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] : decides one property of /verif/properties.jsonl on /repo's working tree."""
import argparse, importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import core

ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a = ap.parse_args()
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
mod = importlib.import_module(a.pid.lower())
sys.exit(core.main(a.pid, mod.run, a.tier, seed))
