#!/usr/bin/env python3
"""check.py C01            run a check (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  re-run a recorded failing case"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from qv import build, engine

def load(pid):
    return importlib.import_module("qv.props." + pid.lower()).PROPERTY

def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        data = json.load(open(args[1]))
        return engine.replay(load(data["property"]), data["family"], data["choices"])
    if not args:
        sys.stderr.write(__doc__ + "\n")
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        return engine.run_property(load(args[0]), tier, seed)
    except build.BuildError as e:
        print("check error: the tree does not build:\n" + str(e)[:4000])
        return 2

if __name__ == "__main__":
    sys.exit(main())
