#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] : decides one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from lib import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + prop.lower())
    chk = vlib.Check(prop, tier)
    try:
        rc = mod.run(chk)
    except Exception as e:
        traceback.print_exc()
        print("ERROR: %s: %s" % (type(e).__name__, e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

main()
