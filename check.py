#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: static check of one property of /repo's current tree"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.setrecursionlimit(20000)
    import load
    mod = importlib.import_module("checks." + prop)
    try:
        rc = mod.run(prop, tier)
    except load.Broken as b:
        print("analysis broken: %s" % b)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
