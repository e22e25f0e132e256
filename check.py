#!/usr/bin/python3
"""check.py <property> [quick|thorough]: runs the check of one property. Exit 0 held, 1 VIOLATION, 2 error."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import build, common


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("vf.checks." + ("latexdoc" if pid == "W06" else {"P": "parser", "G": "cli", "C": "cpp", "W": "wrap"}[pid[0]]))
    ck = common.Check(pid, tier)
    try:
        mod.CHECKS[pid](ck)
    except build.BuildError as e:
        print("ERROR: cannot build:\n%s" % e)
        return 2
    return ck.finish()


sys.exit(main())
