#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
import report, wbuild
def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier")+1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    rep = report.Report(prop, tier)
    import registry
    try: rc = registry.CHECKS[prop](rep)
    except wbuild.BuildError as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e)); rc = 3
    sys.exit(rc)
main()
