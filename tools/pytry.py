"""pytry.py [reference files]: verdicts of all comparisons"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.setrecursionlimit(20000)
import glob, pycheck
class R:
    n = 0; extra = {}
    def good(s, c, w): s.n += 1
    def bad(s, c, i, t): print("BAD", i, t)
    def undecided(s, c, i, t): print("UND", i, t)
r = R()
pycheck.functions(r, "x", [f for f in sorted(os.path.basename(g)[:-3] for g in glob.glob(pycheck.VERIF + "/witness/py/*.py")) if len(sys.argv) == 1 or any(a in f for a in sys.argv[1:])])
print(r.n, "good")
