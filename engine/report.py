"""Verdict, evidence and known findings of one check run."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(s, prop, tier):
        s.prop, s.tier, s.t0 = prop, tier, time.time()
        s.obl = 0; s.ok = 0; s.viol = []; s.und = []; s.samples = []; s.classes = {}; s.extra = {}; s.assume = []; s.sites = {}
        s.known = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("finding: property=%s " % prop):
                    ident, _, what = l[len("finding: property=%s " % prop):].partition(" :: ")
                    s.known.append((ident.strip(), what.strip()))
        s.known_hit = set()
    def good(s, cls, what=None):
        s.obl += 1; s.ok += 1; c = s.classes.setdefault(cls, [0, 0]); c[0] += 1; c[1] += 1
        if what and len(s.samples) < 12 and c[0] <= 2: s.samples.append("%s: %s" % (cls, what))
    def bad(s, cls, ident, text):
        """ident: stable identity of the instance (used by the known findings)"""
        s.obl += 1; c = s.classes.setdefault(cls, [0, 0]); c[0] += 1
        for k, what in s.known:
            if k == ident:
                s.known_hit.add((k, what)); return
        s.viol.append((ident, text))
    def undecided(s, cls, ident, text):
        s.obl += 1; s.classes.setdefault(cls, [0, 0])[0] += 1; s.und.append((ident, text))
    def finish(s, level="other", rule="", min_obl=1, max_undecided=0.5, trusted=(), cmd="", expect=None):
        import wbuild
        for src, n in wbuild.DROPPED: s.undecided("not compiled", n, "%s: does not compile against the current sources" % src)
        ev = {"property": s.prop, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
              "coverage": {"obligations": s.obl, "discharged": s.ok, "rule": rule,
                           "checker_cmd": cmd or "python3 check.py %s --tier %s" % (s.prop, s.tier),
                           "trusted_base": list(trusted), "explanation": rule,
                           "instances_by_class": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(s.classes.items())},
                           "undecided": [list(u) for u in s.und[:40]], "samples": s.samples,
                           "known_findings": [k for k, _ in sorted(s.known_hit)], **s.extra},
              "assumptions": list(s.assume), "wall_s": round(time.time()-s.t0, 2), "violations": len(s.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k, what in sorted(s.known_hit): print("KNOWN-FINDING: property=%s %s (%s)" % (s.prop, k, what))
        for i, u in s.und[:10]: print("UNDECIDED %s: %s" % (i, u))
        print("%s: %d obligations, %d discharged, %d violations, %d undecided, %d known (%.1f s)" % (s.prop, s.obl, s.ok, len(s.viol), len(s.und), len(s.known_hit), time.time()-s.t0))
        if s.viol:
            rp = os.path.join(VERIF, "evidence", s.prop + ".violation.txt")
            with open(rp, "w") as f:
                for i, t in s.viol: f.write("[%s]\n%s\n\n" % (i, t))
            for i, t in s.viol[:20]: print("violation: %s" % t)
            print("VIOLATION property=%s replay=%s" % (s.prop, rp))
            return 1
        if wbuild.DROPPED: s.skipped = True
        missing = []
        for cls, n in (expect or {}).items() if not getattr(s, "skipped", False) else ():
            if s.classes.get(cls, [0])[0] < n: missing.append("%s: %d < %d" % (cls, s.classes.get(cls, [0])[0], n))
        if s.obl < (1 if wbuild.DROPPED and len(wbuild.DROPPED) < min_obl else min_obl) or missing:
            print("ANALYSIS-BROKEN property=%s: too few instances (%d < %d; %s)" % (s.prop, s.obl, min_obl, ", ".join(missing))); return 3
        if len(s.und) > max_undecided*s.obl:
            print("ANALYSIS-BROKEN property=%s: %d of %d obligations undecided" % (s.prop, len(s.und), s.obl)); return 3
        return 0
