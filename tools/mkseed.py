#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : creates seeded/<id>/ from a spec (id, property, edits, demo source, texts).
A spec defines: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ or shell text), KIND='cpp'|'sh', FLAGS, SRCS."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = '''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
inc="-I$here/stubs -I$here/stubs/exp -isystem /usr/include/eigen3"
for m in common units core variable dataset; do inc="$inc -I$PWD/lib/$m/include"; done
g++ -std=c++17 -O1 -w -DSCIPP_EXPORT= %s $inc -o "$tmp/demo" "$here/demo.cpp" %s
timeout 120 "$tmp/demo"
'''
def main(p):
    g = {}; exec(open(p).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in g["EDITS"]:
            q = "/repo/" + f; s = open(q).read(); assert s.count(old) == 1, (f, old, s.count(old))
            open(q, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if g.get("KIND", "cpp") == "cpp":
        open(d + "/demo.cpp", "w").write(g["DEMO"])
        srcs = " ".join('"$PWD/%s"' % x for x in g.get("SRCS", ())) + " " + " ".join('"$here/%s"' % x for x in g.get("OWN", ()))
        open(d + "/demo.sh", "w").write(CPP % (g.get("FLAGS", ""), srcs))
        shutil.copytree(V + "/stubs/units", d + "/stubs/units"); shutil.copytree(V + "/stubs/exp", d + "/stubs/exp")
        for x in g.get("OWN", ()): shutil.copy(V + "/stubs/impl/" + os.path.basename(x), d + "/" + x)
    else: open(d + "/demo.sh", "w").write(g["DEMO"])
    for n, t in g.get("FILES", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    print("made", g["ID"])
for p in sys.argv[1:]: main(p)
