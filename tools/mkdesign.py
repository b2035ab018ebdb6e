"""refreshes the table of planted bugs in DESIGN.md"""
import glob, json, os, re
rows = ["| seed | property | breaks |", "|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d+'/meta.json')); rows.append("| %s | %s | %s |" % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/')))
p = '/verif/DESIGN.md'; s = open(p).read()
i, j = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, 'w').write(s[:i] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[j:])
