"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json (and CAUGHT, filled in by hand from runs)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
old = dict(re.findall(r"^\| `([\w-]+)` \|.*\| ([^|]*) \|$", s, re.M))
import sys
for a in sys.argv[1:]:
    k, v = a.split("=", 1)
    old[k] = v
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| `%s` | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), old.get(i, "?")))
t = "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
