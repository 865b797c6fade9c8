"""Rewrites the table of planted changes in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"; s = open(p).read()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
t = b + "\n" + "\n".join(rows) + "\n" + e
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
