"""fills the table of planted changes of DESIGN.md from seeded/*/meta.json (between the headings of sections 6 and 'Besides')"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {"c08-f32-clock": "large indices", "c01-narrow-counter": "wide literals", "c12-rx-whole-hertz": "fractional bands"}
rows = ["| change | breaks | needs | first missed, then caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s (%s) | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], m.get("first_missed", FIRST.get(d, ""))))
s = open(V + "/DESIGN.md").read()
a = s.index("All are caught by the property named.") + len("All are caught by the property named.")
b = s.index("Besides these, several hundred")
open(V + "/DESIGN.md", "w").write(s[:a] + "\n\n" + "\n".join(rows) + "\n\n" + s[b:])
