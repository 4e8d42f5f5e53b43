"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.  Run by hand."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for m in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[1], j["property"], j["needs"].replace("|", "/")))
s = open("DESIGN.md").read()
a, b = "<!-- matrix -->\n", "<!-- end -->\n"
t = a + "| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + b
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else:
    s += "\n" + t
open("DESIGN.md", "w").write(s)
