"""rewrites the table of planted changes in DESIGN.md (between the two marker lines)"""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[1]
    cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], cell(m["what_it_breaks"]), "check %s" % m["property"]))
t = open("DESIGN.md").read()
a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
blk = a + "\n" + "\n".join(rows) + "\n" + b
if a in t:
    t = t[:t.index(a)] + blk + t[t.index(b) + len(b):]
else:
    t = t.replace("SEEDED_TABLE", blk)
open("DESIGN.md", "w").write(t)
