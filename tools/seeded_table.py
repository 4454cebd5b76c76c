"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
p = H + "/DESIGN.md"
s = open(p).read()
block = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("@@TABLE@@", block) if "@@TABLE@@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: block, s, flags=re.S)
open(p, "w").write(s)
