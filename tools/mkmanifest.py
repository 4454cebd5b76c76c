"""Writes /verif/MANIFEST.json from the registered contracts and tools/levels; properties.jsonl is hand written."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
from vf.run import contract_index
idx = contract_index()
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
PY = "/opt/venv/bin/python -m vf.run --property %s --tier %s"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    cs = idx.get(i)
    if not cs:
        na.append({"property": i, "reason": "not built yet"}); continue
    proved = [c for c in cs if c["kind"] == "proof"]
    bounded = [c for c in cs if c["kind"] != "proof"]
    note = ("%d contracts on %d functions of the code under test; every obligation discharged for all inputs by symbolic execution of the real source"
            % (len(proved), len({f for c in proved for f in c["funcs"]})))
    b = [("%s: %s" % (c["name"], c["bounds"])) for c in proved if c["bounds"]]
    if b: note += "; container sizes bounded as: " + "; ".join(b)
    if bounded: note += "; bounded stand-ins (not counted as proved): " + "; ".join("%s: %s" % (c["name"], c["bounds"]) for c in bounded)
    checks.append({"property": i, "quick_cmd": PY % (i, "quick"), "thorough_cmd": PY % (i, "thorough"),
                   "technique": "contracts on the real Python functions, verification conditions by symbolic execution, discharged by normal form and SMT" if proved
                   else "contracts on the real Python functions, checked at run time on bounded inputs",
                   "level": "proof" if proved else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m vf.run --selftest", "checks": checks, "not_applicable": na,
     "notes": "Checks run from /verif against /repo's working tree with the interpreter of the repository's own environment; nothing is built or written in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])
