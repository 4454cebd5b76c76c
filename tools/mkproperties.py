"""Writes /verif/properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": a})


IN, CF, HI, FS = "inputs", "configurations", "histories", "fault_sequences"
exec(open(os.path.join(ROOT, "tools", "properties_text.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for o in OUT: f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
