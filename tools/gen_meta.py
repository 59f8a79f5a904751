"""Writes properties.jsonl and MANIFEST.json from tools/props.py (PROPS)."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES
V = "/verif/"
with open(V + "properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs", "configurations"]), text=p["quant"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in PROPS:
    if "na" in p:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./run.sh %s" % p["id"], thorough_cmd="./run.sh %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="bounded symbolic execution of the real code, claims decided by z3 (SMT, real arithmetic)",
        level="other", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES), open(V + "MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "n/a")
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
