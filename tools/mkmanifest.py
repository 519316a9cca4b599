"""writes MANIFEST.json from properties.jsonl and the contracts that exist"""
import json, os, sys, importlib
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NA = json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else {}
NOTES = json.load(open("tools/level_notes.json"))
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if os.path.exists("contracts/%s.py" % i.lower()) and os.path.exists("harness/%s.py" % i.lower()) and i not in NA:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3-vt check.py " + i, thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
            technique="contract-based deductive verification (pyver VCs from the real AST, z3/cvc5) + runtime contract replay",
            level=n.get("level", "proof"), level_note=n.get("note", "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3-vt tools/selftest.py", checks=checks, not_applicable=na)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed,", len(na), "not claimed")
