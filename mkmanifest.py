"""Writes MANIFEST.json from the modules present in harness/props."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
TECH = json.load(open(f"{here}/techniques.json"))
checks = []
for p in props:
    i = p["id"]
    m = f"{here}/harness/props/{i.lower()}.py"
    if not os.path.exists(m) or i not in TECH:
        continue
    lvl = re.search(r'^LEVEL = "(\w+)"', open(m).read(), re.M).group(1)
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
                   "technique": TECH[i]["technique"], "level": lvl, "level_note": TECH[i]["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "All checks run /repo's working tree under monitors; see DESIGN.md."}, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks))
