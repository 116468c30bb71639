#!/usr/bin/python3.12
"""Write MANIFEST.json from the list of implemented properties in check.py."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("check", V + "/check.py")
check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
NOTES = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.py {i} quick", "thorough_cmd": f"./check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n[0], "level": "exploration", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": NOTES.get("NA", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the sources in /repo's working tree itself (cache in build/, ignored by git). No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
